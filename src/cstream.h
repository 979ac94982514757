/* One streaming compression session with all checks after every call, shared by the sequence
 * enumeration (h_cstream.cpp) and the schedule exploration (h_sched.cpp). */
#pragma once
#include "lib.h"
#include "params.h"

static GuardBuf *IB, *OB; static uint64_t nOps; static FL2_DCtx* DC;
static size_t D = 4096, FED_MAX = 60000, COPY = 777, ROT = 5000;   /* dictionary size, most input of a session, drain step, start offsets; larger with the real constants */
static std::vector<u8> SRC[3];
enum Out { BIG, NONE, FIVE, ZERO };         /* plenty of space, no buffer, 5 bytes, 0 bytes */
static const char* outName[] = {"big", "NULL", "5", "0"};
static size_t outSize[] = {20000, 0, 5, 0};

struct Sess {
    FL2_CStream* s; P p; int dual, kind; unsigned timeout; bool early, async; size_t dict;
    size_t fed = 0, base = 0; Bytes out; bool mustRead = false, ended = false, done = false, inited = false;
    unsigned long long lastProg = 0; size_t lcSets = 0; unsigned nTimeouts = 0; uint64_t hist = 7; bool endPending = false;
    size_t dictFree = 0;
    Sess(const P& q, int dual_, unsigned timeout_, bool early_, int kind_) : p(q), dual(dual_), kind(kind_), timeout(timeout_), early(early_) {
        s = FL2_createCStreamMt(p.threads, dual); if (!s) mcFail("stream not created");
        apply(s, p);
        if (timeout) { size_t e = FL2_setCStreamTimeout(s, timeout); if (FL2_isError(e)) mcFail("FL2_setCStreamTimeout: %s", errName(e)); }
        async = dual || timeout; dict = p.dict;
        init();
    }
    ~Sess() { FL2_freeCStream(s); }
    const u8* src() const { return SRC[kind].data() + base; }
    void init(int level = 0) {
        size_t e = FL2_initCStream(s, level); if (e) mcFail("FL2_initCStream: %s", errName(e));
        base = (base + fed) % ROT; fed = 0; out.clear(); mustRead = ended = done = endPending = false; lastProg = 0; inited = true;
        mid();
    }
    void mid() { if (early) mc_run_others(); }
    bool timedOut(size_t r) { if (!FL2_isTimedOut(r)) return false; if (!timeout) mcFail("timeout code although no timeout is set"); if (++nTimeouts > 200) mcFail("timeouts do not end"); return true; }
    size_t wait() { for (;;) { size_t r = FL2_waitCStream(s); ++nOps; if (timedOut(r)) continue; if (r > 1) mcFail("FL2_waitCStream: %s", errName(r)); return r; } }
    /* buffers start at a position of 0, 1 or 7 by turns */
    size_t turn() { static const size_t v[] = {0, 1, 0, 7}; return v[(nTurn++) & 3]; }
    size_t nTurn = 0, oPre = 0;
    FL2_outBuffer obn(size_t n) { oPre = turn(); FL2_outBuffer o = {OB->get(n + oPre, 0xEE), n + oPre, oPre}; return o; }
    FL2_outBuffer ob(Out m) { return obn(outSize[m]); }
    FL2_inBuffer ib(const u8* d, size_t n) { size_t k = turn(); u8* q = IB->get(n + k); memset(q, 0xA5, k); if (n) memcpy(q + k, d, n); FL2_inBuffer b = {q, n + k, k}; return b; }
    void take(FL2_outBuffer& o, const char* what) {
        OB->check(what); if (o.pos > o.size || o.pos < oPre) mcFail("%s moved the output position from %zu to %zu of %zu", what, oPre, o.pos, o.size);
        for (size_t k = 0; k < oPre; ++k) if (((u8*)o.dst)[k] != 0xEE) mcFail("%s wrote before the output position", what);
        out.insert(out.end(), (u8*)o.dst + oPre, (u8*)o.dst + o.pos);
        for (size_t k = o.pos; k < o.size && k < o.pos + 64; ++k) if (((u8*)o.dst)[k] != 0xEE) mcFail("%s wrote beyond the output position", what);
    }
    void observe(const char* what) {
        ++nOps; mid();
        size_t remBefore = FL2_remainingOutputSize(s);      /* before the reported size: compression may go on between the two */
        unsigned long long os = ~0ull, pr = FL2_getCStreamProgress(s, &os), pr2 = FL2_getCStreamProgress(s, nullptr);
        size_t rem = FL2_remainingOutputSize(s);
        if (mcProp == "C19") {
            if (mc_inside_explore() && async ? pr2 < pr : pr != pr2) mcFail("%s: progress %llu or %llu", what, pr, pr2);
            if (pr2 > fed) mcFail("%s: progress %llu, input supplied %zu", what, pr, fed);
            if (pr < lastProg) mcFail("%s: progress went from %llu to %llu", what, lastProg, pr);
            if (FL2_isError(rem)) mcFail("%s: FL2_remainingOutputSize: %s", what, errName(rem));
            size_t trailer = ended ? (p.omit ? 1 : p.xxh != 0 ? 5 : 1) + (fed == 0 && !p.omit) : 0;
            bool idle = !async || early;    /* no compression is under way */
            if (idle) { if (os + trailer != out.size() + rem) mcFail("%s: reported output %llu (+ %zu at the end), delivered %zu, remaining %zu", what, os, trailer, out.size(), rem); }
            else if (os + trailer < out.size() + remBefore) mcFail("%s: reported output %llu (+ %zu at the end), delivered %zu, remaining %zu", what, os, trailer, out.size(), remBefore);
        }
        lastProg = pr2; hist = mcMix(hist, out.size() * 131 + fed * 7 + rem); mcNewState(mcMix(hist, mcHashBytes(p.str().data(), p.str().size())));
    }
    void fail(const char* what, size_t r) { mcFail("%s: %s (supplied %zu, delivered %zu)", what, errName(r), fed, out.size()); }
    /* all input in one go, as the documentation allows: repeat while input is left, draining when told to */
    void compress(size_t n, Out m) {
        if (m == NONE && mustRead) drain();
        FL2_inBuffer in = ib(src() + fed, n); unsigned idle = 0;
        do {
            FL2_outBuffer o = ob(m); size_t ip = in.pos, before = out.size();
            size_t r = FL2_compressStream(s, m == NONE ? nullptr : &o, &in);
            if (in.pos < ip || in.pos > in.size) mcFail("compressStream moved the input position from %zu to %zu of %zu", ip, in.pos, in.size);
            fed += in.pos - ip; if (m != NONE) take(o, "FL2_compressStream");
            bool to = timedOut(r); if (!to && r > 1) fail("FL2_compressStream", r);
            if (!to) mustRead = r == 1;
            if (m != NONE && !to && r == 1 && o.pos < o.size && !async) mcFail("FL2_compressStream returned 1 although the output has space left");
            if (m != NONE && !to && r == 0 && rem0()) mcFail("FL2_compressStream returned 0 with %zu bytes of output left", rem0());
            observe("FL2_compressStream");
            if (to) { wait(); continue; }
            if (in.pos == ip && out.size() == before) { if (++idle > 4) { drain(); idle = 0; } } else idle = 0;
            if (m == NONE || m == ZERO) { if (mustRead) drain(); }
        } while (in.pos < in.size);
    }
    size_t rem0() { return async && !early ? 0 : FL2_remainingOutputSize(s); }
    void push(size_t k, bool all) {          /* fill up to k bytes of the dictionary buffer directly; all: whatever is offered, less k */
        FL2_dictBuffer b;
        for (;;) { size_t r = FL2_getDictionaryBuffer(s, &b); if (timedOut(r)) { wait(); continue; } if (r) fail("FL2_getDictionaryBuffer", r); break; }
        observe("FL2_getDictionaryBuffer");
        size_t n = all ? (b.size > k ? b.size - k : 0) : std::min<size_t>(k, b.size);
        if (b.size > dict) mcFail("dictionary buffer of %lu bytes", b.size);
        memcpy(b.dst, src() + fed, n); fed += n;
        size_t r = FL2_updateDictionary(s, n);
        bool to = timedOut(r); if (!to && r > 1) fail("FL2_updateDictionary", r);
        if (!to) mustRead = r == 1;
        observe("FL2_updateDictionary");
        if (to) { wait(); mustRead = true; }
    }
    /* take internal buffers; max < 0: until there are none */
    size_t next(int max = -1) {
        size_t got = 0;
        for (int k = 0; max < 0 || k < max; ++k) {
            FL2_cBuffer b; size_t r = FL2_getNextCompressedBuffer(s, &b);
            if (timedOut(r)) { wait(); --k; continue; }
            if (FL2_isError(r)) fail("FL2_getNextCompressedBuffer", r);
            if (r != b.size) mcFail("FL2_getNextCompressedBuffer returned %zu, buffer size %zu", r, b.size);
            if (b.size) out.insert(out.end(), (const u8*)b.src, (const u8*)b.src + b.size);
            observe("FL2_getNextCompressedBuffer");
            if (!r) { mustRead = false; break; }
            got += r; if (k > 100) mcFail("FL2_getNextCompressedBuffer does not reach 0");
        }
        return got;
    }
    void copy(size_t n) {
        FL2_outBuffer o = obn(n); size_t r = FL2_copyCStreamOutput(s, &o); take(o, "FL2_copyCStreamOutput");
        if (r > 1) fail("FL2_copyCStreamOutput", r); if (r == 1 && o.pos < o.size) mcFail("FL2_copyCStreamOutput returned 1 with space left"); mustRead = r == 1;
        observe("FL2_copyCStreamOutput");
    }
    void drain() { if (out.size() & 1) { next(); return; } for (;;) { wait(); copy(COPY); if (!mustRead) break; } }
    /* everything supplied must decode from what was delivered */
    void flushed(const char* what) {
        if (mcProp != "C07" && mcProp != "C11") return;
        if (!fed && out.empty()) return;
        size_t skip = p.omit ? 0 : 1; if (!p.omit && out.empty()) mcFail("%s: returned 0, %zu bytes supplied, nothing delivered", what, fed);
        RefInfo I = refDecode(out.data() + skip, out.size() - skip, refDictSize(p.omit ? FL2_getCCtxDictProp(s) : out[0]));
        if (I.st == RefInfo::CORRUPT || I.st == RefInfo::OK) mcFail("%s: delivered data are %s", what, I.st == RefInfo::OK ? "already ended" : I.why);
        if (I.out.size() != fed || memcmp(I.out.data(), src(), fed)) mcFail("%s returned 0: %zu bytes supplied, %zu can be decoded%s", what, fed, I.out.size(), I.out.size() == fed ? " (different)" : "");
        mcCount("completed flushes");
    }
    bool flush1(Out m) {
        if (m == NONE && mustRead) drain();
        FL2_outBuffer o = ob(m); size_t r = FL2_flushStream(s, m == NONE ? nullptr : &o); if (m != NONE) take(o, "FL2_flushStream");
        bool to = timedOut(r); if (!to && r > 1) fail("FL2_flushStream", r);
        if (!to) mustRead = r == 1; observe("FL2_flushStream");
        if (to) { wait(); return false; }
        if (r == 0) flushed("FL2_flushStream");
        if (r == 1 && (m == NONE || m == ZERO)) drain();
        return r == 0;
    }
    void flush(Out m) { for (unsigned k = 0; !flush1(m); ++k) if (k > 100 + 2 * fed) mcFail("flushing does not finish (output space %s, %zu bytes supplied, %zu delivered)", outName[m], fed, out.size()); }
    bool end1(Out m) {
        if (m == NONE && mustRead) drain();
        FL2_outBuffer o = ob(m); size_t r = FL2_endStream(s, m == NONE ? nullptr : &o); if (m != NONE) take(o, "FL2_endStream");
        bool to = timedOut(r); if (!to && r > 1) fail("FL2_endStream", r);
        unsigned long long os; FL2_getCStreamProgress(s, &os);
        if (!to) mustRead = r == 1;
        { size_t rem = FL2_remainingOutputSize(s); if (!FL2_isError(rem) && out.size() + rem > os) ended = true; if (r == 0) ended = true; }
        observe("FL2_endStream");
        if (to) { wait(); return false; }
        if (r == 1 && (m == NONE || m == ZERO)) drain();
        return r == 0;
    }
    void end(Out m) {
        for (unsigned k = 0; !end1(m); ++k) if (k > 100 + 2 * fed) mcFail("ending does not finish (output space %s)", outName[m]);
        done = true;
        verify();
    }
    void verify() {
        RefInfo I; size_t total; bool hash = p.xxh != 0 && !p.omit;
        if (p.omit) { I = refDecode(out.data(), out.size(), refDictSize(FL2_getCCtxDictProp(s))); total = I.consumed; }
        else { RefStream R = refStream(out.data(), out.size()); if (R.info.st == RefInfo::OK && R.hashPresent != hash) mcFail("hash %s", hash ? "missing" : "present"); total = R.total; I = std::move(R.info); }
        if (I.st != RefInfo::OK) mcFail("output is not a valid stream: %s after %zu of %zu bytes", I.why, I.out.size(), fed);
        if (total != out.size()) mcFail("the stream ends at %zu of %zu bytes", total, out.size());
        if (I.out.size() != fed || memcmp(I.out.data(), src(), fed)) { size_t k = 0; while (k < fed && k < I.out.size() && I.out[k] == src()[k]) ++k; mcFail("stream decodes to %zu bytes, %zu were supplied; first difference at %zu", I.out.size(), fed, k); }
        if (mcProp == "C02" && p.reset > 0 && fed) { size_t last = 0; I.dictResets.push_back(fed); for (size_t r : I.dictResets) { if (r - last > dict * p.reset) mcFail("%zu bytes without dictionary reset, interval %zu x %d", r - last, dict, p.reset); last = r; } }
        mcMax("bytes supplied", fed); mcMax("largest match distance", I.maxDist);
    }
};
struct Cfg { P p; int dual; unsigned timeout; bool early; const char* n; };
static Cfg cfg(const char* n, int st, int ov, int rs, unsigned th, int dual, bool early, unsigned timeout = 0, int omit = 0, int xxh = -1, size_t dict = 0, int lclppb = 0) {
    if (!dict) dict = D;
    Cfg c; c.n = n; c.p.strategy = st; c.p.overlap = ov; c.p.reset = rs; c.p.threads = th; c.p.dict = dict; c.p.omit = omit; c.p.xxh = xxh; c.dual = dual; c.early = early; c.timeout = timeout;
    if (lclppb) { c.p.lc = 2; c.p.lp = 2; c.p.pb = 4; } return c;
}
static std::vector<Cfg> cfgs() {
    return { cfg("single", 0, 2, 4, 1, 0, false), cfg("dual, no overlap, late", 0, 0, 1, 1, 1, false), cfg("dual, no overlap, early", 0, 0, 1, 1, 1, true), cfg("2 threads", 1, 2, 2, 2, 0, false),
             cfg("dual, 3 threads, late", 2, 14, 2, 3, 1, false), cfg("dual, early, raw", 0, 2, 0, 1, 1, true, 0, 1), cfg("timeout set, no hash", 0, 5, 1, 1, 0, false, 1, 0, 0), cfg("dual, 2 threads, early", 2, 1, 1, 2, 1, true),
             cfg("single, no overlap, odd size", 0, 0, 4, 1, 0, false, 0, 0, -1, 4099), cfg("single, struct table", 1, 3, 1, 2, 0, false, 0, 0, -1, 9000), cfg("single, odd size, lp 2", 2, 3, 16, 1, 0, false, 0, 0, -1, 4107, 1) };
}
struct Op { char c; size_t n; Out m; };
static std::string opStr(const Op& o) {
    char t[64];
    switch (o.c) {
    case 'C': snprintf(t, sizeof t, "compress(%zu,%s) ", o.n, outName[o.m]); break;
    case 'G': snprintf(t, sizeof t, "fill(%zu) ", o.n); break; case 'A': snprintf(t, sizeof t, "fill(all-%zu) ", o.n); break;
    case 'N': snprintf(t, sizeof t, o.n ? "next(%zu) " : "next(all) ", o.n); break; case 'O': snprintf(t, sizeof t, "copy(%zu) ", o.n); break;
    case 'F': snprintf(t, sizeof t, "flush(%s) ", outName[o.m]); break; case 'f': snprintf(t, sizeof t, "flush once(%s) ", outName[o.m]); break; case 'I': snprintf(t, sizeof t, "flush x %zu ", o.n); break;
    case 'E': snprintf(t, sizeof t, "end(%s) ", outName[o.m]); break; case 'e': snprintf(t, sizeof t, "end once(%s) ", outName[o.m]); break; case 'W': snprintf(t, sizeof t, "wait "); break; case 'L': snprintf(t, sizeof t, "lc/lp/pb %zu ", o.n); break; case 'R': snprintf(t, sizeof t, "init "); break;
    }
    return t;
}
static bool doOp(Sess& S, const Op& o) {
    size_t n = o.n;
    if (S.done && o.c != 'R' && o.c != 'E' && o.c != 'W' && o.c != 'N') return false;     /* the stream has ended: only a new one may start */
    if (S.ended && !S.done && !strchr("EeWNO", o.c)) return false;                              /* once ending has begun it goes on */
    if (S.fed + (o.c == 'C' ? n : 0) > FED_MAX) return false;
    switch (o.c) {
    case 'C': S.compress(n, o.m); break;
    case 'G': S.push(n, false); break;
    case 'A': S.push(n, true); break;
    case 'N': S.next(n ? (int)n : -1); break;
    case 'O': S.copy(n); break;
    case 'F': S.flush(o.m); break;
    case 'f': S.flush1(o.m); break;
    case 'I': S.flush(BIG); for (size_t k = 0; k < n; ++k) { size_t b = S.out.size(); if (!S.flush1(k & 1 ? NONE : BIG) && !S.timeout) mcFail("flushing with nothing pending returned 1"); if (S.out.size() != b) mcFail("flushing with nothing pending delivered %zu bytes", S.out.size() - b); } break;
    case 'E': if (S.done) { for (int k = 0; k < 15; ++k) { FL2_outBuffer ob = S.ob(BIG); size_t r = FL2_endStream(S.s, &ob); if (r || ob.pos != S.oPre) mcFail("FL2_endStream repeated after the end: %zu, %zu bytes of output", r, ob.pos); } break; } S.end(o.m); break;
    case 'e': if (S.end1(o.m)) { S.done = true; S.verify(); } break;
    case 'W': { size_t r = S.wait(); if (r != (FL2_remainingOutputSize(S.s) != 0)) mcFail("FL2_waitCStream returned %zu with %zu bytes remaining", r, FL2_remainingOutputSize(S.s)); S.mustRead = r == 1; S.observe("FL2_waitCStream"); break; }
    case 'L': { static const int v[4][3] = {{0, 4, 0}, {4, 0, 4}, {1, 1, 1}, {0, 0, 2}}; const int* q = v[n & 3]; FL2_CStream_setParameter(S.s, FL2_p_literalCtxBits, 0); FL2_CStream_setParameter(S.s, FL2_p_literalPosBits, 0);
        size_t r = FL2_CStream_setParameter(S.s, FL2_p_literalCtxBits, q[0]); if (FL2_isError(r)) S.fail("set lc", r); r = FL2_CStream_setParameter(S.s, FL2_p_literalPosBits, q[1]); if (FL2_isError(r)) S.fail("set lp", r); r = FL2_CStream_setParameter(S.s, FL2_p_posBits, q[2]); if (FL2_isError(r)) S.fail("set pb", r); break; }
    case 'R': S.init(); break;
    }
    return true;
}
