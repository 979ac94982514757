/* C09, C11, C12 (and the concurrent part of C19): the real multithreaded code under every schedule of its threads
 * within a deviation bound.  Scheduling points: every pthread operation, every atomic access, and every access to a
 * location which the happens-before monitor found to be shared without ordering.  Timers expire as deviations. */
#include "cstream.h"
extern "C" { int mc_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); int mc_pthread_join(pthread_t, void**); }
static uint64_t outcomes;
struct Sch { int bound; bool freeBlock; unsigned slices; bool focus = false; };
static unsigned mcSlice, mcSlices;
static void explore(const Sch& s, const std::function<void()>& body) {
    McExplore x; x.bound = s.bound + mcThorough; x.budget = (double)mcSlices * (mcProp == "C09" || mcJob == "deepcancel" ? 4000 : mcThorough ? mcJob == "deep" ? 4000 : 1500 : mcJob == "deep" ? 1200 : mcJob == "async" ? 700 : 1100); x.freeBlock = s.freeBlock; x.focus = s.focus; x.monitor = s.focus; x.shard = mcSlice; x.nshards = mcSlices;
    if (mcHaveSched) { mc_run_one(x, mc_parse_schedule(mcReplaySched), body); return; }
    x.maxSeconds = std::max(1.0, mcDeadline - mcNow());
    mc_explore(x, [&] { body(); ++mcS->seq; });
    mcCount("executions", x.execs); mcCount("transitions", x.points); mcCount("timer expiries", x.timeouts); mcCount("context switches", x.switches);
    mcMax("points per execution", x.maxPoints); mcMax("racy locations", x.racy);
    mcCount(("cases at bound " + std::to_string(x.bound)).c_str(), 1);
    if (!x.complete) mcCapped = true;
}
#define SLICED(f, S, ...) for (mcSlices = (S).slices * (mcThorough ? 12 : 1), mcSlice = 0; mcSlice < mcSlices; ++mcSlice) if ((f).next(__VA_ARGS__))
static uint64_t shape() { uint64_t h = 3; for (auto& d : mc_taken()) h = mcMix(h, d.point * 64 + d.choice); return h; }
static void seen(uint64_t result) { mcNewState(mcMix(mcMix(result, shape()), mcHashBytes(mcS->desc, strlen(mcS->desc)))); }
/* few different pairs of letters, so that few lists are handed out */
static Bytes letters(size_t n, int k, u32 seed) { Bytes b; lcg = seed; while (b.size() < n) { u8 c = rnd(); if (b.size() > 40 && c < 90) { size_t d = 1 + rnd() % 39, l = 2 + rnd() % 14; while (l-- && b.size() < n) b.push_back(b[b.size() - d]); } else b.push_back((u8)('a' + c % k)); } return b; }
/* ================= C09 ================= */
struct CCase { size_t n; unsigned threads; int st; size_t dict; int ov; int kind; Sch s; int ops; };
static Bytes input(int kind, size_t n) { return kind == 0 ? letters(n, 3, 7) : kind == 1 ? letters(n, 2, 9) : kind == 2 ? noise(n, 5) : Bytes(n, 'x'); }
static P params(const CCase& c) { P p; p.dict = c.dict; p.strategy = c.st; p.overlap = c.ov; p.reset = 2; p.threads = c.threads; p.chain = 4; p.cycles = 2; p.depth = 8; return p; }
static Bytes oneShot(FL2_CCtx* c, const Bytes& in) { Bytes o(FL2_compressBound(in.size()) + 2000); size_t r = FL2_compressCCtx(c, o.data(), o.size(), in.data(), in.size(), 0); if (FL2_isError(r)) mcFail("compression failed: %s", errName(r)); o.resize(r); return o; }
static FL2_CCtx* newC(const P& p) { FL2_CCtx* c = FL2_createCCtxMt(p.threads); if (!c) mcFail("context not created"); apply(c, p); return c; }
static void c09c() {
    Fam f("compress"); std::vector<CCase> cs;
    for (unsigned t : {2u, 3u}) for (int st = 0; st < 3; ++st) for (int kind = 0; kind < 4; ++kind) cs.push_back({t == 2 ? 1040u : 1560u, t, st, 4096, 0, kind, {t == 2 ? 3 : 2, false, t == 2 ? 2u : 1u}, 1});
    for (int st = 0; st < 3; ++st) { cs.push_back({9100, 2, st, 9000, 2, 0, {1, false, 2}, 1}); cs.push_back({2600, 2, st, 4096, 2, 1, {2, false, 2}, 2}); cs.push_back({4700, 2, st, 4096, st * 7, 0, {2, false, 2}, 1}); }
    cs.push_back({700, 2, 0, 4096, 0, 3, {3, false, 4}, 1}); cs.push_back({300, 4, 0, 4096, 0, 1, {2, false, 2}, 3}); cs.push_back({2100, 4, 1, 4096, 0, 1, {1, false, 2}, 1});
    for (auto& c : cs) SLICED(f, c.s, "one-shot %zu bytes (input %d), %u threads, strategy %d, dictionary %zu, overlap %d, %d operations, bound %d, part %u/%u", c.n, c.kind, c.threads, c.st, c.dict, c.ov, c.ops, c.s.bound, mcSlice, mcSlices) {
        P p = params(c); Bytes in = input(c.kind, c.n), in2 = letters(600, 3, 2); FL2_CCtx* q = newC(p); Bytes want = oneShot(q, in), want2 = oneShot(q, in2); FL2_freeCCtx(q);
        RefStream R = refStream(want.data(), want.size()); if (R.info.st != RefInfo::OK || R.info.out != in) mcFail("the default schedule gives a wrong stream");
        explore(c.s, [&] {
            FL2_CCtx* x = newC(p);
            for (int k = 0; k < c.ops; ++k) { const Bytes& i = k & 1 ? in2 : in; const Bytes& w = k & 1 ? want2 : want; Bytes o = oneShot(x, i); if (o != w) { size_t d = 0; while (d < o.size() && d < w.size() && o[d] == w[d]) ++d; mcFail("operation %d: the output depends on the schedule (%zu or %zu bytes, first difference at %zu)", k, o.size(), w.size(), d); } }
            FL2_freeCCtx(x); if (mc_alloc.live) mcFail("%zu bytes leaked", mc_alloc.live); seen(1);
        });
    }
}
struct DRes { bool err; Bytes out; size_t consumed; int code = 0; };
static int codeOf(size_t r) { return FL2_isError(r) ? (int)FL2_getErrorCode(r) : 0; }
static Bytes mkStream(size_t n, int kind, size_t dict, int reset, bool xxh, unsigned seed = 0) { P p; p.dict = dict; p.strategy = 0; p.overlap = 0; p.reset = reset; p.xxh = xxh; p.depth = 8; FL2_CCtx* c = newC(p); Bytes b = input(kind, n); if (seed && b.size()) b[0] = (u8)seed; Bytes o = oneShot(c, b); FL2_freeCCtx(c); return o; }
static DRes decOne(FL2_DCtx* d, const Bytes& s, size_t cap) { DRes r; Bytes o(cap + 1); size_t q = FL2_decompressDCtx(d, o.data(), cap, s.data(), s.size()); r.err = FL2_isError(q); r.code = codeOf(q); if (!r.err) { o.resize(q); r.out = o; } r.consumed = 0; return r; }
static size_t waitD(FL2_DStream* d) { size_t r; unsigned k = 0; do { r = FL2_waitDStream(d); if (++k > 3000) mcFail("waiting does not end"); } while (FL2_isTimedOut(r)); return r; }
static DRes decStream(FL2_DStream* d, const Bytes& s, size_t cap, size_t is, size_t os, bool early = false) {
    /* buffers used asynchronously live in monitored memory */
    DRes r; r.err = true; r.consumed = 0; size_t q = FL2_initDStream(d); if (q) mcFail("FL2_initDStream: %s", errName(q));
    u8* ip = (u8*)mc_malloc(s.size() + 1); memcpy(ip, s.data(), s.size()); u8* op = (u8*)mc_malloc(cap + 1); memset(op, 0xEE, cap + 1);
    FL2_inBuffer* in = (FL2_inBuffer*)mc_malloc(sizeof *in); FL2_outBuffer* ob = (FL2_outBuffer*)mc_malloc(sizeof *ob); *in = {ip, 0, 0}; *ob = {op, 0, 0};
    unsigned idle = 0, calls = 0; unsigned long long prog = 0; bool done = false;
    for (;;) {
        if (in->pos == in->size) in->size = std::min(s.size(), in->size + is);
        if (ob->pos == ob->size) ob->size = std::min(cap, ob->size + os);
        size_t a = in->pos, b = ob->pos; uint64_t to = mc_sched.timeouts; q = FL2_decompressStream(d, ob, in);
        if (FL2_isTimedOut(q)) {
            if (mc_inside_explore() && mc_sched.timeouts == to && !early) mcFail("timeout code although no timer expired");
            unsigned long long p = FL2_getDStreamProgress(d); if (p < prog) mcFail("progress went from %llu to %llu", prog, p); prog = p;
            q = waitD(d); }
        if (FL2_isError(q)) break;
        mc_touch(&ob->pos, false, "caller reading the output position after completion"); if (ob->pos > b) { mc_touch(op + b, false, "caller reading output after completion"); mc_touch(op + ob->pos - 1, false, "caller reading output after completion"); }
        if (ob->pos > ob->size || in->pos > in->size || ob->pos < b || in->pos < a) mcFail("position outside the buffer");
        unsigned long long p = FL2_getDStreamProgress(d); if (p < prog || p < ob->pos) mcFail("progress %llu, was %llu, %zu bytes delivered", p, prog, ob->pos); prog = p;
        if (q == 0) { done = true; break; } if (q != 1) mcFail("FL2_decompressStream returned %zu", q);
        if (in->pos == a && ob->pos == b) { if (++idle > 12) break; } else idle = 0;
        if (++calls > 4000) mcFail("decompression does not end");
    }
    r.err = !done; r.code = codeOf(q); if (done) { r.out.assign(op, op + ob->pos); r.consumed = in->pos; } 
    mc_free(ip); mc_free(op); mc_free(in); mc_free(ob); return r;
}
/* the error code may differ from that of other thread counts, but not between schedules (first: the default schedule) */
static void sameCode(const DRes& r, const DRes& first, bool timers) {
    if (r.err && r.code == FL2_error_canceled) mcFail("the result is \"%s\" although nobody cancelled", FL2_getErrorString((FL2_ErrorCode)r.code));
    if (r.code != first.code) mcFail("the result is \"%s\" under this schedule and \"%s\" under the default schedule%s", FL2_getErrorString((FL2_ErrorCode)r.code), FL2_getErrorString((FL2_ErrorCode)first.code), timers ? " without a timeout" : "");
}
static bool same(const DRes& a, const DRes& b) { return a.err == b.err && a.out == b.out && a.consumed == b.consumed; }
struct Str { std::string n; Bytes s; size_t cap; };
static std::vector<Str> streams() {
    std::vector<Str> v; auto put = [&](const char* n, Bytes s, size_t cap) { v.push_back({n, s, cap}); };
    Bytes a = mkStream(12000, 0, 4096, 1, true); put("3 blocks", a, 12000);
    { RefEnc e; e.lc = 3; e.lp = 0; e.pb = 0; for (int b = 0; b < 5; ++b) { e.begin(3); for (int k = 0; k < 9; ++k) e.literal((u8)(b * 40 + k)); e.match(5, 30 + b); e.end(); } e.eos(); put("5 short blocks", e.stream(0x80), 9 * 5 + 5 * 30 + 10); }
    { RefEnc e; e.lc = 3; e.lp = 0; e.pb = 0; Bytes z = noise(300, 4); e.stored(z.data(), 300, true); e.begin(2); e.match(300, 20); e.end(); e.stored(z.data(), 200, true); e.stored(z.data(), 7, true); e.eos(); put("stored and compressed blocks", e.stream(0), 527); }
    for (size_t at : {(size_t)0, a.size() / 6, a.size() / 2, a.size() - 60, a.size() - 1}) { Bytes b = a; b[at] ^= 0x21; put(("3 blocks, byte " + std::to_string(at) + " changed").c_str(), b, 12000); }
    { Bytes b = a; b.resize(a.size() / 2); put("3 blocks, truncated", b, 12000); } put("3 blocks, output too small", a, 9000);
    { Bytes b = v[1].s; b[b.size() / 2] ^= 0xFF; put("5 short blocks, changed", b, v[1].cap); } { Bytes b = v[1].s; b.resize(b.size() - 9); put("5 short blocks, truncated", b, v[1].cap); }
    return v;
}
static void c09d() {
    Fam f("decompress"); std::vector<Str> ss = streams(); 
    struct DC_ { int how; unsigned threads; size_t is, os; Sch s; };
    std::vector<DC_> ds = {{0, 2, 0, 0, {3, false, 2}}, {0, 3, 0, 0, {3, false, 4}}, {0, 6, 0, 0, {2, false, 1}}, {1, 2, 1 << 20, 1 << 20, {3, false, 3}}, {1, 3, 1 << 20, 1 << 20, {3, false, 4}}, {1, 2, 300, 2000, {2, false, 1}}, {1, 3, 1 << 20, 50, {2, false, 2}}, {1, 5, 700, 1 << 20, {2, false, 2}}};
    for (auto& s : ss) for (auto& d : ds) SLICED(f, d.s, "%s, %s, %u threads, steps %zu/%zu, bound %d, part %u/%u", s.n.c_str(), d.how ? "stream" : "one-shot", d.threads, d.is, d.os, d.s.bound, mcSlice, mcSlices) {
        DRes want; if (d.how) { FL2_DStream* q = FL2_createDStreamMt(1); want = decStream(q, s.s, s.cap, d.is, d.os); FL2_freeDStream(q); } else { FL2_DCtx* q = FL2_createDCtxMt(1); want = decOne(q, s.s, s.cap); FL2_freeDCtx(q); }
        auto go = [&] { DRes r; if (d.how) { FL2_DStream* q = FL2_createDStreamMt(d.threads); r = decStream(q, s.s, s.cap, d.is, d.os); FL2_freeDStream(q); } else { FL2_DCtx* q = FL2_createDCtxMt(d.threads); r = decOne(q, s.s, s.cap); FL2_freeDCtx(q); } return r; };
        DRes first = go();
        explore(d.s, [&] {
            for (int k = 0; k < 1; ++k) { DRes r = go(); sameCode(r, first, false);
                if (!same(r, want)) mcFail("%s, %zu bytes, %zu consumed; with one thread %s, %zu bytes, %zu consumed%s", r.err ? "error" : "ok", r.out.size(), r.consumed, want.err ? "error" : "ok", want.out.size(), want.consumed, r.out.size() == want.out.size() && r.out != want.out ? "; data differ" : ""); }
            if (mc_alloc.live) mcFail("%zu bytes leaked", mc_alloc.live); seen(2);
        });
    }
}
/* ================= C11 ================= */
static Cfg scfg(const char* n, int st, int ov, int rs, unsigned th, int dual, unsigned timeout, int omit = 0) { Cfg c = cfg(n, st, ov, rs, th, dual, false, timeout, omit); c.p.depth = 6; c.p.chain = 4; return c; }
static void c11c(int bound2) {
    Fam f(bound2 ? "async compression, deeper" : "async compression");
    std::vector<Cfg> cs = {scfg("dual", 0, 0, 1, 1, 1, 0), scfg("dual, overlap", 0, 2, 2, 1, 1, 0), scfg("timeout", 0, 2, 1, 1, 0, 1), scfg("dual, timeout", 0, 0, 1, 1, 1, 1), scfg("dual, timeout, 2 threads, overlap", 0, 14, 2, 2, 1, 1), scfg("timeout, raw", 1, 0, 0, 1, 0, 1, 1), scfg("dual, 2 threads", 2, 1, 1, 2, 1, 0)};
    std::vector<std::vector<Op>> sq = {
        {{'C', 300, BIG}, {'F', 0, BIG}},
        {{'C', D, BIG}, {'C', 40, BIG}}, {{'C', D, NONE}, {'N', 0, BIG}}, {{'C', D, NONE}, {'O', 50000, BIG}, {'W', 0, BIG}}, {{'C', D + 500, FIVE}}, {{'C', 2 * D + 100, BIG}}, {{'C', 2 * D + 100, NONE}},
        {{'A', 0, BIG}, {'G', 100, BIG}, {'N', 0, BIG}}, {{'A', 0, BIG}, {'A', 0, BIG}, {'F', 0, NONE}}, {{'A', 1, BIG}, {'C', 2, BIG}, {'W', 0, BIG}, {'G', 0, BIG}, {'N', 1, BIG}},
        {{'C', 300, BIG}, {'f', 0, BIG}, {'C', 300, BIG}, {'f', 0, BIG}}, {{'C', D, BIG}, {'f', 0, FIVE}, {'N', 1, BIG}, {'C', 10, BIG}}, {{'C', 900, BIG}, {'e', 0, BIG}, {'e', 0, BIG}}, {{'C', D, BIG}, {'e', 0, FIVE}, {'N', 0, BIG}},
        {{'C', D, BIG}, {'R', 0, BIG}, {'C', 200, BIG}}, {{'C', 700, BIG}, {'f', 0, NONE}, {'R', 0, BIG}, {'C', D, NONE}}, {{'C', 100, BIG}, {'E', 0, BIG}, {'R', 0, BIG}, {'C', D + 1, BIG}}, {{'C', 500, BIG}, {'I', 12, BIG}, {'C', 5, BIG}}, {{'G', 900, BIG}, {'f', 0, BIG}, {'G', 0, BIG}, {'G', 5, BIG}, {'W', 0, BIG}},
    };
    for (size_t i = 0; i < sq.size(); ++i) for (auto& c : cs) for (int kind : {3, 0}) {
        if (mcProp == "C19" && !mcThorough && (kind == 0 || (&c - &cs[0]) % 3)) continue;
        Sch s = {1, false, 1}; if (bound2) { if (i > (mcThorough ? 3 : 2) || kind == 0) continue; s = {2, false, 8}; } if (kind == 0 && i > (mcThorough ? 6 : 3)) continue;
        std::string d; for (auto& o : sq[i]) d += opStr(o);
        SLICED(f, s, "%s, input %d, bound %d: %spart %u/%u", c.n, kind, s.bound, d.c_str(), mcSlice, mcSlices) {
            explore(s, [&] { { Sess S(c.p, c.dual, c.timeout, c.early, kind == 3 ? 2 : 0); for (auto& o : sq[i]) if (!doOp(S, o)) break; if (!S.done) S.end(BIG); outcomes = mcMix(S.hist, S.nTimeouts); }
                if (mc_alloc.live) mcFail("%zu bytes leaked", mc_alloc.live); seen(outcomes); });
        }
    }
}
static FL2_DStream* newD(unsigned threads, unsigned timeout) { FL2_DStream* d = FL2_createDStreamMt(threads); if (!d) mcFail("stream not created"); if (timeout) { size_t r = FL2_setDStreamTimeout(d, timeout); if (r) mcFail("FL2_setDStreamTimeout: %s", errName(r)); } return d; }
static void c11d() {
    Fam f("async decompression"); std::vector<Str> ss = streams();
    struct DC_ { unsigned threads; size_t is, os; Sch s; };
    std::vector<DC_> ds = {{1, 1 << 20, 1 << 20, {3, false, 1}}, {1, 200, 1 << 20, {2, false, 1}}, {1, 1 << 20, 100, {1, false, 1}}, {2, 1 << 20, 1 << 20, {2, false, 3}}, {2, 300, 3000, {1, false, 1}}, {3, 1 << 20, 1 << 20, {1, false, 2}}, {3, 1 << 20, 60, {1, false, 2}}};
    for (auto& s : ss) for (auto& d : ds) SLICED(f, d.s, "%s, %u threads, steps %zu/%zu, bound %d, part %u/%u", s.n.c_str(), d.threads, d.is, d.os, d.s.bound, mcSlice, mcSlices) {
        FL2_DStream* q = newD(1, 0); DRes want = decStream(q, s.s, s.cap, d.is, d.os); FL2_freeDStream(q);
        q = newD(d.threads, 0); DRes first = decStream(q, s.s, s.cap, d.is, d.os); FL2_freeDStream(q);
        explore(d.s, [&] { FL2_DStream* x = newD(d.threads, 1); DRes r = decStream(x, s.s, s.cap, d.is, d.os); FL2_freeDStream(x); sameCode(r, first, true);
            if (!same(r, want)) mcFail("%s, %zu bytes, %zu consumed; without a timeout %s, %zu bytes, %zu consumed%s", r.err ? "error" : "ok", r.out.size(), r.consumed, want.err ? "error" : "ok", want.out.size(), want.consumed, r.out.size() == want.out.size() && r.out != want.out ? "; data differ" : "");
            if (mc_alloc.live) mcFail("%zu bytes leaked", mc_alloc.live); seen(3); });
    }
}
/* ================= C12 ================= */
static Bytes fullC(FL2_CStream* s, const Bytes& in) {
    size_t r = FL2_initCStream(s, 0); if (r) mcFail("initializing the stream after cancelling: %s", errName(r)); Bytes out(FL2_compressBound(in.size()) + 3000); FL2_inBuffer ib = {in.data(), in.size(), 0}; FL2_outBuffer ob = {out.data(), out.size(), 0}; unsigned k = 0;
    auto w = [&] { size_t q; do q = FL2_waitCStream(s); while (FL2_isTimedOut(q)); if (FL2_isError(q)) mcFail("after cancelling: FL2_waitCStream: %s", errName(q)); };
    while (ib.pos < ib.size) { r = FL2_compressStream(s, &ob, &ib); if (FL2_isTimedOut(r)) w(); else if (FL2_isError(r)) mcFail("after cancelling: FL2_compressStream: %s", errName(r)); if (++k > 900) mcFail("compressing does not end"); }
    do { r = FL2_endStream(s, &ob); if (FL2_isTimedOut(r)) { w(); r = 1; } else if (FL2_isError(r)) mcFail("after cancelling: FL2_endStream: %s", errName(r)); if (++k > 900) mcFail("ending does not end"); } while (r);
    out.resize(ob.pos); return out;
}
static void c12c() {
    Fam f("cancel compression");
    std::vector<Cfg> cs = {scfg("dual", 0, 0, 1, 1, 1, 0), scfg("timeout", 0, 2, 1, 1, 0, 1), scfg("dual, timeout, 2 threads", 0, 2, 2, 2, 1, 1), scfg("dual, ultra, 3 threads", 2, 0, 1, 3, 1, 0), scfg("dual, structured table, 2 threads", 1, 2, 1, 2, 1, 0)};
    cs[4].p.dict = 9000;
    static const char* pn[] = {"compressing a full dictionary", "flushing", "ending", "compressing the second dictionary", "filling the dictionary buffer", "nothing", "with output unread"};
    static const char* an[] = {"cancelled, then used again", "freed", "started anew without cancelling", "cancelled twice, settings changed, then used again", "one-shot compression instead", "timeout removed, then used again"};
    for (size_t ci = 0; ci < cs.size(); ++ci) for (int ph = 0; ph < 7; ++ph) for (int act = 0; act < 6; ++act) {
        const Cfg& c = cs[ci]; if (ph == 1 && !c.timeout) { } 
        Sch s = {2, false, 1u}; 
        SLICED(f, s, "%s: %s, %s, bound %d, part %u/%u", c.n, pn[ph], an[act], s.bound, mcSlice, mcSlices) {
            size_t dict = c.p.dict; Bytes in = letters(2 * dict + 900, 2, 3), in2 = letters(700, 3, 12), want, want1; P p2 = c.p; p2.strategy = 1; p2.dict = 5000;
            auto mk = [&] { FL2_CStream* x = FL2_createCStreamMt(c.p.threads, c.dual); if (!x) mcFail("not created"); apply(x, c.p); if (c.timeout) FL2_setCStreamTimeout(x, c.timeout); return x; };
            { FL2_CStream* x = mk(); if (act == 3) apply(x, p2); want = fullC(x, in2); FL2_freeCStream(x); FL2_CCtx* y = newC(c.p); want1 = oneShot(y, in2); FL2_freeCCtx(y); RefStream R = refStream(want.data(), want.size()); if (R.info.st != RefInfo::OK || R.info.out != in2) mcFail("wrong stream"); }
            explore(s, [&] {
                FL2_CStream* x = mk(); size_t r = FL2_initCStream(x, 0); if (r) mcFail("FL2_initCStream: %s", errName(r));
                Bytes o(20000); FL2_outBuffer ob = {o.data(), o.size(), 0}; size_t n = ph == 0 || ph == 6 ? dict : ph == 3 ? 2 * dict + 30 : 600; FL2_inBuffer ib = {in.data(), n, 0};
                if (ph == 4) { FL2_dictBuffer b; r = FL2_getDictionaryBuffer(x, &b); if (r) mcFail("FL2_getDictionaryBuffer: %s", errName(r)); memcpy(b.dst, in.data(), b.size); r = FL2_updateDictionary(x, b.size); if (!FL2_isTimedOut(r) && !FL2_isError(r)) r = FL2_getDictionaryBuffer(x, &b); }
                else if (ph != 5) { r = FL2_compressStream(x, ph == 3 ? &ob : nullptr, &ib); if (ph == 3 && !FL2_isError(r)) r = FL2_compressStream(x, &ob, &ib); }
                if (ph == 1) r = FL2_flushStream(x, nullptr); if (ph == 2) r = FL2_endStream(x, nullptr); if (ph == 6) { if (!FL2_isTimedOut(r)) r = FL2_waitCStream(x); }
                if (FL2_isError(r) && !FL2_isTimedOut(r)) mcFail("before cancelling: %s", errName(r));
                bool to = FL2_isTimedOut(r); if (ph == 0) FL2_getCStreamProgress(x, nullptr);
                if (act == 1) FL2_freeCStream(x);
                else {
                    if (act == 0 || act == 3) { FL2_cancelCStream(x); if (FL2_CStream_setParameter(x, FL2_p_searchDepth, c.p.depth) != (size_t)c.p.depth) mcFail("a parameter is refused after cancelling"); }
                    if (act == 3) { FL2_cancelCStream(x); apply(x, p2); }
                    if (act == 5) { FL2_cancelCStream(x); r = FL2_setCStreamTimeout(x, 0); if (r) mcFail("FL2_setCStreamTimeout: %s", errName(r)); }
                    if (act == 4) { Bytes b = oneShot(x, in2); if (b != want1) mcFail("one-shot compression afterwards gives a different result (%zu and %zu bytes)", b.size(), want1.size()); }
                    else { Bytes b = fullC(x, in2); if (b != want) mcFail("the next stream differs from that of a new object (%zu and %zu bytes)", b.size(), want.size()); }
                    FL2_freeCStream(x);
                }
                if (mc_alloc.live) mcFail("%zu bytes leaked", mc_alloc.live); seen(to);
            });
        }
    }
}
static void c12deep() {
    Fam f("cancel the match table build");
    for (int st = 0; st < 2; ++st) for (int kind = 0; kind < 2; ++kind) {
        Sch s = {3, false, 4, true}; size_t n = 520; Cfg c = scfg("timeout, 2 threads", st, 0, 1, 2, 0, 1); if (kind) c.p.dict = 9000, c.p.strategy = 1;
        SLICED(f, s, "%s, strategy %d, dictionary %zu: flushing, cancelled, then used again, bound %d, part %u/%u", c.n, c.p.strategy, c.p.dict, s.bound, mcSlice, mcSlices) {
            Bytes in = letters(n, 2, 3), in2 = letters(80, 2, 12), want; auto mk = [&] { FL2_CStream* x = FL2_createCStreamMt(2, 0); if (!x) mcFail("not created"); apply(x, c.p); FL2_setCStreamTimeout(x, 1); return x; };
            { FL2_CStream* x = mk(); want = fullC(x, in2); FL2_freeCStream(x); }
            explore(s, [&] {
                FL2_CStream* x = mk(); size_t r = FL2_initCStream(x, 0); if (r) mcFail("FL2_initCStream: %s", errName(r)); FL2_inBuffer ib = {in.data(), in.size(), 0}; r = FL2_compressStream(x, nullptr, &ib);
                r = FL2_flushStream(x, nullptr); bool to = FL2_isTimedOut(r); FL2_cancelCStream(x);
                Bytes b = fullC(x, in2); if (b != want) mcFail("the next stream differs from that of a new object (%zu and %zu bytes)", b.size(), want.size());
                FL2_freeCStream(x); if (mc_alloc.live) mcFail("%zu bytes leaked", mc_alloc.live); seen(to);
            });
        }
    }
}
static void c12d() {
    Fam f("cancel decompression"); std::vector<Str> ss = streams(); ss.resize(5);
    static const char* an[] = {"cancelled, then used again", "freed", "waited for, then used again", "cancelled twice, timeout removed, then used again", "started anew as soon as possible"};
    for (auto& s : ss) for (unsigned t : {1u, 2u, 3u}) for (size_t is : {(size_t)1 << 20, (size_t)400}) for (int act = 0; act < 5; ++act) for (int calls = 1; calls <= 2; ++calls) {
        if (calls == 2 && is > 1000) continue;
        Sch k = {2, false, t == 1 ? 1u : 2u};
        SLICED(f, k, "%s, %u threads, input %zu, call %d %s, bound %d, part %u/%u", s.n.c_str(), t, is, calls, an[act], k.bound, mcSlice, mcSlices) {
            const Str& nx = ss[1]; FL2_DStream* q = newD(1, 0); DRes want = decStream(q, nx.s, nx.cap, 1 << 20, 1 << 20); FL2_freeDStream(q);
            explore(k, [&] {
                FL2_DStream* x = newD(t, 1); size_t r = FL2_initDStream(x); if (r) mcFail("FL2_initDStream: %s", errName(r));
                u8* ip = (u8*)mc_malloc(s.s.size()); memcpy(ip, s.s.data(), s.s.size()); u8* op = (u8*)mc_malloc(s.cap); FL2_inBuffer* in = (FL2_inBuffer*)mc_malloc(sizeof *in); FL2_outBuffer* ob = (FL2_outBuffer*)mc_malloc(sizeof *ob); *in = {ip, 0, 0}; *ob = {op, s.cap, 0};
                bool fl = false;
                for (int c = 0; c < calls && !fl; ++c) { if (!c || in->pos == in->size) in->size = std::min(s.s.size(), in->size + is); r = FL2_decompressStream(x, ob, in); fl = FL2_isTimedOut(r); if (FL2_isError(r) || r == 0) break; }
                if (fl) FL2_getDStreamProgress(x);
                if (act == 1) FL2_freeDStream(x);
                else {
                    if (act == 0 || act == 3) FL2_cancelDStream(x); if (act == 2 && fl) waitD(x);
                    if (act == 3) { FL2_cancelDStream(x); }
                    if (act == 4) { r = FL2_initDStream(x); if (r) { if (!fl) mcFail("FL2_initDStream: %s", errName(r)); waitD(x); } }
                }
                mc_free(ip); mc_free(op); mc_free(in); mc_free(ob);      /* nothing may use them any more */
                if (act != 1) {
                    if (act == 3) { r = FL2_setDStreamTimeout(x, 0); if (r) mcFail("FL2_setDStreamTimeout: %s", errName(r)); }
                    DRes g = decStream(x, nx.s, nx.cap, 1 << 20, 1 << 20, act == 4); if (!same(g, want)) mcFail("the next stream: %s, %zu bytes; on a new object %s, %zu bytes", g.err ? "error" : "ok", g.out.size(), want.err ? "error" : "ok", want.out.size());
                    FL2_freeDStream(x);
                }
                if (mc_alloc.live) mcFail("%zu bytes leaked", mc_alloc.live); seen(fl);
            });
        }
    }
}
/* ================= C21 ================= */
struct Work { std::string n; std::function<Bytes(int)> f; };      /* the argument selects the data, so that threads doing the same work differ */
static void put(Bytes& b, size_t v) { for (int i = 0; i < 8; ++i) b.push_back((u8)(v >> 8 * i)); }
static void put(Bytes& b, const Bytes& x) { put(b, x.size()); b.insert(b.end(), x.begin(), x.end()); }
/* a thread with an object of its own; other threads may run between any two calls */
static std::vector<Work> works() {
    std::vector<Work> w; static Bytes ins[3], in2s[3], in3s[3], s1s[3], s2s[3], s3s[3], s4s[3];
    for (int i = 0; i < 3; ++i) { ins[i] = letters(700, 3, 7 + i); in2s[i] = letters(900, 2, 9 + i); in3s[i] = noise(300, 5 + i); s1s[i] = mkStream(700, 0, 4096, 2, true, 3 + i); s2s[i] = mkStream(900, 1, 9000, 1, true, 14 + i); s3s[i] = s1s[i]; s3s[i][s3s[i].size() / 2 + i] ^= 0x40; s4s[i].assign(s2s[i].begin(), s2s[i].end() - 30 - i); }
    auto pr = [](int st, size_t dict, unsigned threads) { P p; p.dict = dict; p.strategy = st; p.overlap = 0; p.reset = 2; p.threads = threads; p.chain = 4; p.cycles = 2; p.depth = 8; return p; };
    static const char* sn[] = {"fast", "optimal", "ultra"};
    for (int st = 0; st < 3; ++st) { P p = pr(st, st == 1 ? 9000 : 4096, 1); w.push_back({std::string("compress, ") + sn[st], [p, st](int id) { Bytes r; FL2_CCtx* x = newC(p); mc_point(); put(r, oneShot(x, st == 1 ? in2s[id] : ins[id])); mc_point(); put(r, FL2_getCCtxDictProp(x)); put(r, oneShot(x, in3s[id])); mc_point(); FL2_freeCCtx(x); return r; }}); }
    { P p = pr(2, 4096, 2); w.push_back({"compress with 2 threads", [p](int id) { Bytes r; FL2_CCtx* x = newC(p); put(r, oneShot(x, in2s[id])); mc_point(); put(r, FL2_getCCtxThreadCount(x)); FL2_freeCCtx(x); return r; }}); }
    for (int dual = 0; dual < 2; ++dual) { P p = pr(1, 4096, 1); w.push_back({dual ? "streaming compression, dual buffer" : "streaming compression", [p, dual](int id) {
        Bytes r; FL2_CStream* x = FL2_createCStreamMt(1, dual); if (!x) mcFail("not created"); apply(x, p); size_t q = FL2_initCStream(x, 0); if (q) mcFail("FL2_initCStream: %s", errName(q));
        Bytes o(3000); FL2_outBuffer ob = {o.data(), o.size(), 0}; FL2_inBuffer ib = {ins[id].data(), 250, 0};
        q = FL2_compressStream(x, &ob, &ib); put(r, q); mc_point(); q = FL2_flushStream(x, &ob); if (FL2_isError(q)) mcFail("%s", errName(q)); mc_point(); ib.size = 700; q = FL2_compressStream(x, &ob, &ib); put(r, q); mc_point();
        put(r, (size_t)FL2_getCStreamProgress(x, nullptr)); for (int k = 0; k < 9; ++k) { q = FL2_endStream(x, &ob); if (FL2_isError(q)) mcFail("%s", errName(q)); if (!q) break; mc_point(); }
        o.resize(ob.pos); put(r, o); FL2_freeCStream(x); return r; }}); }
    int k = 0; for (Bytes* s : {s1s, s2s, s3s, s4s}) {
        static const char* kn[] = {"a stream", "another stream", "a corrupt stream", "a truncated stream"};
        w.push_back({std::string("decompress ") + kn[k], [s](int id) { Bytes r; FL2_DCtx* x = FL2_createDCtx(); if (!x) mcFail("not created"); for (int i = 0; i < 2; ++i) { mc_point(); DRes d = decOne(x, i ? s1s[id] : s[id], 900); put(r, d.err); put(r, d.code); put(r, d.out); } FL2_freeDCtx(x); return r; }});
        w.push_back({std::string("decompress by streaming ") + kn[k++], [s](int id) { Bytes r; FL2_DStream* x = newD(1, 0); for (int i = 0; i < 2; ++i) { DRes d = decStream(x, i ? s1s[id] : s[id], 900, 200, 300); put(r, d.err); put(r, d.code); put(r, d.out); mc_point(); } FL2_freeDStream(x); return r; }});
    }
    w.push_back({"decompress with 2 threads", [](int id) { Bytes r; FL2_DCtx* x = FL2_createDCtxMt(2); if (!x) mcFail("not created"); mc_point(); DRes d = decOne(x, s1s[id], 900); put(r, d.err); put(r, d.out); FL2_freeDCtx(x); return r; }});
    w.push_back({"decompress by streaming with 2 threads", [](int id) { Bytes r; FL2_DStream* x = newD(2, 0); mc_point(); DRes d = decStream(x, s1s[id], 900, 200, 300); put(r, d.err); put(r, d.out); FL2_freeDStream(x); return r; }});
    w.push_back({"decompress by streaming with 2 threads, small steps", [](int id) { Bytes r; FL2_DStream* x = newD(2, 0); DRes d = decStream(x, s2s[id], 900, 90, 300); put(r, d.err); put(r, d.out); FL2_freeDStream(x); return r; }});
    w.push_back({"objects for all processors", [](int id) { Bytes r; FL2_CCtx* c = FL2_createCCtxMt(0); if (!c) mcFail("not created"); put(r, FL2_getCCtxThreadCount(c)); FL2_freeCCtx(c); FL2_DCtx* d = FL2_createDCtxMt(0); if (!d) mcFail("not created"); put(r, FL2_getDCtxThreadCount(d)); FL2_freeDCtx(d); return r; }});
    w.push_back({"estimates for all processors", [](int id) { Bytes r; put(r, FL2_estimateCCtxSize(3, 0)); put(r, FL2_estimateDCtxSize(0)); put(r, FL2_estimateDStreamSize(1 << 20, 0)); put(r, FL2_estimateCStreamSize(2, 0, 1)); return r; }});
    w.push_back({"queries", [](int id) { Bytes r; put(r, (size_t)FL2_findDecompressedSize(s1s[id].data(), s1s[id].size())); for (int i = 1; i < 5; ++i) { FL2_compressionParameters p; memset(&p, 0, sizeof p); put(r, FL2_getLevelParameters(i, i & 1, &p)); put(r, p.dictionarySize); put(r, FL2_compressBound(i * 1000)); mc_point(); } for (int e = 0; e < 8; ++e) for (const char* s = FL2_getErrorString((FL2_ErrorCode)e); *s; ++s) r.push_back(*s); return r; }});
    return w;
}
static void c21() {
    Fam f("two threads"), g("three threads"); std::vector<Work> w = works();
    mc_machine.synthetic = true; mc_machine.processors = 8; mc_machine.cpuinfo = "processor\t: 0\nsiblings\t: 8\ncpu cores\t: 4\n";
    struct Run { const Work* w; int id; Bytes out; };
    auto tramp = +[](void* p) -> void* { Run* r = (Run*)p; r->out = r->w->f(r->id); return nullptr; };
    auto go = [&](std::vector<const Work*> ws, const Sch& s) {
        std::vector<Bytes> want; for (size_t i = 0; i < ws.size(); ++i) { mc_lib_reset(); want.push_back(ws[i]->f((int)i)); }
        explore(s, [&] {
            Run r[3]; pthread_t t[3]; size_t n = ws.size();
            for (size_t i = 0; i < n; ++i) { r[i].w = ws[i]; r[i].id = (int)i; if (mc_pthread_create(&t[i], nullptr, tramp, &r[i])) mcFail("thread not created"); }
            for (size_t i = 0; i < n; ++i) mc_pthread_join(t[i], nullptr);
            for (size_t i = 0; i < n; ++i) if (r[i].out != want[i]) { size_t d = 0; while (d < r[i].out.size() && d < want[i].size() && r[i].out[d] == want[i][d]) ++d; mcFail("thread %zu (%s) gets another result than alone (first difference at byte %zu of %zu)", i, ws[i]->n.c_str(), d, want[i].size()); }
            if (mc_alloc.live) mcFail("%zu bytes leaked", mc_alloc.live); seen(ws.size());
        });
    };
    for (size_t i = 0; i < w.size(); ++i) for (size_t j = i; j < w.size(); ++j) { Sch s = {2, false, 1}; SLICED(f, s, "%s | %s, bound %d, part %u/%u", w[i].n.c_str(), w[j].n.c_str(), s.bound, mcSlice, mcSlices) go({&w[i], &w[j]}, s); }
    for (size_t i = 0; i < w.size(); ++i) for (size_t j : {(size_t)1, (size_t)4, (size_t)7, w.size() - 3}) { Sch s = {1, false, 1}; SLICED(g, s, "%s | %s | %s, bound %d, part %u/%u", w[i].n.c_str(), w[i].n.c_str(), w[j].n.c_str(), s.bound, mcSlice, mcSlices) go({&w[i], &w[i], &w[j]}, s); }
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
    IB = new GuardBuf(1 << 16); OB = new GuardBuf((1 << 16) + 4096);
    SRC[0] = letters(70000, 3, 5); SRC[1] = noise(70000, 6); SRC[2] = letters(70000, 2, 8);
    if (mcJob == "compress") c09c();
    if (mcJob == "decompress") c09d();
    if (mcJob == "async") c11c(0);
    if (mcJob == "deep") c11c(1);
    if (mcJob == "deepcancel") c12deep();
    if (mcJob == "adec") c11d();
    if (mcJob == "ccancel") c12c();
    if (mcJob == "dcancel") c12d();
    if (mcJob == "apart") c21();
    return mcFinish();
}
