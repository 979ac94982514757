/* C13: a reused object behaves like a new one.  C15: parameters accept exactly their ranges.
 * C13 enumerates all sequences of operations (complete, failed, abandoned at every stage, cancelled) on one object;
 * every operation must give what it gives on a new object: result, settings in force, declared properties, data. */
#include "lib.h"
#include "params.h"
static uint64_t nOps; static Bytes IN[2], ZIN; static std::vector<std::pair<std::string, Bytes>> ST;
static Bytes content(int k, size_t n) { return Bytes(IN[k].begin(), IN[k].begin() + n); }
static const FL2_cParameter PARAMS[] = {FL2_p_compressionLevel, FL2_p_highCompression, FL2_p_dictionaryLog, FL2_p_dictionarySize, FL2_p_overlapFraction, FL2_p_resetInterval, FL2_p_bufferResize, FL2_p_hybridChainLog, FL2_p_hybridCycles, FL2_p_searchDepth, FL2_p_fastLength, FL2_p_divideAndConquer, FL2_p_strategy, FL2_p_literalCtxBits, FL2_p_literalPosBits, FL2_p_posBits, FL2_p_omitProperties, FL2_p_doXXHash};
static const char* PNAME[] = {"compressionLevel", "highCompression", "dictionaryLog", "dictionarySize", "overlapFraction", "resetInterval", "bufferResize", "hybridChainLog", "hybridCycles", "searchDepth", "fastLength", "divideAndConquer", "strategy", "literalCtxBits", "literalPosBits", "posBits", "omitProperties", "doXXHash"};
static const int NP = 18;
typedef std::vector<size_t> Vals;
static Vals getAll(FL2_CCtx* c) { Vals v; for (int i = 0; i < NP; ++i) v.push_back(FL2_CCtx_getParameter(c, PARAMS[i])); return v; }
static std::string diff(const Vals& a, const Vals& b) { std::string s; for (int i = 0; i < NP; ++i) if (a[i] != b[i]) s += std::string(PNAME[i]) + " " + std::to_string(a[i]) + " instead of " + std::to_string(b[i]) + "; "; return s; }
/* ---- compression ---- */
enum CK { ONE, SMALL, STREAM, ABANDON, CANCEL };
struct COp { CK kind; int set; size_t n; int data; size_t arg; /* capacity or stage */ };
static const char* stageName[] = {"after init", "with input not yet compressed", "after compression, output unread", "with part of the output read", "after flushing, output unread", "after ending, output unread", "after taking the dictionary buffer", "after an error"};
static const int NSTAGE = 8;
/* settings: 0-3 full parameter sets, 4.. a level given to the operation itself (with the high flag) */
struct Set { P p; int lev, high; };
static std::vector<Set> SETS;
static std::string cStr(const COp& o) {
    char t[160]; const Set& s = SETS[o.set]; std::string q = s.lev ? (s.high ? "high level " : "level ") + std::to_string(s.lev) : s.p.str();
    switch (o.kind) {
    case ONE: snprintf(t, sizeof t, "one-shot %zu bytes (%s)", o.n, q.c_str()); break;
    case SMALL: snprintf(t, sizeof t, "one-shot %zu bytes into %zu (%s)", o.n, o.arg, q.c_str()); break;
    case STREAM: snprintf(t, sizeof t, "stream of %zu bytes (%s)", o.n, q.c_str()); break;
    default: snprintf(t, sizeof t, "stream of %zu bytes %s %s (%s)", o.n, o.kind == ABANDON ? "abandoned" : "cancelled", stageName[o.arg], q.c_str());
    }
    return t;
}
struct CObs { size_t code = 0; Vals during; int prop = -1; bool hash = false; int lc = -1, lp = -1, pb = -1; bool ok = false; bool partial = false; Bytes out; };
struct CEnv { unsigned threads; int dual; unsigned timeout; bool early; uint64_t timers; };
static void waitC(FL2_CStream* s) { for (unsigned k = 0; FL2_isTimedOut(FL2_waitCStream(s)); ++k) if (k > 500) mcFail("waiting does not end"); }
static void verify(const Bytes& out, const Bytes& want, bool omit, CObs& o, FL2_CCtx* c, size_t dict, const char* what) {
    RefInfo I; size_t total;
    if (omit) { I = refDecode(out.data(), out.size(), refDictSize(FL2_getCCtxDictProp(c))); total = I.consumed; (void)dict; }
    else { RefStream R = refStream(out.data(), out.size()); o.prop = out[0] & 0x3F; o.hash = R.hashPresent; total = R.total; I = std::move(R.info); }
    if (I.st != RefInfo::OK) mcFail("%s: output is not a valid stream: %s", what, I.why);
    if (total != out.size()) mcFail("%s: stream ends at %zu of %zu", what, total, out.size());
    if (I.out.size() != want.size() || (want.size() && memcmp(I.out.data(), want.data(), want.size()))) { size_t k = 0; while (k < want.size() && k < I.out.size() && I.out[k] == want[k]) ++k; mcFail("%s: decodes to %zu bytes, %zu supplied, first difference at %zu", what, I.out.size(), want.size(), k); }
}
/* settings for the next operation.  A refusal means that an earlier operation is still in progress: that is
 * right after an abandoned stream, which must then be cancelled first; never after an operation that ended. */
static int settings(FL2_CCtx* c, const Set& s, bool mayBeOpen, bool& partial) {
    size_t r = FL2_CCtx_setParameter(c, FL2_p_highCompression, s.high > 0);
    if (FL2_isError(r)) {
        if (!mayBeOpen) mcFail("a parameter is refused although no operation is in progress: %s", errName(r));
        if (s.lev && s.high <= 0) { partial = true; return s.lev; }      /* the level alone goes with the start of the operation */
        FL2_cancelCStream(c);
        set1(c, FL2_p_highCompression, s.high > 0);
    }
    set1(c, FL2_p_omitProperties, 0); set1(c, FL2_p_doXXHash, 1); set1(c, FL2_p_resetInterval, 4);
    if (s.lev) return s.lev;
    set1(c, FL2_p_compressionLevel, 1); apply(c, s.p); return 0;
}
/* returns what a user can see; open: an operation was left unfinished */
static CObs runC(FL2_CCtx* c, const COp& op, const CEnv& e, bool& open) {
    CObs o; const Set& s = SETS[op.set]; Bytes in = content(op.data, op.n); ++nOps;
    auto mid = [&] { if (e.early) mc_run_others(); };
    int level = settings(c, s, open, o.partial); open = false; const bool omit = FL2_CCtx_getParameter(c, FL2_p_omitProperties) == 1;
    if (op.kind == ONE || op.kind == SMALL) {
        size_t cap = op.kind == SMALL ? op.arg : FL2_compressBound(op.n); Bytes out(cap + 32, 0xEE);
        o.code = FL2_compressCCtx(c, out.data(), cap, in.data(), in.size(), level);
        for (size_t k = cap; k < out.size(); ++k) if (out[k] != 0xEE) mcFail("wrote beyond the capacity");
        o.during = getAll(c);
        if (FL2_isError(o.code)) {
            if (op.kind == SMALL && op.arg < 2) { o.during.clear(); }    /* nothing was started */
            size_t r = FL2_CCtx_setParameter(c, FL2_p_strategy, 0); if (FL2_isError(r)) mcFail("after a failed one-shot compression parameters are refused: %s", errName(r));
            return o;
        }
        out.resize(o.code); o.code = 0; o.ok = true; verify(out, in, omit, o, c, s.p.dict, "one-shot"); o.out = std::move(out); return o;
    }
    mc_sched.timerMask = e.timers; mc_sched.timedWaits = 0;
    o.code = FL2_initCStream(c, level); if (o.code) return o;
    o.during = getAll(c); mid();
    bool cut = op.kind == ABANDON || op.kind == CANCEL; Bytes out; out.resize(FL2_compressBound(op.n) + 64); FL2_outBuffer ob = {out.data(), out.size(), 0};
    FL2_inBuffer ib = {in.data(), in.size(), 0}; size_t r; unsigned k = 0;
    auto bail = [&] { if (op.kind == CANCEL) FL2_cancelCStream(c); else open = true; o.ok = true; return o; };
    if (cut && op.arg == 0) return bail();
    if (cut && op.arg == 6) { FL2_dictBuffer d; do r = FL2_getDictionaryBuffer(c, &d); while (FL2_isTimedOut(r)); if (r) { o.code = r; return o; } size_t m = std::min<size_t>(d.size, in.size()); memcpy(d.dst, in.data(), m); return bail(); }
    if (cut && op.arg == 7) {                        /* no output space, no input: more than the library puts up with */
        for (int q = 0; q < 14; ++q) { FL2_outBuffer z = {out.data(), 0, 0}; FL2_inBuffer zi = {in.data(), 0, 0}; r = FL2_compressStream(c, &z, &zi); if (FL2_isError(r)) break; }
        return bail(); }
    if (cut && op.arg == 1) ib.size = std::min<size_t>(in.size(), 700);
    while (ib.pos < ib.size) {
        FL2_outBuffer* use = cut && op.arg <= 3 ? nullptr : &ob;
        r = FL2_compressStream(c, use, &ib); mid(); if (FL2_isTimedOut(r)) { if (cut && op.arg == 2) return bail(); waitC(c); } else if (FL2_isError(r)) { o.code = r; return o; }
        if (cut && use == nullptr && !FL2_isTimedOut(r) && r == 1 && op.arg != 1) break;
        if (++k > 5000) mcFail("compressing does not end");
    }
    if (cut && op.arg <= 2) return bail();
    if (cut && op.arg == 3) { FL2_outBuffer p = {out.data(), 9, 0}; r = FL2_flushStream(c, &p); return bail(); }
    if (cut && op.arg == 4) { r = FL2_flushStream(c, nullptr); return bail(); }
    if (cut && op.arg == 5) { r = FL2_endStream(c, nullptr); return bail(); }
    do { r = FL2_endStream(c, &ob); mid(); if (FL2_isTimedOut(r)) { waitC(c); r = 1; } else if (FL2_isError(r)) { o.code = r; return o; } if (++k > 10000) mcFail("ending does not end"); } while (r);
    out.resize(ob.pos); o.ok = true; verify(out, in, omit, o, c, s.p.dict, "stream"); o.out = std::move(out); return o;
}
static void same(const CObs& a, const CObs& b, const char* what) {
    if (a.code != b.code) mcFail("%s: %s on the reused object, %s on a new one", what, errName(a.code), errName(b.code));
    if (a.partial) { Vals x = a.during, y = b.during; if (x.size() && y.size()) { for (int i : {5, 16, 17}) x[i] = y[i]; if (x != y) mcFail("%s: the level given does not take effect on the reused object: %s", what, diff(x, y).c_str()); } if (a.prop >= 0 && b.prop >= 0 && a.prop != b.prop) mcFail("%s: declares dictionary property %d, on a new object %d", what, a.prop, b.prop); return; }
    if (a.during != b.during) mcFail("%s: settings in force on the reused object: %s", what, diff(a.during, b.during).c_str());
    if (a.prop != b.prop || a.hash != b.hash) mcFail("%s: declares dictionary property %d%s, on a new object %d%s", what, a.prop, a.hash ? " with hash" : "", b.prop, b.hash ? " with hash" : "");
    if (a.out != b.out) { size_t k = 0; while (k < a.out.size() && k < b.out.size() && a.out[k] == b.out[k]) ++k; mcFail("%s: the settings do not take effect as on a new object: %zu bytes, %zu on a new one, first difference at %zu", what, a.out.size(), b.out.size(), k); }
}
static FL2_CCtx* mkC(const CEnv& e) { FL2_CCtx* c = e.dual || e.timeout ? FL2_createCStreamMt(e.threads, e.dual) : FL2_createCCtxMt(e.threads); if (!c) mcFail("not created"); if (e.timeout) { size_t r = FL2_setCStreamTimeout(c, e.timeout); if (r) mcFail("FL2_setCStreamTimeout: %s", errName(r)); } return c; }
static void reTimeout(FL2_CCtx* c, const CEnv& e) { if (e.timeout) { size_t r = FL2_setCStreamTimeout(c, e.timeout); if (r) mcFail("FL2_setCStreamTimeout: %s", errName(r)); } }
static void famC(const char* name, const std::vector<COp>& al, const std::vector<CEnv>& envs, unsigned depth) {
    Fam f(name); std::map<std::pair<size_t, size_t>, CObs> fresh;
    for (size_t ei = 0; ei < envs.size(); ++ei) { const CEnv& e = envs[ei]; for (unsigned len = 2; len <= depth; ++len) {
        uint64_t total = 1; for (unsigned i = 0; i < len; ++i) total *= al.size();
        for (uint64_t k = 0; k < total; ++k) {
            if (!f.mine()) continue;
            std::vector<size_t> ix; uint64_t v = k; for (unsigned i = 0; i < len; ++i) { ix.push_back(v % al.size()); v /= al.size(); }
            std::string d; for (size_t i : ix) d += cStr(al[i]) + "; ";
            if (!f.next("%u threads, %s, timeout %u%s: %s", e.threads, e.dual ? "dual" : "single", e.timeout, e.early ? ", background work early" : "", d.c_str())) continue;
            size_t base = mc_alloc.live; FL2_CCtx* c = mkC(e); bool open = false; uint64_t h = 11;
            for (unsigned i = 0; i < len; ++i) {
                const COp& op = al[ix[i]]; if (!open) reTimeout(c, e);
                CObs a = runC(c, op, e, open);
                auto key = std::make_pair(ei, ix[i]); if (!fresh.count(key)) { FL2_CCtx* q = mkC(e); bool op2 = false; fresh[key] = runC(q, op, e, op2); FL2_freeCCtx(q); }
                std::string w = "operation " + std::to_string(i + 1); same(a, fresh[key], w.c_str());
                h = mcMix(h, ix[i] * 64 + ei); mcNewState(h);
            }
            FL2_freeCCtx(c); if (fresh.size() > 5000) fresh.clear();
            if (mc_alloc.live != base) mcFail("%zu bytes leaked", mc_alloc.live - base);
        } } }
}
/* ---- decompression ---- */
enum DK { FULL, PREFIX, CORRUPT, IDLE, TOOSMALL, FLIGHT, BADPROP };
struct DOp { DK kind; int stream; size_t in, out, arg; bool prop; long limit; };
static std::string dStr(const DOp& o) { char t[160]; static const char* n[] = {"complete", "abandoned", "corrupt", "starved", "output too small", "left in flight", "bad property"}; snprintf(t, sizeof t, "%s %s%s in %zu/%zu arg %zu%s", ST[o.stream].first.c_str(), n[o.kind], o.prop ? " (property given)" : "", o.in, o.out, o.arg, o.limit >= 0 ? (" limit " + std::to_string(o.limit)).c_str() : ""); return t; }
struct DObs { size_t code = 0; Bytes out; size_t consumed = 0; size_t growth = 0; bool stop = false; };
static bool operator==(const DObs& a, const DObs& b) { return a.code == b.code && a.out == b.out && a.consumed == b.consumed; }
static size_t waitD(FL2_DStream* d) { size_t r; unsigned k = 0; do { r = FL2_waitDStream(d); if (++k > 2000) mcFail("waiting does not end"); } while (FL2_isTimedOut(r)); return r; }
static void flip(Bytes& s, size_t at) { if (!s.empty()) s[at % s.size()] ^= 0x55; }
struct DEnv { bool streaming; unsigned threads; unsigned timeout; uint64_t timers; };
static DObs runD(void* obj, const DOp& op, const DEnv& e) {
    DObs o; Bytes s = ST[op.stream].second; ++nOps; RefStream R = refStream(s.data(), s.size()); size_t want = R.info.out.size();
    if (op.kind == CORRUPT) flip(s, op.arg); if (op.kind == PREFIX) s.resize(op.arg % s.size());
    mc_sched.timerMask = e.timers; mc_sched.timedWaits = 0; size_t live0 = mc_alloc.live; mc_alloc.peak = live0;
    Bytes out(want + 600, 0xEE); size_t cap = want; if (op.kind == TOOSMALL) cap = want ? want - 1 : 0; if (op.kind == CORRUPT) cap = want + 500;
    if (!e.streaming) {
        FL2_DCtx* d = (FL2_DCtx*)obj; size_t r;
        if (op.kind == BADPROP) { o.code = FL2_initDCtx(d, 41); return o; }
        if (op.kind == IDLE) { r = FL2_initDCtx(d, 40); if (r) { o.code = r; return o; } r = FL2_initDCtx(d, R.prop); if (r) { o.code = r; return o; } r = FL2_decompressDCtx(d, out.data(), cap, s.data() + 1, s.size() - 1); }
        else if (op.prop && s.size()) { r = FL2_initDCtx(d, s[0]); if (r) { o.code = r; return o; } r = FL2_decompressDCtx(d, out.data(), cap, s.data() + 1, s.size() - 1); }
        else r = FL2_decompressDCtx(d, out.data(), cap, s.data(), s.size());
        if (FL2_isError(r)) o.code = r; else { o.out.assign(out.begin(), out.begin() + r); }
        for (size_t k = cap; k < out.size(); ++k) if (out[k] != 0xEE) mcFail("wrote beyond the capacity");
        o.growth = mc_alloc.peak - live0; return o;
    }
    FL2_DStream* d = (FL2_DStream*)obj; FL2_setDStreamMemoryLimitMt(d, op.limit >= 0 ? (size_t)op.limit : (size_t)1 << 29);
    if (op.kind == BADPROP) { o.code = FL2_initDStream_withProp(d, 41); return o; }
    size_t off = op.prop && s.size() ? 1 : 0, r = off ? FL2_initDStream_withProp(d, s[0]) : FL2_initDStream(d);
    if (r) { o.code = r; return o; }
    if (FL2_getDStreamProgress(d)) mcFail("progress %llu after initialization", FL2_getDStreamProgress(d));
    FL2_inBuffer in = {s.data() + off, 0, 0}; FL2_outBuffer ob = {out.data(), 0, 0}; unsigned idle = 0, calls = 0; size_t total = s.size() - off;
    for (;;) {
        if (in.pos == in.size) in.size = std::min(total, in.size + op.in);
        if (ob.pos == ob.size) ob.size = std::min(cap, ob.size + op.out);
        size_t ip = in.pos, opn = ob.pos; r = FL2_decompressStream(d, &ob, &in); ++calls;
        if (FL2_isTimedOut(r)) {
            if (op.kind == FLIGHT) {
                size_t q = FL2_initDStream(d); if (q != 0 && FL2_getErrorCode(q) != FL2_error_stage_wrong) mcFail("initialization while in use: %s", errName(q));
                if (op.arg == 0) { FL2_cancelDStream(d); } else { r = waitD(d); }
                o.stop = true; break; }
            r = waitD(d); }
        if (FL2_isError(r)) { o.code = r; break; }
        if (r == 0) break;
        if (ob.pos >= cap && op.kind == CORRUPT && in.pos == in.size && in.size == total) { o.stop = true; break; }
        if (op.kind == PREFIX && in.pos == total && ip == in.pos && opn == ob.pos) break;
        if (op.kind == FLIGHT && calls > 3) { o.stop = true; break; }
        if (op.kind == IDLE && in.pos >= op.arg) { op.prop ? in.size = in.pos : ob.size = ob.pos; for (int k = 0; k < 12; ++k) { FL2_inBuffer zi = {s.data(), 0, 0}; FL2_outBuffer zo = {out.data(), 0, 0}; r = FL2_decompressStream(d, &zo, &zi); if (FL2_isTimedOut(r)) r = waitD(d); if (FL2_isError(r)) break; } o.code = FL2_isError(r) ? r : 0; o.stop = true; break; }
        if (ip == in.pos && opn == ob.pos) { if (++idle > 40) mcFail("decompression makes no progress"); } else idle = 0;
        if (calls > 20000) mcFail("decompression does not end");
    }
    if (!o.stop && op.kind != IDLE) { o.out.assign(out.begin(), out.begin() + ob.pos); if (op.kind != CORRUPT) o.consumed = in.pos; }
    if (op.kind == CORRUPT) o.out.clear();
    o.growth = mc_alloc.peak - live0;
    if (op.kind == FULL && (o.code || o.out.size() != want || memcmp(o.out.data(), R.info.out.data(), want))) mcFail("decompression of a valid stream: %s, %zu of %zu bytes", errName(o.code), o.out.size(), want);
    return o;
}
static void* mkD(const DEnv& e) { void* o = e.streaming ? (void*)FL2_createDStreamMt(e.threads) : (void*)FL2_createDCtxMt(e.threads); if (!o) mcFail("not created"); if (e.streaming && e.timeout) { size_t r = FL2_setDStreamTimeout((FL2_DStream*)o, e.timeout); if (r) mcFail("FL2_setDStreamTimeout: %s", errName(r)); } return o; }
static void rmD(void* o, const DEnv& e) { if (e.streaming) FL2_freeDStream((FL2_DStream*)o); else FL2_freeDCtx((FL2_DCtx*)o); }
static void famD(const char* name, const std::vector<DOp>& al, const std::vector<DEnv>& envs, unsigned depth) {
    Fam f(name); std::map<std::pair<size_t, size_t>, DObs> fresh;
    for (size_t ei = 0; ei < envs.size(); ++ei) { const DEnv& e = envs[ei]; for (unsigned len = 2; len <= depth; ++len) {
        uint64_t total = 1; for (unsigned i = 0; i < len; ++i) total *= al.size();
        for (uint64_t k = 0; k < total; ++k) {
            if (!f.mine()) continue;
            std::vector<size_t> ix; uint64_t v = k; for (unsigned i = 0; i < len; ++i) { ix.push_back(v % al.size()); v /= al.size(); }
            std::string d; for (size_t i : ix) d += dStr(al[i]) + "; ";
            if (!f.next("%s, %u threads, timeout %u: %s", e.streaming ? "stream" : "context", e.threads, e.timeout, d.c_str())) continue;
            size_t base = mc_alloc.live; void* o = mkD(e); uint64_t h = 13;
            for (unsigned i = 0; i < len; ++i) {
                auto key = std::make_pair(ei, ix[i]); if (!fresh.count(key)) { void* q = mkD(e); fresh[key] = runD(q, al[ix[i]], e); rmD(q, e); }
                if (e.streaming && (i & 1) && e.timeout) { size_t r = FL2_setDStreamTimeout((FL2_DStream*)o, 0); if (r) mcFail("FL2_setDStreamTimeout: %s", errName(r)); r = FL2_setDStreamTimeout((FL2_DStream*)o, e.timeout); if (r) mcFail("FL2_setDStreamTimeout: %s", errName(r)); }
                DObs a = runD(o, al[ix[i]], e); const DObs& b = fresh[key];
                if (!(a == b)) mcFail("operation %u: reused object %s, %zu bytes, %zu consumed; new object %s, %zu bytes, %zu consumed%s", i + 1, errName(a.code), a.out.size(), a.consumed, errName(b.code), b.out.size(), b.consumed, a.out.size() == b.out.size() && a.out != b.out ? "; data differ" : "");
                if (al[ix[i]].kind == FULL && e.threads > 1 && a.growth < b.growth / 2 && b.growth > 300) mcCount("operations with less memory than on a new object");
                h = mcMix(h, ix[i] * 64 + ei); mcNewState(h);
            }
            rmD(o, e); if (mc_alloc.live != base) mcFail("%zu bytes leaked", mc_alloc.live - base);
            if (fresh.size() > 4000) fresh.clear();
        } } }
}
/* ---- parameters (documented ranges, not the macros of the build) ---- */
struct Rng { size_t lo, hi; bool boolean, zeroOk; };
static Rng rng(int i) {
    static const Rng r[NP] = {{1, 10, 0, 0}, {0, 1, 1, 0}, {20, 30, 0, 0}, {1u << 20, 1u << 30, 0, 0}, {0, 14, 0, 0}, {1, 16, 0, 1}, {0, 4, 0, 0}, {4, 14, 0, 0}, {1, 64, 0, 0}, {6, 254, 0, 0}, {6, 273, 0, 0}, {0, 1, 1, 0}, {0, 2, 0, 0}, {0, 4, 0, 0}, {0, 4, 0, 0}, {0, 4, 0, 0}, {0, 1, 1, 0}, {0, 1, 1, 0}};
    Rng q = r[i];
#ifdef FL2_MODEL_CHECK
    if (i == 2) q.lo = FL2_DICTLOG_MIN; if (i == 3) q.lo = FL2_DICTSIZE_MIN;
#endif
    return q;
}
static bool inRange(int i, size_t v) { Rng q = rng(i); return q.boolean || (v >= q.lo && v <= q.hi) || (q.zeroOk && !v); }
static size_t dlog(size_t d) { size_t l = rng(2).lo; while (((size_t)1 << l) < d) ++l; return l; }
/* the model: what the getters must return */
static void levelInto(Vals& m, const Vals& now) {
    FL2_compressionParameters p; memset(&p, 0x77, sizeof p); size_t r = FL2_getLevelParameters((int)m[0], (int)m[1], &p); if (FL2_isError(r)) mcFail("FL2_getLevelParameters(%zu, %zu): %s", m[0], m[1], errName(r));
    m[2] = dlog(p.dictionarySize); m[3] = p.dictionarySize; m[4] = p.overlapFraction; m[7] = p.chainLog; m[8] = (size_t)1 << p.cyclesLog; m[9] = p.searchDepth; m[10] = p.fastLength; m[11] = p.divideAndConquer != 0; m[12] = (size_t)p.strategy;
    /* not part of the table: a level may leave these or bring back the defaults */
    static const int x[4] = {6, 13, 14, 15}; static const size_t d[4] = {2, 3, 0, 2}; for (int i = 0; i < 4; ++i) if (now[x[i]] == d[i]) m[x[i]] = d[i];
}
static void setModel(FL2_CCtx* c, Vals& m, int i, size_t v, bool stream, const char* what) {
    size_t r = stream ? FL2_CStream_setParameter(c, PARAMS[i], v) : FL2_CCtx_setParameter(c, PARAMS[i], v); ++nOps; Vals now = getAll(c);
    if (!inRange(i, v)) { if (!FL2_isError(r)) mcFail("%s%s = %zu was accepted", what, PNAME[i], v); if (now != m) mcFail("%srefused %s = %zu changed %s", what, PNAME[i], v, diff(now, m).c_str()); return; }
    Vals w = m; w[i] = rng(i).boolean ? v != 0 : v;
    if (i == 0 || i == 1) levelInto(w, now); if (i == 2) w[3] = (size_t)1 << v; if (i == 3) w[2] = dlog(v);
    bool over = (i == 13 || i == 14) && w[13] + w[14] > 4;      /* documented: stored, but reported */
    if (over) { if (!FL2_isError(r)) mcFail("%s%s = %zu: lc + lp = %zu was not reported", what, PNAME[i], v, w[13] + w[14]); }
    else if (FL2_isError(r)) mcFail("%s%s = %zu was refused: %s", what, PNAME[i], v, errName(r));
    else if (rng(i).boolean ? (r != 0) != (v != 0) : r != v) mcFail("%s%s = %zu returned %zu", what, PNAME[i], v, r);
    if (now != w) mcFail("%s%s = %zu: %s", what, PNAME[i], v, diff(now, w).c_str());
    m = w;
}
static std::vector<size_t> values(int i) {
    Rng q = rng(i); std::vector<size_t> v; size_t B = (size_t)1 << 32;
    if (q.hi < 400) for (size_t k = 0; k <= q.hi + 4; ++k) v.push_back(k); else { for (size_t k = 0; k < 8; ++k) { v.push_back(q.lo - 3 + k); v.push_back(q.hi - 4 + k); } for (int b = 0; b < 64; ++b) { v.push_back((size_t)1 << b); v.push_back(((size_t)1 << b) + 12345); v.push_back(((size_t)1 << b) - 1); } }
    for (size_t k : {(size_t)256, (size_t)65536, B >> 1, B - 1, B, B + q.lo, B + q.hi, B * q.hi, ~(size_t)0, ~(size_t)0 - 5, (size_t)1 << 63}) if (!q.boolean || k < ~(size_t)0 - 4096) v.push_back(k);    /* a boolean is returned as given, and these would look like error codes */
    return v;
}
static Bytes compressed(FL2_CCtx* c, const Bytes& in, int level, int how) {
    Bytes o(FL2_compressBound(in.size()) + 64); ++nOps;
    if (!how) { size_t r = FL2_compressCCtx(c, o.data(), o.size(), in.data(), in.size(), level); if (FL2_isError(r)) mcFail("compression: %s", errName(r)); o.resize(r); return o; }
    size_t r = FL2_initCStream(c, level); if (r) mcFail("FL2_initCStream: %s", errName(r)); FL2_inBuffer ib = {in.data(), in.size(), 0}; FL2_outBuffer ob = {o.data(), o.size(), 0};
    r = FL2_compressStream(c, &ob, &ib); if (FL2_isError(r)) mcFail("FL2_compressStream: %s", errName(r)); do { r = FL2_endStream(c, &ob); if (FL2_isError(r)) mcFail("FL2_endStream: %s", errName(r)); } while (r); o.resize(ob.pos); return o;
}
static void c15() {
    {   /* every value */
        Fam f("values");
        for (int i = 0; i < NP; ++i) for (size_t v : values(i)) for (int pre = 0; pre < 4; ++pre) for (int st = 0; st < 2; ++st) {
            if (!f.next("%s = %zu on a %s, starting point %d", PNAME[i], v, st ? "stream" : "context", pre)) continue;
            FL2_CCtx* c = st ? FL2_createCStreamMt(1, 1) : FL2_createCCtxMt(2); Vals m = getAll(c);
            if (pre == 1) setModel(c, m, 1, 1, st, "first "); if (pre == 2) { setModel(c, m, 0, 10, st, "first "); setModel(c, m, 13, 0, st, "first "); setModel(c, m, 14, 4, st, "first "); } if (pre == 3) { setModel(c, m, 0, 1, st, "first "); setModel(c, m, 3, rng(3).lo + 77, st, "first "); setModel(c, m, 12, 0, st, "first "); }
            setModel(c, m, i, v, st, ""); FL2_freeCCtx(c); mcNewState(mcMix(mcMix(i * 8 + pre, v), st));
        }
    }
    {   /* all sequences of settings */
        Fam f("sequences"); struct S { int i; size_t v; }; std::vector<S> al;
        for (int i = 0; i < NP; ++i) { Rng q = rng(i); std::vector<size_t> vs = {q.lo, q.hi, q.hi + 1}; if (q.hi - q.lo > 3) vs.push_back((q.lo + q.hi) / 2); if (q.lo && !q.zeroOk) vs.push_back(q.lo - 1); if (q.zeroOk) vs.push_back(0); for (size_t v : vs) al.push_back({i, v}); }
        unsigned depth = mcThorough ? 4 : 3;
        for (unsigned len = 2; len <= depth; ++len) { uint64_t total = 1; for (unsigned k = 0; k < len; ++k) total *= al.size();
            for (uint64_t k = 0; k < total; ++k) { if (!f.mine()) continue; uint64_t v = k; std::vector<S> ss; std::string d; for (unsigned q = 0; q < len; ++q) { ss.push_back(al[v % al.size()]); v /= al.size(); d += std::string(PNAME[ss.back().i]) + "=" + std::to_string(ss.back().v) + " "; }
                if (!f.next("%s", d.c_str())) continue;
                static FL2_CCtx* c = nullptr; static unsigned uses = 0; if (c && ++uses > 64) { FL2_freeCCtx(c); c = nullptr; } if (!c) { c = FL2_createCCtx(); uses = 0; }
                Vals m = getAll(c); setModel(c, m, 1, 0, false, "reset: "); setModel(c, m, 0, 6, false, "reset: "); if (m[13] + m[14] != 3) { setModel(c, m, 13, 0, false, "reset: "); setModel(c, m, 14, 0, false, "reset: "); setModel(c, m, 13, 3, false, "reset: "); }
                for (auto& s : ss) { setModel(c, m, s.i, s.v, false, ""); mcNewState(mcHashBytes(m.data(), m.size() * sizeof(size_t))); } } }
    }
    {   /* the level tables */
        Fam f("levels"); FL2_compressionParameters prev[2]; memset(prev, 0, sizeof prev);
        for (int high = 0; high < 2; ++high) for (int lev : {-2147483647 - 1, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 256, 65537, 2147483647}) {
            if (!f.next("level %d high %d", lev, high)) continue;
            FL2_compressionParameters p; memset(&p, 0x5A, sizeof p); size_t r = FL2_getLevelParameters(lev, high, &p); bool ok = lev >= 1 && lev <= (high ? FL2_maxHighCLevel() : FL2_maxCLevel());
            if (ok != !FL2_isError(r)) mcFail("FL2_getLevelParameters: %s", errName(r));
            FL2_CCtx* c = FL2_createCCtx(); Vals m = getAll(c); setModel(c, m, 1, high, false, ""); size_t s = FL2_CCtx_setParameter(c, FL2_p_compressionLevel, (size_t)lev); if (ok != !FL2_isError(s)) mcFail("setting the level: %s", errName(s));
            if (ok) { Vals now = getAll(c); m[0] = lev; levelInto(m, now); if (now != m) mcFail("level %d: %s", lev, diff(now, m).c_str()); for (int i = 0; i < NP; ++i) if (!inRange(i, now[i])) mcFail("level %d sets %s = %zu", lev, PNAME[i], now[i]); }
            FL2_freeCCtx(c); (void)prev;
        }
        if (f.next("limits")) { if (FL2_maxCLevel() != 10 || FL2_maxHighCLevel() != 10) mcFail("level limits %d and %d", FL2_maxCLevel(), FL2_maxHighCLevel()); FL2_CCtx* c = FL2_createCCtx(); Vals v = getAll(c); if (v[0] != 6 || v[5] != 4 || v[17] != 1 || v[16] || v[1] || v[13] != 3 || v[14] || v[15] != 2 || v[6] != 2) mcFail("documented defaults are not in force"); FL2_freeCCtx(c); }
        for (size_t bad : {(size_t)NP, (size_t)NP + 1, (size_t)100, (size_t)0xFFFFFFFF}) if (f.next("unknown parameter %zu", bad)) { FL2_CCtx* c = FL2_createCCtx(); Vals m = getAll(c); if (!FL2_isError(FL2_CCtx_setParameter(c, (FL2_cParameter)bad, 1)) || !FL2_isError(FL2_CCtx_getParameter(c, (FL2_cParameter)bad))) mcFail("accepted"); if (getAll(c) != m) mcFail("changed something"); FL2_freeCCtx(c); }
    }
    {   /* refusal during an operation, at every stage of it */
        Fam f("lock"); static const char* sn[] = {"new", "initialized", "input buffered", "compressed, output unread", "flushed", "dictionary buffer taken", "compression in flight", "end written, output unread", "ended", "cancelled", "one-shot done", "one-shot failed", "restarted after the end"};
        for (int stage = 0; stage < 13; ++stage) for (int dual = 0; dual < 2; ++dual) for (int i = 0; i < NP; ++i) for (int hi = 0; hi < 3; ++hi) {
            if (stage == 6 && !dual) continue;
            if (!f.next("%s, stage '%s', %s", dual ? "dual" : "single", sn[stage], PNAME[i])) continue;
            FL2_CCtx* c = FL2_createCStreamMt(1, dual); FL2_CCtx_setParameter(c, FL2_p_compressionLevel, 1); FL2_CCtx_setParameter(c, FL2_p_dictionarySize, rng(3).lo);
            Bytes in = content(0, rng(3).lo < 100000 ? 9000 : 300000), o(FL2_compressBound(in.size()) + 64); FL2_inBuffer ib = {in.data(), in.size(), 0}; FL2_outBuffer ob = {o.data(), o.size(), 0}; size_t r = 0; bool locked = stage >= 1 && stage <= 6;
            mc_sched.timerMask = 0; mc_sched.timedWaits = 0;
            if (stage == 10) r = FL2_compressCCtx(c, o.data(), o.size(), in.data(), in.size(), 0);
            else if (stage == 11) { r = FL2_compressCCtx(c, o.data(), 10, in.data(), in.size(), 0); if (!FL2_isError(r)) mcFail("no failure"); r = 0; }
            else if (stage) {
                r = FL2_initCStream(c, 0);
                if (stage == 2) { ib.size = 100; r = FL2_compressStream(c, &ob, &ib); }
                if (stage == 3) { r = FL2_compressStream(c, nullptr, &ib); if (!FL2_isError(r)) r = FL2_waitCStream(c); }
                if (stage == 4) { ib.size = 900; r = FL2_compressStream(c, &ob, &ib); if (!FL2_isError(r)) do r = FL2_flushStream(c, &ob); while (r == 1); }
                if (stage == 5) { FL2_dictBuffer d; r = FL2_getDictionaryBuffer(c, &d); }
                if (stage == 6) { mc_sched.timerMask = ~0ull; ib.size = std::min<size_t>(in.size(), rng(3).lo); r = FL2_compressStream(c, nullptr, &ib); if (FL2_isTimedOut(r)) r = 0; }
                if (stage == 7) { ib.size = 900; r = FL2_compressStream(c, &ob, &ib); if (!FL2_isError(r)) r = FL2_endStream(c, nullptr); }
                if (stage == 8 || stage == 12) { ib.size = 900; r = FL2_compressStream(c, &ob, &ib); if (!FL2_isError(r)) do r = FL2_endStream(c, &ob); while (r == 1); }
                if (stage == 9) { ib.size = 900; r = FL2_compressStream(c, &ob, &ib); FL2_cancelCStream(c); }
                if (stage == 12) { r = FL2_initCStream(c, 0); locked = true; }
            }
            if (FL2_isError(r)) mcFail("the operation failed: %s", errName(r));
            Vals m = getAll(c); size_t v = hi == 2 ? rng(i).hi + 1 : hi ? rng(i).hi : rng(i).lo; if (i == 13 || i == 14) { if (hi == 1) v = i == 13 ? 4 : 1; }
            if (hi == 2 && rng(i).boolean) { FL2_freeCCtx(c); continue; }
            bool free = i >= 13 && i <= 15;
            if (locked && !free) { size_t q = FL2_CCtx_setParameter(c, PARAMS[i], v); if (!FL2_isError(q)) mcFail("%s = %zu was accepted during the operation", PNAME[i], v); if (getAll(c) != m) mcFail("changed: %s", diff(getAll(c), m).c_str()); if (FL2_getErrorCode(q) != FL2_error_stage_wrong) mcFail("error %s", errName(q)); }
            else setModel(c, m, i, v, true, "");
            mcNewState(mcMix(mcMix(stage * 2 + dual, i), hi)); FL2_freeCCtx(c); mc_sched.timerMask = 0;
        }
    }
    {   /* the settings take effect: the same settings reached in different ways give the same bytes */
        Fam f("effect");
        struct In { Bytes b; const char* n; }; std::vector<In> ins; ins.push_back({content(0, 150000), "text"}); ins.push_back({ZIN, "mixed"}); { Bytes b = content(1, 30000); cat(b, content(0, 60000)); ins.push_back({b, "noise and text"}); }
        for (auto& in : ins) for (int high = 0; high < 2; ++high) for (int lev = 1; lev <= 10; ++lev) for (int from : {1, 5, 10}) for (int how = 0; how < 3; ++how) {
            if (high && lev > 6) continue;
            if (!f.next("%s: level %d%s, from level %d, way %d", in.n, lev, high ? " high" : "", from, how)) continue;
            FL2_compressionParameters p; FL2_getLevelParameters(lev, high, &p);
            FL2_CCtx* a = FL2_createCCtx(); set1(a, FL2_p_highCompression, high); set1(a, FL2_p_compressionLevel, lev); set1(a, FL2_p_dictionarySize, 1 << 20); Bytes A = compressed(a, in.b, 0, 0);
            FL2_CCtx* b = FL2_createCCtx(); set1(b, FL2_p_compressionLevel, from);
            if (how == 0) { set1(b, FL2_p_dictionarySize, 1 << 20); set1(b, FL2_p_overlapFraction, p.overlapFraction); set1(b, FL2_p_hybridChainLog, p.chainLog); set1(b, FL2_p_hybridCycles, 1ll << p.cyclesLog); set1(b, FL2_p_searchDepth, p.searchDepth); set1(b, FL2_p_fastLength, p.fastLength); set1(b, FL2_p_divideAndConquer, p.divideAndConquer); set1(b, FL2_p_strategy, p.strategy); }
            if (how == 1) { set1(b, FL2_p_highCompression, high); }      /* the level is given to the operation; the dictionary is then the level's, reduced to the input */
            if (how == 2) { set1(b, FL2_p_strategy, p.strategy); set1(b, FL2_p_divideAndConquer, p.divideAndConquer); set1(b, FL2_p_fastLength, p.fastLength); set1(b, FL2_p_searchDepth, p.searchDepth); set1(b, FL2_p_hybridCycles, 1ll << p.cyclesLog); set1(b, FL2_p_hybridChainLog, p.chainLog); set1(b, FL2_p_overlapFraction, p.overlapFraction); set1(b, FL2_p_dictionaryLog, 20); }
            Bytes B = compressed(b, in.b, how == 1 ? lev : 0, 0); FL2_freeCCtx(a); FL2_freeCCtx(b);
            if (how == 1) { /* match buffers are sized by the level's dictionary */ if (p.dictionarySize != 1 << 20) { FL2_CCtx* d = FL2_createCCtx(); set1(d, FL2_p_highCompression, high); set1(d, FL2_p_compressionLevel, lev); A = compressed(d, in.b, 0, 0); FL2_freeCCtx(d); } }
            if (A != B) mcFail("the result differs (%zu and %zu bytes)", A.size(), B.size());
        }
        /* each parameter alone makes a difference on input chosen for it, and the value last set counts */
        struct E { int i; size_t a, b; int st; };
        static const E es[] = {{12, 0, 1, 0}, {12, 1, 2, 0}, {9, 6, 254, 0}, {10, 6, 273, 1}, {8, 1, 64, 2}, {7, 4, 14, 2}, {4, 0, 14, 0}, {13, 0, 3, 0}, {14, 0, 1, 0}, {15, 0, 4, 0}, {11, 0, 1, 0}, {5, 1, 16, 0}, {5, 0, 1, 0}, {17, 0, 1, 0}, {16, 0, 1, 0}, {3, 4096, 40000, 0}, {2, 12, 15, 0}};
        for (auto& e : es) for (int how = 0; how < 2; ++how) {
            if ((e.i == 3 || e.i == 2) && !inRange(e.i, e.a)) continue;
            if (e.i == 11 && rng(3).lo < 100000) continue;      /* the match buffers of the reduced build hold whole lists */
            if (!f.next("%s %zu or %zu, %s", PNAME[e.i], e.a, e.b, how ? "stream" : "one-shot")) continue;
            Bytes PAIRS; { Bytes z = noise(40000, 3); for (u8 b : z) { PAIRS.push_back('a'); PAIRS.push_back('b'); PAIRS.push_back(b & 31); if (b & 1) PAIRS.push_back(b >> 5); } }      /* long chains */
            auto mk = [&](std::vector<size_t> vs) { FL2_CCtx* c = FL2_createCCtx(); set1(c, FL2_p_compressionLevel, 3); set1(c, FL2_p_strategy, e.st); set1(c, FL2_p_dictionarySize, e.i == 11 ? 1 << 20 : rng(3).lo); set1(c, FL2_p_literalCtxBits, 0); for (size_t v : vs) set1(c, PARAMS[e.i], v); Bytes r = compressed(c, e.i == 11 ? PAIRS : ZIN, 0, how); FL2_freeCCtx(c); return r; };
            Bytes a = mk({e.a}), b = mk({e.b}); if (a == b) mcFail("makes no difference"); if (mk({e.b, e.a}) != a || mk({e.a, e.b}) != b) mcFail("an earlier setting shows");
        }
    }
    {
        Fam f("thread counts");
        for (unsigned n : {0u, 1u, 2u, 3u, 5u, 8u, 16u, 63u, 64u, 65u, 127u, 128u, 129u, 199u, 200u, 201u, 255u, 256u, 257u, 511u, 65535u, 65536u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu}) for (int kind = 0; kind < 5; ++kind) {
            static const char* nm[] = {"FL2_createCCtxMt", "FL2_createDCtxMt", "FL2_createCStreamMt", "FL2_createCStreamMt, dual", "FL2_createDStreamMt"};
            if (!f.next("%s(%u)", nm[kind], n)) continue; ++nOps;
            void* o = kind == 0 ? (void*)FL2_createCCtxMt(n) : kind == 1 ? (void*)FL2_createDCtxMt(n) : kind == 4 ? (void*)FL2_createDStreamMt(n) : (void*)FL2_createCStreamMt(n, kind == 3); if (!o) mcFail("not created");
            if (kind != 4) { unsigned c = kind == 1 ? FL2_getDCtxThreadCount((FL2_DCtx*)o) : FL2_getCCtxThreadCount((FL2_CCtx*)o); if (n >= 1 && n <= FL2_MAXTHREADS ? c != n : c < 1 || c > FL2_MAXTHREADS) mcFail("%u threads", c); }
            if (kind == 1) FL2_freeDCtx((FL2_DCtx*)o); else if (kind == 4) FL2_freeDStream((FL2_DStream*)o); else FL2_freeCCtx((FL2_CCtx*)o);
            if (mc_live_threads()) mcFail("%d threads left over", mc_live_threads());
        }
        if (f.next("objects without a thread count")) { FL2_CCtx* c = FL2_createCCtx(); FL2_DCtx* d = FL2_createDCtx(); FL2_CStream* s = FL2_createCStream(); if (!c || !d || !s) mcFail("not created"); if (FL2_getCCtxThreadCount(c) != 1 || FL2_getDCtxThreadCount(d) != 1 || FL2_getCCtxThreadCount(s) != 1) mcFail("not 1 thread"); FL2_freeCCtx(c); FL2_freeDCtx(d); FL2_freeCStream(s); FL2_freeCCtx(nullptr); FL2_freeCStream(nullptr); FL2_freeDCtx(nullptr); FL2_freeDStream(nullptr); }
    }
    {
        /* all processors: the number of cores, without their hyperthreads, however the system describes them */
        Fam f("processors"); mc_machine.synthetic = true;
        for (long p : {-1L, 1L, 2L, 3L, 4L, 6L, 8L, 16L, 64L, 200L, 201L, 400L, 1000L}) for (int sib : {-1, 0, 1, 2, 3, 4, 8, 12, 16, 64}) for (int cor : {-1, 0, 1, 2, 4, 6, 8, 64}) for (int form = 0; form < 5; ++form) {
            if (sib < 0 && cor < 0 && form > 2) continue;
            if (!f.next("%ld processors on line, siblings %d, cpu cores %d, form %d of /proc/cpuinfo", p, sib, cor, form)) continue; ++nOps;
            std::string c, x; char b[64];
            if (sib >= 0) { snprintf(b, sizeof b, form == 3 ? "siblings:%d\n" : "siblings\t: %d\n", sib); c = b; }
            if (cor >= 0) { snprintf(b, sizeof b, form == 3 ? "cpu cores:%d\n" : "cpu cores\t: %d\n", cor); if (form == 1) c = b + c; else c += b; }
            x = form == 4 ? c : "processor\t: 0\nmodel name\t: x\nflags\t\t: " + std::string(form == 2 ? 700 : 50, 'f') + "\n" + c + "core id\t\t: 0\n\nprocessor\t: 1\n" + c + "\n";
            mc_lib_reset(); mc_machine.processors = p; mc_machine.cpuinfo = x;
            long all = p < 1 ? 1 : p, want = sib > 0 && cor > 0 && sib > cor ? all / (sib / cor) : all; want = std::max(1L, std::min(want, (long)FL2_MAXTHREADS));
            for (int k = 0; k < 2; ++k) {
                FL2_DCtx* d = FL2_createDCtxMt(0); FL2_CCtx* e = FL2_createCCtxMt(0); if (!d || !e) mcFail("not created");
                if ((long)FL2_getDCtxThreadCount(d) != want || (long)FL2_getCCtxThreadCount(e) != want) mcFail("%u threads for decompression, %u for compression; %ld expected", FL2_getDCtxThreadCount(d), FL2_getCCtxThreadCount(e), want);
                FL2_freeDCtx(d); FL2_freeCCtx(e);
                if (FL2_estimateCCtxSize(3, 0) != FL2_estimateCCtxSize(3, want) || FL2_estimateDCtxSize(0) != FL2_estimateDCtxSize(want) || FL2_estimateDStreamSize(1 << 20, 0) != FL2_estimateDStreamSize(1 << 20, want) || FL2_estimateCStreamSize(2, 0, 1) != FL2_estimateCStreamSize(2, want, 1)) mcFail("the estimates for all processors are not those for %ld threads", want);
            }
        }
        mc_machine.synthetic = false; mc_lib_reset();
    }
    {
        /* the functions for streams and those for contexts are the same setting */
        Fam f("stream functions");
        for (int i = 0; i < (int)(sizeof PARAMS / sizeof *PARAMS); ++i) for (int pos = 0; pos < 5; ++pos) {
            Rng r = rng(i); size_t v = pos == 0 ? r.lo : pos == 1 ? r.hi : pos == 2 ? r.lo + (r.hi - r.lo) / 2 : pos == 3 ? r.hi + 1 : r.lo - 1;
            if (!f.next("%s = %zu", PNAME[i], v)) continue; ++nOps;
            FL2_CStream *a = FL2_createCStream(), *b = FL2_createCStream(); size_t x = FL2_CStream_setParameter(a, PARAMS[i], v), y = FL2_CCtx_setParameter(b, PARAMS[i], v); if (x != y) mcFail("FL2_CStream_setParameter gives %zu (%s), FL2_CCtx_setParameter %zu (%s)", x, errName(x), y, errName(y));
            for (FL2_cParameter q : PARAMS) if (FL2_CStream_getParameter(a, q) != FL2_CCtx_getParameter(b, q) || FL2_CCtx_getParameter(a, q) != FL2_CCtx_getParameter(b, q)) mcFail("parameter %d differs afterwards: %zu, %zu", (int)q, FL2_CStream_getParameter(a, q), FL2_CCtx_getParameter(b, q));
            FL2_freeCStream(a); FL2_freeCStream(b);
        }
    }
    {
        /* results and errors can be told apart */
        Fam f("error codes");
        for (int c = 0; c <= FL2_error_maxCode + 3; ++c) if (f.next("code %d", c)) {
            size_t r = (size_t)0 - (size_t)c; bool err = c > 0 && c < FL2_error_maxCode; ++nOps; if (c == FL2_error_maxCode) continue;
            if (!!FL2_isError(r) != err) mcFail("FL2_isError: %u", FL2_isError(r)); if (FL2_getErrorCode(r) != (err ? (FL2_ErrorCode)c : FL2_error_no_error)) mcFail("FL2_getErrorCode: %d", (int)FL2_getErrorCode(r)); if (!!FL2_isTimedOut(r) != (c == FL2_error_timedOut)) mcFail("FL2_isTimedOut");
            if (err && strcmp(FL2_getErrorName(r), FL2_getErrorString((FL2_ErrorCode)c))) mcFail("names differ");
            if (c <= FL2_error_timedOut) for (int d = 0; d < c; ++d) if (!strcmp(FL2_getErrorString((FL2_ErrorCode)c), FL2_getErrorString((FL2_ErrorCode)d))) mcFail("same text as code %d", d);
        }
        for (int b = 0; b < 64; ++b) for (int k = -1; k < 2; ++k) if (f.next("result 2^%d%+d", b, k)) { size_t r = ((size_t)1 << b) + k; if (FL2_isError(r) || FL2_getErrorCode(r)) mcFail("is an error"); }
        if (f.next("version")) { if (FL2_versionNumber() != FL2_VERSION_NUMBER || strcmp(FL2_versionString(), FL2_VERSION_STRING)) mcFail("version %u %s", FL2_versionNumber(), FL2_versionString()); }
    }
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
    IN[0] = text(400000, 11); IN[1] = noise(60000, 12);
    { ZIN = text(60000, 5); cat(ZIN, Bytes(9000, 0)); cat(ZIN, noise(3000, 9)); for (int i = 0; i < 20000; ++i) ZIN.push_back((u8)((i * i) >> 6)); for (int i = 0; i < 8000; ++i) ZIN.push_back((u8)("abcdefgh"[i * i % 7])); cat(ZIN, Bytes(ZIN.begin(), ZIN.begin() + 30000)); if (rng(3).lo > 100000) while (ZIN.size() < 1400000) { size_t n = ZIN.size(); cat(ZIN, Bytes(ZIN.begin() + n / 7, ZIN.begin() + n / 7 + 5000)); cat(ZIN, text(4000, (u32)n)); cat(ZIN, noise(200, (u32)n)); } }
    if (mcProp == "C15") { c15(); mcCount("transitions", nOps); return mcFinish(); }
    auto set = [&](size_t dict, int st, int ov, int rs, int chain, int lc, int lp, int pb, int xxh, int omit) { Set s; s.lev = 0; s.high = 0; s.p.dict = dict; s.p.strategy = st; s.p.overlap = ov; s.p.reset = rs; s.p.chain = chain; s.p.lc = lc; s.p.lp = lp; s.p.pb = pb; s.p.xxh = xxh; s.p.omit = omit; SETS.push_back(s); };
    if (mcJob == "ctxreal") {      /* real sizes: reuse of tables and buffers between dictionary sizes, input shorter and longer than the dictionary */
        IN[0] = noise(2600000, 5); for (auto& v : IN[0]) v = (v >> 6) + (v & 1 ? 0 : 'a'); IN[1] = text(2600000, 3);
        size_t M = 1 << 20; struct D { size_t dict; int st, chain, resize; }; std::vector<COp> al;
        static const D ds[] = {{M, 0, -1, -1}, {2 * M, 2, 9, -1}, {16 * M, 1, -1, 0}, {64 * M, 0, -1, 4}, {M, 2, 7, 3}, {64 * M, 2, 12, -1}, {(64 * M) + 4096, 0, -1, -1}};
        for (int k = 0; k < 7; ++k) { const D& d = ds[k]; set(d.dict, d.st, 2, 4, d.chain, -1, -1, -1, 1, 0); SETS.back().p.resize = d.resize; SETS.back().p.depth = 12; SETS.back().p.dac = k & 1;
            al.push_back({ONE, k, 60000, k & 1, 0}); al.push_back({ONE, k, k == 1 ? 2600000u : M + (k & 1), (k == 5 || k == 3 || k == 4), 0}); if (d.dict < 4 * M) al.push_back({STREAM, k, M + M / 5, 0, 0}); }
        al.push_back({SMALL, 5, M, 0, 1000}); al.push_back({ABANDON, 4, M + M / 4, 0, 2});
        famC("real sizes", al, {{1, 0, 0, false, 0}, {3, 0, 0, false, 0}}, mcThorough ? 3 : 2); mcCount("transitions", nOps); return mcFinish();
    }
    set(4096, 0, 2, 4, -1, -1, -1, -1, 1, 0);
    set(9000, 2, 0, 1, 8, 0, 2, 1, 0, 0);          /* structured table, hash chain */
    set(20000, 1, 14, 2, -1, 1, 1, 4, 1, 1);       /* raw */
    set(5000, 2, 3, 0, 12, 4, 0, 0, 1, 0);
    SETS.push_back({P(), 1, 0}); SETS.push_back({P(), 6, 0}); SETS.push_back({P(), 1, 1}); SETS.push_back({P(), 7, 0});
    if (mcJob == "ctx" || mcJob == "deepctx") {
        std::vector<COp> al, core;
        for (int s = 0; s < 6; ++s) { al.push_back({ONE, s, s == 5 ? 700u : 13000u, 0, 0}); if (s < 4) al.push_back({STREAM, s, 13000, s & 1, 0}); }
        al.push_back({ONE, 0, 0, 0, 0}); al.push_back({STREAM, 1, 0, 0, 0}); al.push_back({ONE, 6, 3000, 1, 0}); al.push_back({STREAM, 4, 9000, 0, 0}); al.push_back({ONE, 7, 5000, 0, 0});
        al.push_back({SMALL, 0, 9000, 1, 100}); al.push_back({SMALL, 1, 9000, 1, 9000}); al.push_back({SMALL, 4, 300, 1, 300}); al.push_back({SMALL, 2, 12000, 1, 8000}); al.push_back({SMALL, 0, 0, 0, 2}); al.push_back({SMALL, 3, 50, 0, 1});
        for (int st = 0; st < NSTAGE; ++st) { al.push_back({ABANDON, st & 3, 13000, st & 1, (size_t)st}); al.push_back({CANCEL, (st + 1) & 3, 13000, st & 1, (size_t)st}); }
        al.push_back({ABANDON, 4, 9000, 0, 2}); al.push_back({ABANDON, 2, 60000, 1, 2}); al.push_back({ABANDON, 0, 30000, 0, 2});
        std::vector<CEnv> envs = {{1, 0, 0, false, 0}, {3, 0, 0, false, 0}, {1, 1, 0, false, 0}, {2, 1, 0, true, 0}, {1, 0, 1, false, ~0ull >> 40}, {2, 1, 1, false, 0x5}};
        if (mcJob == "ctx") famC("context", al, envs, mcThorough ? 3 : 2);
        core = {{ONE, 0, 5000, 0, 0}, {STREAM, 1, 9000, 0, 0}, {SMALL, 1, 9000, 1, 6000}, {ABANDON, 2, 21000, 1, 2}, {ABANDON, 0, 700, 0, 1}, {CANCEL, 3, 13000, 0, 2}, {ABANDON, 4, 3000, 0, 5}, {STREAM, 4, 3000, 1, 0}, {ONE, 6, 900, 0, 0}};
        if (mcJob == "deepctx") famC("context, longer", core, envs, mcThorough ? 5 : 4);
    } else {
        { RefEnc e; setvbuf(stdout, nullptr, _IONBF, 0); (void)e; }
        for (int w = 0; w < 4; ++w) { FL2_CCtx* c = FL2_createCCtx(); P p; p.dict = w == 3 ? 4096 * 3 : 4096; p.strategy = 0; p.reset = 1; p.xxh = w != 1; apply(c, p); Bytes b = w == 0 ? Bytes() : content(w == 2, w == 1 ? 900 : w == 2 ? 13000 : 40000); Bytes o(FL2_compressBound(b.size()) + 4096); size_t r = FL2_compressCCtx(c, o.data(), o.size(), b.data(), b.size(), 0); if (FL2_isError(r)) mcFail("preparing stream %d: %s", w, errName(r)); o.resize(r); FL2_freeCCtx(c); static const char* nm[] = {"empty", "small raw", "noise blocks", "text blocks"}; ST.push_back({nm[w], o}); }
        { RefEnc e; e.lc = 0; e.lp = 3; e.pb = 0; e.begin(3); for (int i = 0; i < 40; ++i) e.literal((u8)(i * 37)); e.match(20, 200); e.repMatch(0, 9); e.end(); e.stored((const u8*)"stored", 6, true); e.eos(); ST.push_back({"lp 3, then stored", e.stream(0x83)}); }
        std::vector<DOp> al; size_t big = 1 << 20;
        for (int s = 0; s < (int)ST.size(); ++s) { al.push_back({FULL, s, big, big, 0, (s & 1) != 0, -1}); al.push_back({CORRUPT, s, big, big, ST[s].second.size() / 2, false, -1}); }
        al.push_back({FULL, 3, 700, 900, 0, false, -1}); al.push_back({FULL, 2, big, 5000, 0, false, 20000}); al.push_back({FULL, 4, 1, 1, 0, true, -1}); al.push_back({FULL, 2, 1000, big, 0, true, -1});
        for (size_t k : {(size_t)1, (size_t)3, (size_t)20, (size_t)2000, ST[2].second.size() - 5, ST[2].second.size() - 1}) { al.push_back({PREFIX, 2, big, big, k, false, -1}); al.push_back({PREFIX, 3, 600, 100, k * 3 / 5, (k & 1) != 0, -1}); }
        al.push_back({CORRUPT, 3, 500, 500, 0, false, -1}); al.push_back({CORRUPT, 3, 5000, 5000, 1, false, -1}); al.push_back({CORRUPT, 2, 5000, big, ST[2].second.size() - 1, false, -1}); al.push_back({CORRUPT, 4, 1, 1, 5, true, -1});
        al.push_back({IDLE, 2, 3000, 300, 2000, false, -1}); al.push_back({IDLE, 3, 300, 300, 600, true, -1}); al.push_back({TOOSMALL, 3, big, big, 0, false, -1}); al.push_back({BADPROP, 0, 0, 0, 0, false, -1}); al.push_back({PREFIX, 2, 3000, 10, 9000, false, -1});
        std::vector<DEnv> envs; for (unsigned t : {1u, 2u, 4u}) { envs.push_back({false, t, 0, 0}); envs.push_back({true, t, 0, 0}); }
        /* starving output for good is not an operation that completes on contexts: TOOSMALL is only for them */
        std::vector<DOp> ctxAl, strAl, tmAl; for (auto& o : al) { if (o.kind != TOOSMALL) strAl.push_back(o); if (o.in >= big || o.kind == BADPROP || o.kind == IDLE) ctxAl.push_back(o); }
        tmAl = strAl; tmAl.push_back({FLIGHT, 3, big, big, 0, false, -1}); tmAl.push_back({FLIGHT, 2, big, big, 1, true, -1}); tmAl.push_back({FLIGHT, 3, 3000, 3000, 0, true, -1}); tmAl.push_back({FLIGHT, 1, big, big, 0, false, -1});
        std::vector<DEnv> ec, es, et; for (unsigned t : {1u, 2u, 4u}) { ec.push_back({false, t, 0, 0}); es.push_back({true, t, 0, 0}); for (uint64_t m : {0ull, ~0ull >> 20, 5ull}) et.push_back({true, t, 1, m}); }
        unsigned depth = mcThorough ? 4 : 3; famD("contexts", ctxAl, ec, depth); famD("streams", strAl, es, depth); famD("streams with timeout", tmAl, et, mcThorough ? 3 : 2);
    }
    mcCount("transitions", nOps);
    return mcFinish();
}
