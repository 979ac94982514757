/* C16: every single allocation and thread creation of every operation fails once (or from some point on all do).
 * The operation must then fail with an error or still deliver the right data; the object must remain usable, the
 * retry with memory available must succeed, and everything must be freed in the end. */
#include "lib.h"
#include "params.h"
static uint64_t nOps; static Bytes IN, COMP[2][3];
static size_t base0; enum How { ONE, ALL_FROM, THREAD };
static long injAlloc, injThread; static bool injOn; static How how;
/* only what the library allocates counts: harness containers use the ordinary heap */
static void arm(How h, long k) { how = h; injOn = true; mc_alloc.count = 0; mc_alloc.failed = false; mc_sched.creates = 0; mc_sched.createFailed = false; mc_alloc.failAt = h == THREAD ? -1 : k; mc_alloc.failFrom = h == ALL_FROM; mc_sched.failCreate = h == THREAD ? k : -1; }
static bool injected() { return mc_alloc.failed || mc_sched.createFailed; }
static void disarm() { injOn = false; mc_alloc.failAt = -1; mc_alloc.failFrom = false; mc_sched.failCreate = -1; }
struct Res { bool ok; size_t code; };
static Res good() { return {true, 0}; }
static Res bad(size_t c) { return {false, c}; }
static const char* cur = "";
/* ---- compression ---- */
struct CS { P p; int kind; /* 0 one-shot, 1 stream, 2 dual stream */ unsigned timeout; size_t n; bool abandon = false; /* not ended */ };
static void checkOut(const CS& c, const u8* d, size_t n) {
    RefStream R = refStream(d, n); if (R.info.st != RefInfo::OK) mcFail("%s: success reported, but the output is not a valid stream: %s", cur, R.info.why);
    if (R.info.out.size() != c.n || memcmp(R.info.out.data(), IN.data(), c.n)) mcFail("%s: success reported, but the output decodes to other data", cur);
}
static size_t waitC(FL2_CStream* s) { size_t r; unsigned k = 0; do { r = FL2_waitCStream(s); if (++k > 1000) mcFail("%s: waiting does not end", cur); } while (FL2_isTimedOut(r)); return r; }
static Res compressOp(FL2_CCtx* c, const CS& s, int level) {
    ++nOps; Bytes out(FL2_compressBound(s.n) + 64); mc_sched.timerMask = s.timeout ? 0x35 : 0; mc_sched.timedWaits = 0;
    if (s.kind == 0) {
        size_t r = FL2_compressCCtx(c, out.data(), out.size(), IN.data(), s.n, level);
        if (FL2_isError(r)) return bad(r);
        checkOut(s, out.data(), r); return good();
    }
    if (s.timeout) { size_t r = FL2_setCStreamTimeout(c, s.timeout); if (FL2_isError(r)) return bad(r); }
    size_t r = FL2_initCStream(c, level); if (FL2_isError(r)) return bad(r);
    FL2_inBuffer in = {IN.data(), s.n, 0}; FL2_outBuffer o = {out.data(), out.size(), 0}; unsigned k = 0;
    if (s.abandon) { FL2_compressStream(c, &o, &in); FL2_flushStream(c, &o); FL2_compressStream(c, nullptr, &in); return good(); }
    while (in.pos < in.size) { r = FL2_compressStream(c, &o, &in); if (FL2_isTimedOut(r)) { r = waitC(c); } if (FL2_isError(r)) return bad(r); if (++k > 1000) mcFail("%s: compressing does not end", cur); }
    do { r = FL2_endStream(c, &o); if (FL2_isTimedOut(r)) { r = waitC(c); if (!FL2_isError(r)) r = 1; } if (FL2_isError(r)) return bad(r); if (++k > 1000) mcFail("%s: ending does not end", cur); } while (r);
    checkOut(s, out.data(), o.pos); return good();
}
static FL2_CCtx* mk(const CS& s) { return s.kind ? FL2_createCStreamMt(s.p.threads, s.kind == 2) : FL2_createCCtxMt(s.p.threads); }
static void setAll(FL2_CCtx* c, const P& p) { FL2_CCtx_setParameter(c, FL2_p_highCompression, 0); apply(c, p); }
struct DSc { int kind; /* 0 one-shot, 1 stream */ unsigned threads, timeout; int which; size_t step; bool prop; bool abandon = false; };
static Bytes payload(int which) { return Bytes(IN.begin(), IN.begin() + (which == 0 ? 700 : which == 1 ? 9000 : 40000)); }
static Res decompressOp(void* o, const DSc& s) {
    ++nOps; mc_sched.timerMask = s.timeout ? 0x35 : 0; mc_sched.timedWaits = 0; const Bytes& C = COMP[s.prop][s.which]; Bytes want = payload(s.which), out(want.size() + 16); size_t n = want.size(), off = s.prop ? 1 : 0;
    if (s.kind == 0) {
        FL2_DCtx* d = (FL2_DCtx*)o; if (s.prop) { size_t r = FL2_initDCtx(d, C[0]); if (FL2_isError(r)) return bad(r); }
        size_t r = FL2_decompressDCtx(d, out.data(), n, C.data() + off, C.size() - off); if (FL2_isError(r)) return bad(r);
        if (r != n || memcmp(out.data(), want.data(), n)) mcFail("%s: success reported with wrong data", cur); return good();
    }
    FL2_DStream* d = (FL2_DStream*)o; size_t r; unsigned k = 0;
    if (s.timeout) { r = FL2_setDStreamTimeout(d, s.timeout); if (FL2_isError(r)) return bad(r); }
    r = s.prop ? FL2_initDStream_withProp(d, C[0]) : FL2_initDStream(d); if (FL2_isError(r)) return bad(r);
    FL2_inBuffer ib = {C.data() + off, 0, 0}, *in = &ib; FL2_outBuffer obuf = {out.data(), n, 0}, *ob = &obuf; Res res = good();
    if (s.abandon) { in->size = (C.size() - off) / 2; ob->size = n / 3; r = FL2_decompressStream(d, ob, in); return good(); }
    do {
        in->size = std::min(C.size() - off, in->size + s.step); r = FL2_decompressStream(d, ob, in);
        while (FL2_isTimedOut(r)) { r = FL2_waitDStream(d); if (++k > 3000) mcFail("%s: waiting does not end", cur); }
        if (FL2_isError(r)) { res = bad(r); break; }
        if (++k > 60000) mcFail("%s: decompression does not end", cur);
    } while (r);
    if (res.ok && (ob->pos != n || memcmp(out.data(), want.data(), n))) mcFail("%s: success reported with wrong data (%zu of %zu bytes)", cur, ob->pos, n);
    return res;
}
/* A scenario: create, any number of earlier operations, then the operation in which the failure happens, then the retry. */
struct Scn {
    virtual ~Scn() {} virtual void* create() = 0; virtual void destroy(void*) = 0; virtual Res before(void*) = 0; virtual Res op(void*, bool retry) = 0; virtual Res after(void*) = 0; virtual std::string str() = 0;
};
struct CScn : Scn {
    CS s; const CS* first; int fail;     /* first: an earlier operation with other settings */
    CScn(const CS& a, const CS* f) : s(a), first(f) {}
    void* create() override { return mk(s); } void destroy(void* o) override { FL2_freeCCtx((FL2_CCtx*)o); }
    Res before(void* o) override { if (!first) return good(); FL2_cancelCStream((FL2_CCtx*)o); setAll((FL2_CCtx*)o, first->p); CS f = *first; f.kind = s.kind; return compressOp((FL2_CCtx*)o, f, 0); }
    Res op(void* o, bool) override { FL2_cancelCStream((FL2_CCtx*)o); /* unlocks the settings */ setAll((FL2_CCtx*)o, s.p); return compressOp((FL2_CCtx*)o, s, 0); }
    Res after(void* o) override { if (!first) return good(); return before(o); }
    std::string str() override { char t[200]; snprintf(t, sizeof t, "compression, %s, timeout %u, %zu bytes, ", s.kind == 0 ? "one-shot" : s.kind == 1 ? "stream" : "dual stream", s.timeout, s.n); return t + s.p.str() + (first ? (first->abandon ? "after unfinished " : "after ") + first->p.str() : ""); }
};
struct DScn : Scn {
    DSc s; const DSc* first; DScn(const DSc& a, const DSc* f) : s(a), first(f) {}
    void* create() override { return s.kind ? (void*)FL2_createDStreamMt(s.threads) : (void*)FL2_createDCtxMt(s.threads); }
    void destroy(void* o) override { if (s.kind) FL2_freeDStream((FL2_DStream*)o); else FL2_freeDCtx((FL2_DCtx*)o); }
    Res before(void* o) override { if (!first) return good(); DSc f = *first; f.kind = s.kind; return decompressOp(o, f); }
    Res op(void* o, bool) override { return decompressOp(o, s); } Res after(void* o) override { return before(o); }
    std::string str() override { char t[200]; snprintf(t, sizeof t, "decompression, %s, %u threads, timeout %u, stream %d%s, input step %zu%s", s.kind ? "stream" : "one-shot", s.threads, s.timeout, s.which, s.prop ? " with given property" : "", s.step, first ? first->abandon ? " after an unfinished one" : " after another" : ""); return t; }
};
/* where: 0 = creation, 1 = operation.  Returns whether something was made to fail. */
static bool runOne(Scn& sc, int where, How h, long k) {
    base0 = mc_alloc.live; void* o; cur = "operation";
    if (where == 0) {
        arm(h, k); o = sc.create(); bool inj = injected(); disarm();
        if (!inj) { if (!o) mcFail("creation failed although nothing was made to fail"); sc.destroy(o); if (mc_alloc.live != base0) mcFail("%zu bytes leaked", mc_alloc.live - base0); return false; }
        mcCount(o ? "creation succeeded regardless" : "creation failed cleanly");
        if (!o && mc_alloc.live != base0) mcFail("creation failed, but %zu bytes are left (%s)", mc_alloc.live - base0, mc_live_list().c_str());
        if (o) { cur = "operation on an object created with less than asked for"; Res r = sc.op(o, false); if (!r.ok) mcFail("%s: %s", cur, errName(r.code)); sc.destroy(o); }
        if (mc_alloc.live != base0) mcFail("%zu bytes leaked (%s)", mc_alloc.live - base0, mc_live_list().c_str());
        return true;
    }
    o = sc.create(); if (!o) mcFail("creation failed although nothing was made to fail");
    Res b = sc.before(o); if (!b.ok) mcFail("earlier operation: %s", errName(b.code));
    if (where == 2) { arm(h, k); }       /* the failure may also hit the teardown: freeing must not allocate */
    else arm(h, k);
    Res r = sc.op(o, false); bool inj = injected(); disarm();
    if (!inj) { if (!r.ok) mcFail("operation failed although nothing was made to fail: %s", errName(r.code)); sc.destroy(o); if (mc_alloc.live != base0) mcFail("%zu bytes leaked", mc_alloc.live - base0); return false; }
    if (!r.ok) { mcCount("operation failed cleanly"); size_t e = FL2_getErrorCode(r.code); if (e != FL2_error_memory_allocation) mcFail("error %s for a failed %s", errName(r.code), h == THREAD ? "thread creation" : "allocation"); }
    else mcCount("operation succeeded regardless");
    if (where == 2) { sc.destroy(o); if (mc_alloc.live != base0) mcFail("%zu bytes leaked after failure and free (%s)", mc_alloc.live - base0, mc_live_list().c_str()); return true; }
    cur = "retry"; Res q = sc.op(o, true); if (!q.ok) mcFail("retry with memory available: %s", errName(q.code));
    cur = "operation after the retry"; q = sc.after(o); if (!q.ok) mcFail("%s: %s", cur, errName(q.code));
    sc.destroy(o); if (mc_alloc.live != base0) mcFail("%zu bytes leaked (%s)", mc_alloc.live - base0, mc_live_list().c_str());
    return true;
}
static void sweep(Fam& f, Scn& sc) {
    std::string d = sc.str();
    for (int where = 0; where < 3; ++where) for (How h : {ONE, ALL_FROM, THREAD}) {
        if (!f.next("%s; %s fails at every point of the %s", d.c_str(), h == ONE ? "one allocation" : h == ALL_FROM ? "every allocation from one on" : "one thread creation", where == 0 ? "creation" : where == 1 ? "operation, which is then retried" : "operation, then the object is freed")) continue;
        long k = 0; while (runOne(sc, where, h, k)) { ++k; mcCount("failures injected"); mcNewState(mcMix(mcHashBytes(d.data(), d.size()), mcMix(where * 3 + h, k))); if (k > 2000) mcFail("too many failure points"); }
        mcMax("failure points in one operation", k);
    }
}
/* two failures in succession, then other settings or the same again */
static void sweep2(Fam& f, Scn& sc) {
    std::string d = sc.str();
    for (How h : {ONE, ALL_FROM}) for (int other = 0; other < 2; ++other) {
        if (!f.next("%s; %s fails at every point of the operation and again at every point of the retry, then %s", d.c_str(), h == ONE ? "one allocation" : "every allocation from one on", other ? "the earlier operation and the retry" : "another retry")) continue;
        bool more = true; for (long k = 0; more; ++k) {
            bool more2 = true; for (long k2 = 0; more && more2; ++k2) {
                base0 = mc_alloc.live; void* o = sc.create(); Res b = sc.before(o); cur = "operation"; if (!b.ok) mcFail("earlier operation: %s", errName(b.code));
                arm(h, k); Res r = sc.op(o, false); more = injected(); disarm(); if (!r.ok && (!more || FL2_getErrorCode(r.code) != FL2_error_memory_allocation)) mcFail("operation: %s", errName(r.code));
                cur = "retry"; arm(ONE, k2); r = sc.op(o, true); more2 = injected(); disarm(); if (!r.ok && (!more2 || FL2_getErrorCode(r.code) != FL2_error_memory_allocation)) mcFail("retry: %s", errName(r.code));
                if (other) { cur = "earlier operation again"; r = sc.after(o); if (!r.ok) mcFail("%s: %s", cur, errName(r.code)); }
                cur = "second retry"; r = sc.op(o, true); if (!r.ok) mcFail("%s: %s", cur, errName(r.code));
                sc.destroy(o); if (mc_alloc.live != base0) mcFail("%zu bytes leaked (%s)", mc_alloc.live - base0, mc_live_list().c_str());
                mcCount("pairs of failures injected"); mcNewState(mcMix(mcHashBytes(d.data(), d.size()), mcMix(h * 1000 + k, k2))); if (k > 500 || k2 > 500) mcFail("too many failure points");
            }
        }
    }
}
static CS cs(int kind, unsigned threads, size_t dict, int st, size_t n, unsigned timeout = 0, int chain = -1, int resize = -1, int xxh = -1) { CS c; c.kind = kind; c.p.threads = threads; c.p.dict = dict; c.p.strategy = st; c.p.chain = chain; c.p.resize = resize; c.p.xxh = xxh; c.n = n; c.timeout = timeout; return c; }
int main(int argc, char** argv) {
    mcInit(argc, argv);
    IN = text(60000, 11); for (size_t i = 5000; i < 6000; ++i) IN[i] = (u8)(i * i >> 3);
    for (int w = 0; w < 3; ++w) { Bytes b = payload(w); for (int pr = 0; pr < 2; ++pr) { FL2_CCtx* c = FL2_createCCtx(); P p; p.dict = 4096; p.strategy = 0; p.reset = 1; apply(c, p); if (w == 1) FL2_CCtx_setParameter(c, FL2_p_doXXHash, 0); COMP[pr][w].resize(FL2_compressBound(b.size())); COMP[pr][w].resize(FL2_compressCCtx(c, COMP[pr][w].data(), COMP[pr][w].size(), b.data(), b.size(), 0)); FL2_freeCCtx(c); } }
    {
        Fam f("compression");
        std::vector<CS> second;
        for (int kind = 0; kind < 3; ++kind) for (unsigned t : {1u, 2u, 4u}) for (size_t dict : {(size_t)4096, (size_t)8192, (size_t)9000, (size_t)100000}) for (int st = 0; st < 3; ++st) for (unsigned to : {0u, 1u}) {
            if (to && !kind) continue; if (dict == 100000 && (st == 1 || t == 4)) continue;
            for (size_t n : {(size_t)0, (size_t)300, (size_t)20000}) second.push_back(cs(kind, t, dict, st, n, to, st == 2 && dict == 8192 ? 14 : -1, dict == 9000 ? 4 : -1, st == 0 ? 0 : 1));
        }
        /* what the object did before: nothing; something small; something larger of each table kind; a different strategy */
        static CS firsts[] = { cs(0, 1, 4096, 0, 500, 0, -1, -1, 0), cs(0, 1, 200000, 0, 500), cs(0, 1, 5000, 2, 9000, 0, 4, 0), cs(0, 1, 12000, 1, 3000, 0, -1, 0, 1) };
        for (auto& s : second) { { CScn sc(s, nullptr); sweep(f, sc); } for (auto& fi : firsts) { if (!mcThorough && s.n == 0) continue; CScn sc(s, &fi); sweep(f, sc); } }
    }
    {
        Fam f("decompression");
        for (int kind = 0; kind < 2; ++kind) for (unsigned t : {1u, 2u, 3u, 4u}) for (int w = 0; w < 3; ++w) for (int pr = 0; pr < 2; ++pr) for (unsigned to : {0u, 1u}) for (size_t step : {(size_t)1 << 20, (size_t)1000, (size_t)37, (size_t)5}) {
            if (!kind && (to || step != (size_t)1 << 20)) continue; if (step == 5 && w == 2 && !mcThorough) continue;
            DSc s = {kind, t, to, w, step, pr != 0}; { DScn sc(s, nullptr); sweep(f, sc); }
            for (int fw = 0; fw < 3; ++fw) { DSc fi = {kind, t, 0, fw, 1 << 20, (fw & 1) != 0}; DScn sc(s, &fi); sweep(f, sc); }
        }
    }
    {
        Fam f("after an unfinished stream");
        static CS un[] = { cs(0, 1, 9000, 0, 20000, 0, -1, -1, 1), cs(0, 1, 4096, 2, 6000) }; for (auto& u : un) u.abandon = true;
        for (int kind = 1; kind < 3; ++kind) for (unsigned t : {1u, 3u}) for (size_t dict : {(size_t)4096, (size_t)9000, (size_t)100000}) for (int st : {0, 2}) for (unsigned to : {0u, 1u}) for (auto& u : un) { CS s = cs(kind, t, dict, st, 20000, to, -1, -1, st ? 1 : 0); CScn sc(s, &u); sweep(f, sc); }
        for (unsigned t : {1u, 2u, 4u}) for (int w = 0; w < 3; ++w) for (unsigned to : {0u, 1u}) for (size_t step : {(size_t)1 << 20, (size_t)1000}) for (int fw = 0; fw < 3; ++fw) { DSc s = {1, t, to, w, step, (w & 1) != 0}, u = {1, t, 0, fw, 1 << 20, false, true}; DScn sc(s, &u); sweep(f, sc); }
    }
    {
        Fam f("two failures");
        static CS firsts[] = { cs(0, 1, 200000, 0, 500), cs(0, 1, 5000, 2, 9000, 0, 4, 0) };
        for (int kind = 0; kind < 3; ++kind) for (unsigned t : {1u, 2u}) for (size_t dict : {(size_t)4096, (size_t)9000}) for (int st : {0, 2}) for (unsigned to : {0u, 1u}) {
            if (to && !kind) continue; CS s = cs(kind, t, dict, st, mcThorough ? 20000 : 3000, to, -1, -1, st ? 1 : 0); { CScn sc(s, nullptr); sweep2(f, sc); } for (auto& fi : firsts) { CScn sc(s, &fi); sweep2(f, sc); } }
        for (int kind = 0; kind < 2; ++kind) for (unsigned t : {1u, 2u, 3u}) for (int w = 0; w < 3; ++w) for (size_t step : {(size_t)1 << 20, (size_t)5000}) { if (!kind && step == 5000) continue; DSc s = {kind, t, 0, w, step, (w & 1) != 0}; { DScn sc(s, nullptr); sweep2(f, sc); } for (int fw = 0; fw < 2; ++fw) { DSc fi = {kind, t, 0, fw ? 2 : 0, 1 << 20, false}; DScn sc(s, &fi); sweep2(f, sc); } }
    }
    {
        Fam f("one-call functions");
        for (unsigned t : {1u, 2u, 4u}) for (size_t n : {(size_t)0, (size_t)1000}) for (int dec = 0; dec < 2; ++dec) for (How h : {ONE, ALL_FROM, THREAD}) {
            if (!f.next("%s, %u threads, %zu bytes, failure kind %d", dec ? "FL2_decompressMt" : "FL2_compressMt", t, n, h)) continue;
            Bytes c(FL2_compressBound(n)), o(n + 1); c.resize(FL2_compress(c.data(), c.size(), IN.data(), n, 1)); Bytes c2(FL2_compressBound(n));
            for (long k = 0;; ++k) {
                base0 = mc_alloc.live; arm(h, k); size_t r = dec ? FL2_decompressMt(o.data(), n, c.data(), c.size(), t) : FL2_compressMt(c2.data(), c2.size(), IN.data(), n, 1, t); bool inj = injected(); disarm(); ++nOps;
                if (FL2_isError(r)) { if (!inj) mcFail("%s", errName(r)); if (FL2_getErrorCode(r) != FL2_error_memory_allocation) mcFail("error %s", errName(r)); }
                else if (dec) { if (r != n || memcmp(o.data(), IN.data(), n)) mcFail("wrong data"); } else { CS s; s.n = n; checkOut(s, c2.data(), r); }
                if (mc_alloc.live != base0) mcFail("%zu bytes leaked", mc_alloc.live - base0);
                if (!inj) break; mcCount("failures injected");
            }
        }
    }
    mcCount("transitions", nOps);
    return mcFinish();
}
