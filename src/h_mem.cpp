/* C18: what is allocated against what FL2_estimate* announces.  Every level, thread count and buffer mode at
 * the real sizes (memory is reserved, not touched), parameter combinations with reduced minimum sizes, and
 * the multithreaded streaming decoder on streams of the shape its estimate assumes. */
#include "lib.h"
#include "params.h"
static uint64_t nOps;
static size_t base0;
static size_t used() { return mc_alloc.peak - base0; }
static void begin() { base0 = mc_alloc.live; mc_alloc_reset(); }
/* what may come on top: the object, pool and job tables, and match buffers below their minimum size */
static size_t slack(unsigned t) { return 8192 + 8192 * (size_t)(t ? t : 8); }
static void within(const char* what, size_t est, unsigned t) {
    if (FL2_isError(est)) mcFail("%s: %s", what, errName(est));
    if (used() > est + slack(t)) mcFail("%s is %zu, %zu bytes were allocated", what, est, used());
    mcMax(what[0] == 's' ? "excess (setup)" : "excess over estimate", used() > est ? used() - est : 0);
    mcMax("estimate checked", est); ++nOps;
}
static FL2_compressionParameters levelParams(int lvl, int high) { FL2_compressionParameters p; size_t e = FL2_getLevelParameters(lvl, high, &p); if (e) mcFail("FL2_getLevelParameters(%d,%d): %s", lvl, high, errName(e)); return p; }
static u8 srcBuf[65536], dstBuf[1 << 17];
static void runStream(FL2_CStream* s, int level, size_t n) {
    size_t e = FL2_initCStream(s, level); if (e) mcFail("FL2_initCStream: %s", errName(e));
    FL2_inBuffer in = {srcBuf, n, 0}; FL2_outBuffer o = {dstBuf, sizeof dstBuf, 0};
    while (in.pos < in.size) { e = FL2_compressStream(s, &o, &in); if (FL2_isError(e)) mcFail("FL2_compressStream: %s", errName(e)); o.pos = 0; }
    while ((e = FL2_endStream(s, &o)) != 0) { if (FL2_isError(e)) mcFail("FL2_endStream: %s", errName(e)); o.pos = 0; }
}
/* real sizes: levels */
static void famLevels() {
    Fam f("levels");
    for (int high = 0; high < 2; ++high) for (int lvl = 1; lvl <= (high ? FL2_maxHighCLevel() : FL2_maxCLevel()); ++lvl) for (unsigned t : {0u, 1u, 2u, 3u, 4u, 8u, 16u}) for (int dual = 0; dual < 2; ++dual) for (int how = 0; how < 2; ++how) {
        if (!f.next("%slevel %d, %u threads, dual %d, set by %s", high ? "high " : "", lvl, t, dual, how ? "parameter" : "level of the operation")) continue;
        if (high && !how) continue;
        FL2_compressionParameters p = levelParams(lvl, high);
        begin();
        FL2_CStream* s = FL2_createCStreamMt(t, dual);
        size_t live0 = mc_alloc.live - base0;
        if (how) { set1(s, high ? FL2_p_highCompression : FL2_p_compressionLevel, high ? 1 : lvl); if (high) set1(s, FL2_p_compressionLevel, lvl); }
        size_t eu = how ? FL2_estimateCStreamSize_usingCStream(s) : 0, eu2 = how ? FL2_estimateCCtxSize_usingCCtx(s) : 0;
        if (live0 > slack(t) + FL2_estimateCCtxSize(1, t)) mcFail("creation allocates %zu bytes", live0);
        runStream(s, how ? 0 : lvl, 3000);
        if (!high) for (int up = lvl; up <= FL2_maxCLevel(); ++up) within("FL2_estimateCStreamSize", FL2_estimateCStreamSize(up, t, dual), t);
        if (!high && lvl == 6 && FL2_estimateCStreamSize(0, t, dual) != FL2_estimateCStreamSize(6, t, dual)) { FL2_CCtx* c = FL2_createCCtx(); if (FL2_CCtx_getParameter(c, FL2_p_compressionLevel) == 6) mcFail("FL2_estimateCStreamSize(0) is not that of the default level"); FL2_freeCCtx(c); }
        within("FL2_estimateCStreamSize_byParams", FL2_estimateCStreamSize_byParams(&p, t, dual), t);
        if (how) within("FL2_estimateCStreamSize_usingCStream (before the first operation)", eu, t);
        within("FL2_estimateCStreamSize_usingCStream", FL2_estimateCStreamSize_usingCStream(s), t);
        (void)eu2;
        /* estimates are no wild overstatements either: at most a quarter above */
        size_t est = FL2_estimateCStreamSize_byParams(&p, t, dual); if (est > used() + used() / 4 + slack(t)) mcFail("FL2_estimateCStreamSize_byParams is %zu, only %zu bytes are ever allocated", est, used());
        FL2_freeCStream(s);
        if (mc_alloc.live != base0) mcFail("%zu bytes leaked", mc_alloc.live - base0);
        mcCount("streams"); mcNewState(mcMix(mcMix(lvl * 2 + high, t * 2 + dual), how));
    }
    Fam g("one-shot levels");
    for (int lvl = 0; lvl <= 3; ++lvl) for (unsigned t : {1u, 2u, 4u}) for (size_t n : {(size_t)0, (size_t)1, (size_t)5000, (size_t)1 << 18, (size_t)1 << 20, (size_t)(1 << 21) + 1000}) {
        if (!g.next("level %d, %u threads, %zu bytes", lvl, t, n)) continue;
        Bytes in = text(n, 5), out(FL2_compressBound(n)); begin(); size_t live0 = mc_alloc.live; mcMax("one-shot bytes", n); (void)live0;
        FL2_CCtx* c = FL2_createCCtxMt(t); if (lvl) set1(c, FL2_p_compressionLevel, lvl);
        size_t eu = FL2_estimateCCtxSize_usingCCtx(c);
        size_t r = FL2_compressCCtx(c, out.data(), out.size(), in.data(), n, lvl); if (FL2_isError(r)) mcFail("%s", errName(r));
        within("FL2_estimateCCtxSize", FL2_estimateCCtxSize(lvl, t), t); within("FL2_estimateCCtxSize_usingCCtx (before)", eu, t);
        FL2_freeCCtx(c); mcCount("one-shot operations");
    }
    Fam h("arguments");
    for (int lvl : {-2147483647 - 1, -1000000, -100, -2, -1, 0, 1, 6, 10, 11, 12, 13, 100, 255, 256, 1000000, 2147483647}) for (unsigned t : {0u, 1u, 200u, 201u, 100000u, ~0u}) for (int dual : {0, 1, 2, -1}) {
        if (!h.next("FL2_estimate*(level %d, %u threads, dual %d)", lvl, t, dual)) continue;
        size_t a = FL2_estimateCCtxSize(lvl, t), b = FL2_estimateCStreamSize(lvl, t, dual); nOps += 2; bool ok = lvl >= 0 && lvl <= FL2_maxCLevel();
        if (FL2_isError(a) == ok) mcFail("FL2_estimateCCtxSize(%d): %zx", lvl, a);
        if (FL2_isError(b) == ok) mcFail("FL2_estimateCStreamSize(%d): %zx", lvl, b);
        if (ok) { FL2_compressionParameters p = levelParams(lvl ? lvl : 6, 0); size_t d = p.dictionarySize << (dual != 0); if (b < a + d || b > a + d + slack(t)) mcFail("stream estimate %zu, context %zu, dictionary buffers %zu", b, a, d); }
    }
}
/* parameter combinations, with reduced minimum sizes; operations long enough to fill every buffer */
static void famParams() {
    Fam f("parameters");
    static const size_t dicts[] = {4096, 5000, 8192, 8193, 16384, 65536, 100000, 262144, 1 << 20};
    for (size_t d : dicts) for (int st = 0; st < 3; ++st) for (int chain : {4, 7, 12, 14}) for (unsigned t : {1u, 2u, 5u}) for (int mode = 0; mode < 3; ++mode) for (int resize : {2, 0, 1, 3, 4}) {
        if (resize != 2 && (st != 1 || chain != 7)) continue;
        if (!f.next("dictionary %zu, strategy %d, chain log %d, %u threads, %s, buffer resize %d", d, st, chain, t, mode == 0 ? "one-shot" : mode == 1 ? "stream" : "dual stream", resize)) continue;
        P p; p.dict = d; p.strategy = st; p.chain = chain; p.resize = resize;
        FL2_compressionParameters cp = levelParams(5, 0); cp.dictionarySize = d; cp.strategy = (FL2_strategy)st; cp.chainLog = chain;
        size_t n = d + d / 3; Bytes in = text(n, 3); Bytes out(FL2_compressBound(n));
        begin();
        FL2_CCtx* c = mode ? FL2_createCStreamMt(t, mode == 2) : FL2_createCCtxMt(t); apply(c, p);
        size_t eu = mode ? FL2_estimateCStreamSize_usingCStream(c) : FL2_estimateCCtxSize_usingCCtx(c);
        if (mode) {
            size_t e = FL2_initCStream(c, 0); if (e) mcFail("%s", errName(e));
            FL2_inBuffer ib = {in.data(), n, 0}; FL2_outBuffer ob = {out.data(), out.size(), 0};
            while (ib.pos < n) { e = FL2_compressStream(c, &ob, &ib); if (FL2_isError(e)) mcFail("%s", errName(e)); }
            while ((e = FL2_endStream(c, &ob)) != 0) if (FL2_isError(e)) mcFail("%s", errName(e));
        } else { size_t e = FL2_compressCCtx(c, out.data(), out.size(), in.data(), n, 0); if (FL2_isError(e)) mcFail("%s", errName(e)); }
        within("estimate by context (before)", eu, t);
        within("estimate by context (after)", mode ? FL2_estimateCStreamSize_usingCStream(c) : FL2_estimateCCtxSize_usingCCtx(c), t);
        if (resize == 2) within("estimate by parameters", mode ? FL2_estimateCStreamSize_byParams(&cp, t, mode == 2) : FL2_estimateCCtxSize_byParams(&cp, t), t);
        if (eu > used() + used() / 4 + slack(t) && mode) mcFail("estimate %zu, only %zu bytes are ever allocated", eu, used());
        /* a second operation with the same settings stays within it too */
        if (mode) { size_t e = FL2_initCStream(c, 0); if (e) mcFail("%s", errName(e)); within("estimate by context (second operation)", eu, t); }
        FL2_freeCCtx(c); if (mc_alloc.live != base0) mcFail("%zu bytes leaked", mc_alloc.live - base0);
        mcCount("operations"); mcNewState(mcMix(d, mcMix(st * 16 + chain, t * 8 + mode)) + resize);
    }
}
/* decoders: contexts and streams of every thread count, library-made streams at reduced sizes */
static void famDec() {
    Fam f("decoders");
    for (size_t d : {(size_t)4096, (size_t)6000, (size_t)65536, (size_t)1 << 20}) for (int rs : {1, 4}) for (unsigned t : {1u, 2u, 3u, 4u, 8u}) for (int api = 0; api < 3; ++api) for (int big = 0; big < 3; ++big) for (int xxh = 0; xxh < 2; ++xxh) {
        if (!f.next("dictionary %zu, reset interval %d, %u threads, %s, %s input, hash %d", d, rs, t, api == 0 ? "one-shot" : api == 1 ? "stream" : "stream in pieces", big == 2 ? "large" : big ? "medium" : "small", xxh)) continue;
        if (big == 2 && d > 100000 && api != 1) continue;
        size_t n = big == 0 ? 900 : big == 1 ? 3 * d : 24 * d; Bytes in = text(n, 9), comp(FL2_compressBound(n));
        FL2_CCtx* c = FL2_createCCtxMt(1); P p; p.dict = d; p.reset = rs; p.strategy = 0; p.xxh = xxh; apply(c, p);
        size_t cs = FL2_compressCCtx(c, comp.data(), comp.size(), in.data(), n, 0); if (FL2_isError(cs)) mcFail("%s", errName(cs)); FL2_freeCCtx(c);
        Bytes out(n + 1); size_t dict = FL2_getDictSizeFromProp(comp[0]); if (FL2_isError(dict)) mcFail("FL2_getDictSizeFromProp: %s", errName(dict));
        bool half = cs * 2 < n; begin();
        if (api == 0) {
            FL2_DCtx* x = FL2_createDCtxMt(t); size_t r = FL2_decompressDCtx(x, out.data(), n, comp.data(), cs); if (r != n) mcFail("%s", errName(r));
            within("FL2_estimateDCtxSize", FL2_estimateDCtxSize(t), t); FL2_freeDCtx(x);
        } else {
            FL2_DStream* x = FL2_createDStreamMt(t); FL2_initDStream(x); FL2_inBuffer ib = {comp.data(), 0, 0}; FL2_outBuffer ob = {out.data(), n, 0}; size_t r;
            do { ib.size = api == 1 ? cs : std::min(cs, ib.size + 777); r = FL2_decompressStream(x, &ob, &ib); if (FL2_isError(r)) mcFail("%s", errName(r)); } while (r);
            if (ob.pos != n || memcmp(out.data(), in.data(), n)) mcFail("wrong data");
            if (half) { size_t est = FL2_estimateDStreamSize(dict, t); within(t == 1 ? "FL2_estimateDStreamSize" : "FL2_estimateDStreamSize (MT)", est, t + (t > 1 ? 8 : 0)); } /* plus the single-thread decoder every stream object contains */
            FL2_freeDStream(x);
        }
        if (mc_alloc.live != base0) mcFail("%zu bytes leaked", mc_alloc.live - base0);
        mcCount("decompressions"); mcNewState(mcMix(mcMix(d, rs * 64 + t), api * 8 + big * 2 + xxh) + 77);
    }
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
    Bytes x = text(sizeof srcBuf, 1); memcpy(srcBuf, x.data(), x.size());
    if (mcJob == "levels") famLevels(); else { famParams(); famDec(); }
    mcCount("transitions", nOps);
    return mcFinish();
}
