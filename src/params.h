/* Compression parameter sets and input generators shared by the harnesses. */
#pragma once
#include "lib.h"
struct P {
    int level = 0, high = -1; int strategy = -1, dac = -1, depth = -1, cycles = -1, chain = -1, fast = -1, lc = -1, lp = -1, pb = -1, overlap = -1, reset = -1, resize = -1, xxh = -1, omit = 0;
    size_t dict = 0; unsigned threads = 1; bool stream = false;
    std::string str() const {
        std::string s; char t[48];
        auto a = [&](const char* n, long long v, long long d) { if (v != d) { snprintf(t, sizeof t, "%s=%lld ", n, v); s += t; } };
        a("level", level, 0); a("high", high, -1); a("strategy", strategy, -1); a("dac", dac, -1); a("depth", depth, -1); a("cycles", cycles, -1); a("chain", chain, -1);
        a("fast", fast, -1); a("lc", lc, -1); a("lp", lp, -1); a("pb", pb, -1); a("overlap", overlap, -1); a("reset", reset, -1); a("resize", resize, -1); a("xxh", xxh, -1); a("omit", omit, 0);
        a("dict", (long long)dict, 0); a("threads", threads, 1); if (stream) s += "as-stream "; return s;
    }
};
static void set1(FL2_CCtx* c, FL2_cParameter p, long long v, bool lclp = false) {
    size_t r = FL2_CCtx_setParameter(c, p, (size_t)v);
    if (FL2_isError(r) && !lclp) mcFail("parameter %d = %lld refused: %s", (int)p, v, errName(r));
}
static void apply(FL2_CCtx* c, const P& p) {
    if (p.high >= 0) set1(c, FL2_p_highCompression, p.high);
    if (p.level) set1(c, FL2_p_compressionLevel, p.level);
    if (p.dict) set1(c, FL2_p_dictionarySize, p.dict);
    if (p.strategy >= 0) set1(c, FL2_p_strategy, p.strategy);
    if (p.dac >= 0) set1(c, FL2_p_divideAndConquer, p.dac);
    if (p.depth >= 0) set1(c, FL2_p_searchDepth, p.depth);
    if (p.cycles >= 0) set1(c, FL2_p_hybridCycles, p.cycles);
    if (p.chain >= 0) set1(c, FL2_p_hybridChainLog, p.chain);
    if (p.fast >= 0) set1(c, FL2_p_fastLength, p.fast);
    if (p.overlap >= 0) set1(c, FL2_p_overlapFraction, p.overlap);
    if (p.reset >= 0) set1(c, FL2_p_resetInterval, p.reset);
    if (p.resize >= 0) set1(c, FL2_p_bufferResize, p.resize);
    if (p.xxh >= 0) set1(c, FL2_p_doXXHash, p.xxh);
    if (p.omit) set1(c, FL2_p_omitProperties, 1);
    if (p.lc >= 0) set1(c, FL2_p_literalCtxBits, p.lc, true);
    if (p.lp >= 0) set1(c, FL2_p_literalPosBits, p.lp, true);
    if (p.pb >= 0) set1(c, FL2_p_posBits, p.pb);
}
static u32 lcg; static u8 rnd() { lcg = lcg * 1664525 + 1013904223; return (u8)(lcg >> 24); }
static Bytes noise(size_t n, u32 seed = 1) { lcg = seed * 2654435761u + 12345; Bytes b(n); for (auto& v : b) v = rnd(); return b; }
static Bytes text(size_t n, u32 seed = 1) { static const char* w[] = {"the ", "match ", "table ", "of ", "radix ", "a ", "finder ", "encoder, ", "block ", "is ", "\n", "dictionary ", "length ", "and ", "0x", "12"}; Bytes b; lcg = seed * 77 + 5; while (b.size() < n) { const char* s = w[rnd() & 15]; while (*s && b.size() < n) b.push_back((u8)*s++); } return b; }
static void cat(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
