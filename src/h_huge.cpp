/* More than 4 GiB: every count, offset and distance which must not be kept in 32 bits.
 * One case is one whole operation on a stream of 2^32 + about 8 MiB bytes (reference-encoded chunks of
 * 2 MiB for decompression, a file mapped over and over for compression); the data are compared
 * piece by piece, and progress and sizes are read at every call. */
#include "params.h"
static void alive() { if (mcS) ++mcS->seq; }
static const size_t CH = 2u << 20, NV = 16, NCH = 2048 + 3;      /* chunk size, variants, chunks */
static std::vector<Bytes> VD, VC;     /* data and encoded chunk of each variant */
static unsigned variant(u64 k) { return (unsigned)((k * k + k / 7 + (k >> 9)) % NV); }
static u8 at(u64 pos) { return VD[variant(pos / CH)][pos % CH]; }
static void buildChunks() {
    for (unsigned v = 0; v < NV; ++v) {
        RefEnc e; e.lc = 0; e.lp = 0; e.pb = 2; e.begin(2); Bytes n = noise(200000, 7 + v); size_t k = 0;
        unsigned period = 3 + v * 5; for (unsigned i = 0; i < period; ++i) e.literal(n[k++]);
        e.match(period, 100);
        while (e.data.size() < CH - 700) { e.repMatch(0, 273 - (e.data.size() >> 12) % 30); if (e.data.size() % 50 == v) { e.literal(n[k++]); e.repMatch(0, 20); } }
        while (e.data.size() < CH - 20) e.repMatch(0, 15);
        while (e.data.size() < CH) e.literal(n[k++]);
        e.end(); VD.push_back(e.data); VC.push_back(e.out);
    }
}
struct Xxh {      /* pieces of a multiple of 16 bytes, then a tail */
    u32 v[4]; u64 total = 0; static constexpr u32 P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
    static u32 rot(u32 x, int k) { return x << k | x >> (32 - k); } static u32 rd(const u8* q) { u32 x; memcpy(&x, q, 4); return x; }
    Xxh() { v[0] = P1 + P2; v[1] = P2; v[2] = 0; v[3] = 0u - P1; }
    void add(const u8* p, size_t n) { total += n; u32 a = v[0], b = v[1], c = v[2], d = v[3]; for (size_t i = 0; i + 16 <= n; i += 16, p += 16) { a = rot(a + rd(p) * P2, 13) * P1; b = rot(b + rd(p + 4) * P2, 13) * P1; c = rot(c + rd(p + 8) * P2, 13) * P1; d = rot(d + rd(p + 12) * P2, 13) * P1; } v[0] = a; v[1] = b; v[2] = c; v[3] = d; }
    u32 end(const u8* p, size_t n) { u32 h = rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18); h += (u32)(total + n); for (; n >= 4; n -= 4, p += 4) h = rot(h + rd(p) * P3, 17) * P4; for (; n; --n, ++p) h = rot(h + *p * P5, 11) * P1; h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; return h ^ h >> 16; }
};
struct Huge { Bytes s; u64 total; Bytes tail; };
/* resetEvery: chunks between dictionary resets (0: only the first); dists: far matches in a last chunk; hash: 0 none, 1 right, 2 one bit wrong */
static Huge build(u8 prop, u64 resetEvery, const std::vector<u64>& dists, int hash = 0) {
    Huge h; h.s.push_back((u8)(prop | (hash ? 0x80 : 0))); Xxh x;
    for (u64 k = 0; k < NCH; ++k) { const Bytes& c = VC[variant(k)]; bool r = resetEvery ? k % resetEvery == 0 : k == 0; size_t o = h.s.size(); cat(h.s, c); h.s[o] = (u8)((c[0] & 0x1F) | 0x80 | (r ? 3 : 2) << 5); if (hash) { x.add(VD[variant(k)].data(), CH); alive(); } }
    RefEnc e; e.lc = 0; e.lp = 0; e.pb = 2; e.far = at; e.farBase = (u64)NCH * CH; e.procd = e.farBase; e.begin(2);
    e.literal('x'); unsigned i = 0; for (u64 d : dists) { e.match(d, 50 + i % 200); if (i & 1) e.literal((u8)i); if (i % 3 == 2) { e.repMatch(2, 9); e.repMatch(1, 3); } ++i; } for (int k = 0; k < 37; ++k) e.literal((u8)k);
    e.end(); cat(h.s, e.out); h.s.push_back(0); h.tail = e.data; h.total = e.farBase + e.data.size();
    if (hash) { u32 v = x.end(h.tail.data(), 0); size_t body = h.tail.size() & ~(size_t)15; x.add(h.tail.data(), body); v = x.end(h.tail.data() + body, h.tail.size() - body); if (hash == 2) v ^= 1u << 20; for (int b = 24; b >= 0; b -= 8) h.s.push_back((u8)(v >> b)); }
    return h;
}
static void same(const Huge& h, u64 pos, const u8* p, size_t n) {
    while (n) {
        const u8* q; size_t m;
        if (pos < (u64)NCH * CH) { q = VD[variant(pos / CH)].data() + pos % CH; m = std::min<size_t>(n, CH - pos % CH); }
        else { size_t o = (size_t)(pos - (u64)NCH * CH); if (o >= h.tail.size()) mcFail("more than %llu bytes", (unsigned long long)h.total); q = h.tail.data() + o; m = std::min<size_t>(n, h.tail.size() - o); }
        if (memcmp(p, q, m)) { size_t k = 0; while (p[k] == q[k]) ++k; mcFail("data differ at %llu", (unsigned long long)(pos + k)); }
        pos += m; p += m; n -= m; alive();
    }
}
static u8* pages(size_t n) { u8* p = (u8*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; }
static std::vector<u64> DISTS = {1, 5, 4096, 1ull << 24, (1ull << 28) + 1, (1ull << 30) - 1, 1ull << 30, (1ull << 30) + 77, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, 3ull << 30, 0xC0000001ull, 0xFFFFF000ull, 0xFFFFFFFEull, 0xFFFFFFFFull};
static void oneShotDec(const Huge& h, unsigned threads) {
    size_t cap = (size_t)h.total, map = (cap + 4095) & ~(size_t)4095; u8* m = pages(map + 4096); mprotect(m + map, 4096, PROT_NONE); u8* d = m + (map - cap);
    FL2_DCtx* c = FL2_createDCtxMt(threads); unsigned long long f = FL2_findDecompressedSize(h.s.data(), h.s.size()); if (f != h.total) mcFail("FL2_findDecompressedSize gives %llu, the content is %llu bytes", f, (unsigned long long)h.total);
    size_t r = FL2_decompressDCtx(c, d, cap, h.s.data(), h.s.size()); alive(); if (r != cap) mcFail("decompression of %zu bytes returned %zu (%s)", cap, r, errName(r));
    same(h, 0, d, cap); FL2_freeDCtx(c); munmap(m, map + 4096); mcMax("bytes", cap);
}
static void streamDec(const Huge& h, unsigned threads, size_t inStep, size_t outStep, bool progress, bool wantErr) {
    u8* o = pages(outStep); FL2_DStream* s = FL2_createDStreamMt(threads); size_t e = FL2_initDStream(s); if (FL2_isError(e)) mcFail("init: %s", errName(e));
    u64 got = 0; size_t fed = 0; unsigned long long last = 0; bool done = false;
    while (!done) {
        size_t n = std::min(inStep, h.s.size() - fed); FL2_inBuffer in = {h.s.data() + fed, n, 0};
        do {
            FL2_outBuffer ob = {o, outStep, 0}; size_t ip = in.pos; size_t r = FL2_decompressStream(s, &ob, &in); alive(); mcCount("transitions");
            same(h, got, o, ob.pos); got += ob.pos;
            if (FL2_isError(r)) { if (wantErr) { mcCount("rejected"); goto out; } mcFail("after %llu bytes: %s", (unsigned long long)got, errName(r)); }
            if (progress) { unsigned long long p = FL2_getDStreamProgress(s); if (p < last || p > h.total || (threads == 1 && p < got)) mcFail("progress %llu after %llu, %llu bytes delivered", p, last, (unsigned long long)got); last = p; }
            if (!r) { done = true; if (wantErr) mcFail("a stream with a wrong hash was accepted"); break; }
            if (!ob.pos && ip == in.pos && fed + in.pos == h.s.size()) mcFail("no progress after %llu bytes", (unsigned long long)got);
            if (ob.pos < outStep && in.pos == in.size) break;
        } while (true);
        fed += in.pos;
    }
    if (got != h.total) mcFail("%llu of %llu bytes", (unsigned long long)got, (unsigned long long)h.total);
    if (progress && FL2_getDStreamProgress(s) != h.total) mcFail("progress at the end %llu of %llu", FL2_getDStreamProgress(s), (unsigned long long)h.total);
    mcMax("bytes", got);
out:
    FL2_freeDStream(s); munmap(o, outStep);
}
/* ---- compression ---- */
static const size_t TILE = 257 * 4096; static const u64 CTOTAL = (1ull << 32) + 3 * TILE + 12345;
static u8* tile; static u8* mapTiles() {
    int fd = memfd_create("tile", 0); if (fd < 0 || ftruncate(fd, TILE)) { perror("memfd"); _exit(3); }
    tile = (u8*)mmap(nullptr, TILE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    Bytes n = noise(TILE, 3); size_t i = 0, k = 0; while (i < TILE) { size_t per = k % 16 ? 1 : 1 + k % 13, run = k % 16 ? 20000 + k * 37 % 9000 : 900; for (size_t j = 0; j < run && i < TILE; ++j, ++i) tile[i] = j < per ? n[i] : tile[i - per]; ++k; }
    size_t cnt = (size_t)(CTOTAL / TILE + 1); u8* m = (u8*)mmap(nullptr, cnt * TILE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t q = 0; q < cnt; ++q) if (mmap(m + q * TILE, TILE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(3); }
    close(fd); return m;
}
/* chunk headers by hand: total, and the input without dictionary reset; returns the stream's length */
static size_t headers(const u8* p, size_t n, u64& total, u64& longest) {
    size_t o = 1; u64 since = 0; total = longest = 0;
    while (o < n && p[o]) {
        u8 c = p[o]; u64 u; size_t len; bool reset = c == 1 || c >= 0xE0; if (n - o < 6) mcFail("chunk header cut off at %zu", o);
        if (c & 0x80) { u = ((u64)(c & 0x1F) << 16) + (p[o + 1] << 8) + p[o + 2] + 1; len = (size_t)(p[o + 3] << 8) + p[o + 4] + 1 + (c >= 0xC0 ? 6 : 5); } else { if (c > 2) mcFail("control byte %d", c); u = (u64)(p[o + 1] << 8) + p[o + 2] + 1; len = (size_t)u + 3; }
        if (reset) { longest = std::max(longest, since); since = 0; } since += u; total += u; o += len;
    }
    longest = std::max(longest, since); if (o >= n) mcFail("no end marker"); return o + 1;
}
static void checkCompressed(const u8* c, size_t n, const u8* src, size_t dict, int reset, bool hash, bool data) {
    u64 total, longest; size_t e = headers(c, n, total, longest); if (total != CTOTAL) mcFail("the chunks make %llu of %llu bytes", (unsigned long long)total, (unsigned long long)CTOTAL);
    if (e + (hash ? 4 : 0) != n) mcFail("the stream ends at %zu of %zu bytes", e, n); if (reset && longest > (u64)dict * reset) mcFail("%llu bytes without a dictionary reset", (unsigned long long)longest);
    if (!data) return;
    const size_t S = 4u << 20; u8* o = pages(S); FL2_DStream* s = FL2_createDStream(); FL2_initDStream(s); FL2_inBuffer in = {c, n, 0}; u64 got = 0;
    for (;;) { FL2_outBuffer ob = {o, S, 0}; size_t r = FL2_decompressStream(s, &ob, &in); alive(); if (FL2_isError(r)) mcFail("decompressing: %s at %llu", errName(r), (unsigned long long)got); if (got + ob.pos > CTOTAL || memcmp(o, src + got, ob.pos)) mcFail("decompressed data differ after %llu bytes", (unsigned long long)got); got += ob.pos; if (!r) break; if (!ob.pos && in.pos == in.size) mcFail("ends after %llu bytes", (unsigned long long)got); }
    if (got != CTOTAL) mcFail("%llu of %llu bytes", (unsigned long long)got, (unsigned long long)CTOTAL); FL2_freeDStream(s); munmap(o, S);
}
static P cp(size_t dict, int reset) { P p; p.dict = dict; p.strategy = 0; p.depth = 8; p.dac = 1; p.fast = 32; p.overlap = 1; p.reset = reset; return p; }
static void oneShotComp(const u8* src, const P& p, bool data) {
    size_t bound = FL2_compressBound((size_t)CTOTAL); if (bound < CTOTAL) mcFail("FL2_compressBound(%llu) = %zu", (unsigned long long)CTOTAL, bound); u8* d = pages(bound);
    FL2_CCtx* c = FL2_createCCtxMt(p.threads); apply(c, p); size_t r = FL2_compressCCtx(c, d, bound, src, (size_t)CTOTAL, 0); alive(); if (FL2_isError(r)) mcFail("%s", errName(r)); mcMax("compressed", r);
    checkCompressed(d, r, src, p.dict, p.reset, p.xxh != 0, data); FL2_freeCCtx(c); munmap(d, bound);
}
static void streamComp(const u8* src, const P& p, int dual, bool progress) {
    const size_t cap = 1u << 30; u8* d = pages(cap); FL2_outBuffer o = {d, cap, 0}; FL2_CStream* s = FL2_createCStreamMt(p.threads, dual); apply(s, p); size_t e = FL2_initCStream(s, 0); if (e) mcFail("init: %s", errName(e));
    u64 fed = 0; unsigned long long last = 0, lastOut = 0;
    auto look = [&]() { alive(); mcCount("transitions"); if (!progress) return; unsigned long long os = 0, pr = FL2_getCStreamProgress(s, &os); size_t rem = FL2_remainingOutputSize(s); if (pr < last || pr > fed || fed - pr > 3 * p.dict) mcFail("progress %llu after %llu, %llu bytes supplied", pr, last, (unsigned long long)fed); if (os < lastOut || (!dual && os != o.pos + rem)) mcFail("output size %llu (before: %llu), delivered %zu, remaining %zu", os, lastOut, o.pos, rem); last = pr; lastOut = os; };
    while (fed < CTOTAL) { size_t n = (size_t)std::min<u64>(3u << 20, CTOTAL - fed); FL2_inBuffer in = {src + fed, n, 0}; u64 base = fed; while (in.pos < in.size) { size_t r = FL2_compressStream(s, &o, &in); if (FL2_isError(r)) mcFail("after %llu bytes: %s", (unsigned long long)fed, errName(r)); fed = base + in.pos; look(); } }
    for (;;) { size_t r = FL2_endStream(s, &o); if (FL2_isError(r)) mcFail("end: %s", errName(r)); if (!r) break; }
    if (progress && CTOTAL - FL2_getCStreamProgress(s, nullptr) > 1) mcFail("progress at the end %llu of %llu", FL2_getCStreamProgress(s, nullptr), (unsigned long long)CTOTAL);
    mcMax("compressed", o.pos); checkCompressed(d, o.pos, src, p.dict, p.reset, p.xxh != 0, !progress); FL2_freeCCtx(s); munmap(d, cap);
}
int main(int argc, char** argv) {
    mcInit(argc, argv); mcPatience = 4; Fam f("more than 4 GiB"); bool built = false; const u8* src = nullptr; const size_t M = 1 << 20;
    auto chunks = [&]() { if (!built) buildChunks(); built = true; alive(); }; auto input = [&]() { if (!src) src = mapTiles(); alive(); return src; };
    if (mcProp == "C03") {
        if (f.next("one-shot, 1 thread, matches at distances up to 2^32-1")) { chunks(); oneShotDec(build(40, 0, DISTS), 1); }
        if (f.next("one-shot, 3 threads, a dictionary reset every 128 MiB")) { chunks(); oneShotDec(build(24, 64, {1, 70000, 5 * M}), 3); }
        if (f.next("streaming with a dictionary of 3 GiB, matches at distances up to 3 GiB")) { chunks(); std::vector<u64> d; for (u64 v : DISTS) if (v <= 3ull << 30) d.push_back(v); streamDec(build(39, 0, d), 1, 100000, 4 * M + 5, false, false); }
    } else if (mcProp == "C05") {
        if (f.next("streaming, 1 thread, output in steps of 1000003")) { chunks(); streamDec(build(20, 0, {1, 70000, 2 * M}), 1, 777, 1000003, false, false); }
        if (f.next("streaming, 2 threads, a dictionary reset every 4 MiB")) { chunks(); streamDec(build(20, 2, {1, 70000, 1 * M}), 2, 5000, 3 * M + 1, false, false); }
    } else if (mcProp == "C14") { for (int w = 1; w < 3; ++w) for (unsigned t : {1u, 2u}) if (f.next("streaming, %s hash, %u threads", w == 1 ? "right" : "wrong", t)) { chunks(); streamDec(build(20, t == 1 ? 0 : 2, {1, 70000}, w), t, 9999, 2 * M, false, w == 2); } }
    else if (mcProp == "C17") { for (u64 every : {0, 5}) for (int hash : {0, 1}) if (f.next("%llu chunks, dictionary reset every %llu, hash %d", (unsigned long long)NCH + 1, (unsigned long long)every, hash)) { chunks(); Huge h = build(30, every, {1, 1ull << 31}, hash); unsigned long long r = FL2_findDecompressedSize(h.s.data(), h.s.size()); if (r != h.total) mcFail("FL2_findDecompressedSize gives %llu, the content is %llu bytes", r, (unsigned long long)h.total); mcMax("bytes", r); } }
    else if (mcProp == "C01") { for (unsigned t : {1u, 3u}) if (f.next("one-shot compression, %u threads", t)) { P p = cp(t == 1 ? 1 * M : 16 * M, t == 1 ? 16 : 4); p.threads = t; oneShotComp(input(), p, true); } }
    else if (mcProp == "C02") { if (f.next("one-shot compression, 2 threads, reset interval 16")) { P p = cp(4 * M, 16); p.threads = 2; p.xxh = 0; oneShotComp(input(), p, false); } }
    else if (mcProp == "C06") { for (int dual = 0; dual < 2; ++dual) if (f.next("streaming compression, dual %d", dual)) { P p = cp(dual ? 2 * M : 1 * M, dual ? 0 : 16); p.threads = 1 + dual; streamComp(input(), p, dual, false); } }
    else if (mcProp == "C19") {
        if (f.next("streaming compression, progress after every call")) { P p = cp(1 * M, 4); p.xxh = 0; streamComp(input(), p, 0, true); }
        for (unsigned t : {1u, 2u}) if (f.next("streaming decompression, %u threads, progress after every call", t)) { chunks(); streamDec(build(20, t == 1 ? 0 : 2, {1, 70000}), t, 5000, 3 * M + 1, true, false); }
    }
    return mcFinish();
}
