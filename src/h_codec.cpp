/* One-shot compression: C01 (round trip), C02 (well-formed output), C08 (capacities and bound),
 * C14 (hash written), C20 (no property byte).  Inputs, parameters, thread counts and capacities
 * of bounded spaces are enumerated; a reference decoder and the library's decoder check each result. */
#include "lib.h"
#include "streams.h"
#include "params.h"
#include <memory>

static GuardBuf *SB, *OB, *DB;
static uint64_t nOps; static bool SMALL = false, WANT_BOUND = true;
static FL2_DCtx* DC;

struct Ctx {
    FL2_CCtx* c; P p;
    explicit Ctx(const P& q) : p(q) { c = q.stream ? FL2_createCStreamMt(q.threads, 0) : FL2_createCCtxMt(q.threads); if (!c) mcFail("context not created"); apply(c, q); }
    ~Ctx() { FL2_freeCCtx(c); }
};
static std::string what(const P& p, const Bytes& in) { return p.str() + "input(" + std::to_string(in.size()) + ") " + hex(in, 40); }

/* compress into cap bytes */
static size_t comp(Ctx& C, const u8* src, size_t n, u8* dst, size_t cap) {
    ++nOps;
    if (!C.p.stream) return FL2_compressCCtx(C.c, dst, cap, src, n, 0);
    size_t e = FL2_initCStream(C.c, 0); if (FL2_isError(e)) return e;
    FL2_inBuffer in = {src, n, 0}; FL2_outBuffer out = {dst, cap, 0};
    for (unsigned k = 0; in.pos < in.size; ++k) { e = FL2_compressStream(C.c, &out, &in); if (FL2_isError(e)) return e; if (k > 100 + n / 256) mcFail("compressStream does not finish"); }
    for (unsigned k = 0;; ++k) { e = FL2_endStream(C.c, &out); if (FL2_isError(e)) return e; if (!e) break; if (k > 100 + n / 256) mcFail("endStream does not finish"); }
    return out.pos;
}
static void verify(Ctx& C, const Bytes& in, const u8* out, size_t c) {
    const P& p = C.p; size_t n = in.size(); bool hash = p.xxh != 0 && !p.omit;
    size_t dictSize = FL2_CCtx_getParameter(C.c, FL2_p_dictionarySize);
    RefInfo I; u8 prop;
    if (p.omit) {
        prop = FL2_getCCtxDictProp(C.c);
        if (prop > 40) mcFail("FL2_getCCtxDictProp returned %u; %s", prop, what(p, in).c_str());
        I = refDecode(out, c, refDictSize(prop));
        if (I.st != RefInfo::OK) mcFail("raw stream is not valid LZMA2: %s; %s -> %s", I.why, what(p, in).c_str(), hex(Bytes(out, out + c)).c_str());
        if (I.consumed != c) mcFail("raw stream of %zu bytes: the end marker is at %zu; %s", c, I.consumed - 1, what(p, in).c_str());
    } else {
        RefStream R = refStream(out, c); prop = R.prop;
        if (R.info.st != RefInfo::OK) mcFail("output is not a valid stream: %s after %zu bytes; %s -> %s", R.info.why, R.info.out.size(), what(p, in).c_str(), hex(Bytes(out, out + c)).c_str());
        if (R.total != c) mcFail("stream ends at %zu of %zu bytes; %s", R.total, c, what(p, in).c_str());
        if (R.hashPresent != hash) mcFail("hash %s; %s", R.hashPresent ? "present" : "missing", what(p, in).c_str());
        if (prop & 0x40) mcFail("property byte %02x; %s", prop, what(p, in).c_str());
        I = std::move(R.info);
    }
    if (I.out != in) { size_t k = 0; while (k < n && k < I.out.size() && I.out[k] == in[k]) ++k; mcFail("stream decodes to other data (%zu bytes, first difference at %zu); %s", I.out.size(), k, what(p, in).c_str()); }
    if (mcProp == "C02") {
        if (n && (I.dictResets.empty() || I.dictResets[0] != 0)) mcFail("first chunk does not reset the dictionary; %s", what(p, in).c_str());
        size_t reset = FL2_CCtx_getParameter(C.c, FL2_p_resetInterval);
        if (reset && n) { size_t last = 0; I.dictResets.push_back(n); for (size_t r : I.dictResets) { if (r - last > dictSize * reset) mcFail("%zu bytes without dictionary reset, interval %zu x %zu; %s", r - last, dictSize, reset, what(p, in).c_str()); last = r; } }
    }
    mcMax("largest match distance", I.maxDist); mcMax("chunks in a stream", I.chunks);
    mcNewState(mcHashBytes(out, c, n * 31 + 7));
    if (mcProp == "C02") return;
    u8* d = DB->get(n);
    size_t r;
    if (p.omit) { r = FL2_initDCtx(DC, prop); if (FL2_isError(r)) mcFail("FL2_initDCtx(%u): %s", prop, errName(r)); }
    else { unsigned long long fs = FL2_findDecompressedSize(out, c); if (fs != n) mcFail("FL2_findDecompressedSize: %llu, content %zu; %s", fs, n, what(p, in).c_str()); }
    r = FL2_decompressDCtx(DC, d, n, out, c);
    DB->check("decompression");
    if (FL2_isError(r)) mcFail("decompression: %s; %s", errName(r), what(p, in).c_str());
    if (r != n || (n && memcmp(d, in.data(), n))) mcFail("decompression returned %zu of %zu bytes or other data; %s", r, n, what(p, in).c_str());
}
static size_t one(Ctx& C, const Bytes& in) {
    size_t n = in.size(), cap = FL2_compressBound(n); if (SMALL) cap = cap * 2 + 4096;   /* the bound assumes the unmodified minimum slice */
    u8* s = SB->put(in.data(), n); u8* o = OB->get(cap, 0xEE);
    size_t c = comp(C, s, n, o, cap);
    OB->check("compression"); SB->check("source of compression");
    if (FL2_isError(c)) mcFail("compression: %s with capacity %zu; %s", errName(c), cap, what(C.p, in).c_str());
    if (n && memcmp(s, in.data(), n)) mcFail("compression modified its source; %s", what(C.p, in).c_str());
    if (c > cap) mcFail("compression returned %zu with capacity %zu", c, cap);
    verify(C, in, o, c);
    return c;
}
/* ---- input generators ---- */
static std::vector<P> modes(bool threadsToo = false) {
    std::vector<P> v; for (int s = 0; s < 3; ++s) for (int d = 0; d < 2; ++d) { P p; p.strategy = s; p.dac = d; if (SMALL) p.dict = 4096; v.push_back(p); } return v;
}
static std::vector<P> modesSt() { auto v = modes(); for (int s = 0; s < 3; ++s) for (int d = 0; d < 2; ++d) { P p; p.strategy = s; p.dac = d; p.stream = true; p.dict = SMALL ? 16384 : (size_t)1 << 27; v.push_back(p); } return v; }

/* ---- families ---- */
/* all strings over k letters */
static void famStrings(const char* name, unsigned k, unsigned maxLen, const u8* letters, const std::vector<P>& ps) {
    Fam f(name);
    for (auto& p : ps) for (unsigned len = 0; len <= maxLen; ++len) {
        u64 total = 1; for (unsigned i = 0; i < len; ++i) total *= k;
        for (u64 b = 0; b < total; b += 512) {
            if (!f.mine()) continue;
            if (!f.next("%sall strings over %u letters, length %u, numbers %llu..%llu", p.str().c_str(), k, len, (unsigned long long)b, (unsigned long long)std::min(total, b + 512) - 1)) continue;
            Ctx C(p); Bytes in(len);
            for (u64 x = b; x < total && x < b + 512; ++x) { u64 y = x; for (unsigned i = 0; i < len; ++i) { in[i] = letters[y % k]; y /= k; } one(C, in); }
        }
    }
}
/* runs: x^a y x^b */
static void famRuns(const std::vector<P>& ps) {
    Fam f("runs");
    std::vector<size_t> as; for (size_t i = 0; i <= 620; ++i) as.push_back(i);
    for (auto& p : ps) for (size_t a : as) {
        if (!f.mine()) continue;
        if (!f.next("%srun of %zu, other byte, runs of 0..", p.str().c_str(), a)) continue;
        Ctx C(p);
        for (size_t b : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)62, (size_t)63, (size_t)64, (size_t)254, (size_t)255, (size_t)272, (size_t)273, (size_t)274, (size_t)546}) {
            Bytes in(a, 'x'); in.push_back('y'); in.insert(in.end(), b, 'x'); one(C, in);
        }
        one(C, Bytes(a, 'x'));
    }
}
/* periodic strings */
static void famPeriod(const std::vector<P>& ps) {
    Fam f("period");
    for (auto& p : ps) for (size_t per = 2; per <= 40; ++per) for (int brk = 0; brk < 3; ++brk) {
        if (!f.mine()) continue;
        if (!f.next("%speriod %zu, ending %d, lengths 1..160 and around limits", p.str().c_str(), per, brk)) continue;
        Ctx C(p);
        auto go = [&](size_t n) { Bytes in(n); for (size_t i = 0; i < n; ++i) in[i] = (u8)(i % per * 7 + (i % per > 20 ? 1 : 0)); if (brk == 1) in.push_back(200); if (brk == 2 && n > 8) in[n / 2] ^= 1; one(C, in); };
        for (size_t n = 1; n <= 160; ++n) go(n);
        for (size_t n : {(size_t)250, (size_t)253, (size_t)254, (size_t)255, (size_t)256, (size_t)257, (size_t)270, (size_t)273, (size_t)274, (size_t)275, (size_t)276, (size_t)330, (size_t)545, (size_t)547, (size_t)577, (size_t)578, (size_t)579, (size_t)1000, (size_t)4095}) go(n + per - 1);
    }
}
/* one repeat of every length at several distances */
static void famMatch(const std::vector<P>& ps) {
    Fam f("match");
    std::vector<size_t> lens; for (size_t l = 1; l <= 70; ++l) lens.push_back(l); for (size_t l : {126, 127, 128, 129, 190, 191, 192, 250, 251, 252, 253, 254, 255, 256, 257, 258, 270, 271, 272, 273, 274, 275, 276, 300, 544, 545, 546, 547, 548, 577, 578, 579}) lens.push_back(l);
    std::vector<size_t> gaps = {0, 1, 2, 3, 5, 8, 13, 60, 61, 62, 63, 64, 123, 124, 125, 126, 127, 128, 250, 500, 1000, 2000, 3000};
    for (auto& p : ps) for (size_t l : lens) {
        if (!f.mine()) continue;
        if (!f.next("%sone repeat of length %zu at %zu distances", p.str().c_str(), l, gaps.size())) continue;
        Ctx C(p); Bytes N = noise(4000, 9);
        for (size_t g : gaps) for (int tail = 0; tail < 3; ++tail) {
            Bytes in(N.begin(), N.begin() + l); in.insert(in.end(), N.begin() + 600, N.begin() + 600 + g); in.insert(in.end(), N.begin(), N.begin() + l);
            if (tail == 1) in.push_back(3); if (tail == 2) { in.push_back(9); in.insert(in.end(), N.begin() + l / 2, N.begin() + l); in.push_back(N[0]); }
            one(C, in);
        }
    }
}
/* repeat depth against the search depth: every depth value */
static void famDepth() {
    Fam f("depth");
    for (int s = 0; s < 3; ++s) for (int d = 0; d < 2; ++d) for (int depth = 6; depth <= 254; ++depth) {
        P p; p.strategy = s; p.dac = d; p.depth = depth; if (SMALL) p.dict = 4096;
        if (!f.mine()) continue;
        if (!f.next("%srepeats around the depth", p.str().c_str())) continue;
        Ctx C(p); Bytes N = noise(600, 4);
        for (int l = depth - 3; l <= depth + 3; ++l) { Bytes in; for (int k = 0; k < 5; ++k) { in.insert(in.end(), N.begin() + (k & 1), N.begin() + l); in.push_back((u8)(k * 50)); } one(C, in); }
        Bytes z(700, 5); one(C, z); Bytes q; for (int i = 0; i < 700; ++i) q.push_back("abcabd"[i % 6]); one(C, q);
    }
}
static std::vector<Bytes> sampleInputs(bool big) {
    std::vector<Bytes> v; v.push_back(text(2500)); Bytes m = noise(300); cat(m, text(900, 2)); cat(m, Bytes(700, 0)); cat(m, noise(300)); cat(m, Bytes(280, 7)); v.push_back(m);
    Bytes w; for (int i = 0; i < 600; ++i) { w.push_back((u8)(i >> 3)); w.push_back((u8)i); w.push_back(0); w.push_back((u8)(i * i >> 5)); } v.push_back(w);
    if (big) { Bytes b = text(70000, 3); cat(b, noise(66000)); cat(b, text(3000, 5)); v.push_back(b); }
    return v;
}
/* every value of every single parameter; all lc/lp/pb; levels */
static void famParams() {
    auto S = sampleInputs(!SMALL);
    Fam f("params");
    auto go = [&](P p) { if (SMALL && !p.dict) p.dict = 4096; if (!f.mine()) return; if (!f.next("%ssample inputs", p.str().c_str())) return; Ctx C(p); for (auto& s : S) one(C, s); };
    for (int s = 0; s < 3; ++s) {
        P b; b.strategy = s;
        for (int lc = 0; lc <= 4; ++lc) for (int lp = 0; lp <= 4; ++lp) for (int pb = 0; pb <= 4; ++pb) { P p = b; p.lc = lc; p.lp = lp; p.pb = pb; go(p); }
        for (int v = 6; v <= 273; ++v) { P p = b; p.fast = v; go(p); }
        for (int v = 6; v <= 254; v += 4) { P p = b; p.depth = v; go(p); }
        for (int v = 0; v <= 14; ++v) { P p = b; p.overlap = v; go(p); }
        for (int v = 0; v <= 16; ++v) { P p = b; p.reset = v; go(p); }
        for (int v = 0; v <= 4; ++v) for (int d = 0; d < 2; ++d) { P p = b; p.resize = v; p.dac = d; go(p); }
        for (int v = 0; v <= 1; ++v) { P p = b; p.xxh = v; go(p); p.omit = 1; go(p); }
        for (unsigned t = 1; t <= 4; ++t) for (int d = 0; d < 2; ++d) { P p = b; p.threads = t; p.dac = d; go(p); }
    }
    for (int ch = 4; ch <= 14; ++ch) for (int cy = 1; cy <= 64; cy = cy < 8 ? cy + 1 : cy * 2) { P p; p.strategy = 2; p.chain = ch; p.cycles = cy; go(p); p.fast = 273; p.depth = 254; go(p); }
    for (int h = 0; h < 2; ++h) for (int l = 1; l <= 10; ++l) for (unsigned t = 1; t <= 4; t += 3) { P p; p.high = h; p.level = l; p.threads = t; if (SMALL) { p.dict = 4096; } go(p); }
}
/* sequences of segments around the chunk limits (2^16 packed, 2^21 unpacked) */
static void famSegments() {
    struct Seg { const char* n; Bytes b; }; std::vector<Seg> segs;
    auto add = [&](const char* n, Bytes b) { segs.push_back({n, std::move(b)}); };
    add("noise 1", noise(1, 3)); add("noise 16383", noise(16383, 5)); add("noise 63488", noise(63488, 7)); add("noise 65536", noise(65536, 11)); add("noise 130000", noise(130000, 13));
    add("zeros 300", Bytes(300, 0)); add("text 60000", text(60000, 3)); add("text 250000", text(250000, 9));
    { Bytes b = noise(40000, 17); for (size_t i = 0; i < b.size(); ++i) b[i] &= 0x3F; add("6-bit noise 40000", b); }
    if (mcThorough) { Bytes b; for (int i = 0; i < 20000; ++i) { cat(b, noise(3, 7 + i % 250)); b.push_back((u8)(i & 3)); } add("mixed 80000", b); add("noise 65535", noise(65535, 19)); }
    Fam f("segments");
    int nd = (int)segs.size(), depth = mcThorough ? 3 : 2;
    for (int a = 0; a < nd; ++a) for (int b = -1; b < nd; ++b) for (int c = -1; c < (depth == 3 && b >= 0 ? nd : 0); ++c) for (int s = 0; s < 3; ++s) for (unsigned t : {1u, 3u}) {
        if (!f.mine()) continue;
        if (!f.next("strategy %d, %u threads: %s, %s, %s", s, t, segs[a].n, b < 0 ? "" : segs[b].n, c < 0 ? "" : segs[c].n)) continue;
        P p; p.strategy = s; p.threads = t; p.dict = 1 << 20; Ctx C(p); Bytes in = segs[a].b; if (b >= 0) cat(in, segs[b].b); if (c >= 0) cat(in, segs[c].b); one(C, in);
    }
    Fam g("unpacked limit");
    for (int s = 0; s < 3; ++s) for (int v = 0; v < 7; ++v) for (int d = -2; d <= 2; ++d) {
        if (!g.mine()) continue;
        if (!g.next("strategy %d, shape %d, 2^21 %+d", s, v, d)) continue;
        P p; p.strategy = s; p.dict = 1 << 23; p.dac = v & 1; Ctx C(p); size_t n = ((size_t)1 << 21) + d;
        Bytes in; if (v == 0) in.assign(n, 0); else if (v == 1) { in.assign(n - 273, 0); in.resize(n + 3000, 1); } else if (v == 2) { in = text(5000); in.resize(n + 578, 32); cat(in, text(300)); }
        else if (v == 3) { in.assign(n - 578, 0); cat(in, noise(2000)); } else if (v == 4) { in.assign(n, 0); for (size_t i = 1000; i < n; i += 1000) in[i] = 1; cat(in, text(100)); }
        else if (v == 5) { in.assign(n - 272, 9); cat(in, noise(1)); in.resize(n + 1000, 9); } else { in = noise(70000); in.resize(70000 + n, 0); in.push_back(1); }
        one(C, in);
    }
}
/* inputs of several dictionaries: overlap, resets, slices per thread (needs the small bounds) */
static Bytes blockInput(size_t n, int kind) {
    Bytes b;
    if (kind == 0) b = text(n, 21); else if (kind == 1) { b = noise(n, 3); for (size_t i = 700; i < n; ++i) if (i % 1400 < 500) b[i] = b[i - 700]; }
    else if (kind == 2) { b.assign(n, 0); for (size_t i = 0; i < n; i += 97) b[i] = (u8)(i / 97); } else { b = noise(n, 8); for (auto& v : b) v &= 0xF; }
    return b;
}
static void famBlocks() {
    Fam f("blocks");
    for (size_t dict : {(size_t)4096, (size_t)4097, (size_t)4104, (size_t)4112, (size_t)5000, (size_t)6144, (size_t)12288, (size_t)16384})
    for (int ov : {0, 1, 2, 7, 13, 14}) for (int rs : {0, 1, 2, 4}) for (int s = 0; s < 3; ++s) for (unsigned t : {1u, 2u, 4u}) {
        if (dict > 6144 && (ov == 7 || rs == 2)) continue;
        P p; p.dict = dict; p.overlap = ov; p.reset = rs; p.strategy = s; p.threads = t; p.dac = t == 2; p.pb = ov % 5; p.lp = rs / 2; p.lc = 4 - p.lp; if (p.lc == 4) p.lc = 3;
        size_t step = dict - dict / 16 * ov;
        for (int kind = 0; kind < 4; ++kind) for (int k = 1; k <= (mcThorough ? 6 : 3); ++k) {
            if (!f.mine()) continue;
            if (!f.next("%sinput kind %d, lengths around %d blocks", p.str().c_str(), kind, k)) continue;
            Ctx C(p); size_t full = dict + step * (k - 1);
            for (long d : {-1L, 0L, 1L, 17L, (long)step / 2}) { if ((long)full + d <= 0) continue; one(C, blockInput(full + d, kind)); }
        }
    }
}
/* every dictionary size residue and every offset of the input end */
static void famDictSize() {
    Fam f("dictionary size");
    size_t base = SMALL ? 4096 : (size_t)1 << 20;
    for (size_t add = 0; add <= (SMALL ? 66 : 34); ++add) for (int ov : {1, 2, 3, 5, 11, 14}) for (int pb : {0, 2, 4}) {
        if (!SMALL && (ov > 2 && ov != 14)) continue;
        P p; p.dict = base + add * (SMALL ? 1 : 16) + (SMALL ? 0 : add % 3); p.overlap = ov; p.pb = pb; p.lp = pb / 2; p.lc = 2; p.strategy = (int)(add % 3); p.reset = 4; 
        if (!f.mine()) continue;
        if (!f.next("%sinput of two and a half dictionaries", p.str().c_str())) continue;
        Ctx C(p); one(C, blockInput(p.dict * 5 / 2, 0)); one(C, blockInput(p.dict * 5 / 2, 2));
    }
}
/* the declared dictionary against the distances used, around every size the property byte can declare: noise, then its beginning again at the full distance */
static void famDictClass() {
    Fam f("dictionary class");
    for (int b = SMALL ? 12 : 20; b <= (SMALL ? 17 : 21) + mcThorough * 2; ++b) for (int h = 0; h < 2; ++h) for (int s = 0; s < 3; ++s) for (int mode = 0; mode < 4; ++mode) {
        size_t base = (size_t)(2 + h) << (b - 1);
        if (!SMALL && (s || mode == 1) && !mcThorough) continue;
        if (!f.mine()) continue;
        static const char* mn[] = {"dictionary reduced to the input", "dictionary of that size, longer input", "stream, dictionary of that size", "dictionary of that size, 2 threads"};
        if (!f.next("%s, strategy %d, sizes around %zu", mn[mode], s, base)) continue;
        std::vector<size_t> ex = {0}; for (size_t e : {(size_t)1, (size_t)7, (size_t)16, base >> 12, base >> 10, base >> 8, base >> 6}) if (e && std::find(ex.begin(), ex.end(), e) == ex.end()) ex.push_back(e);
        for (size_t e : ex) for (int neg = 0; neg < (e < 20 && e ? 2 : 1); ++neg) {
            size_t n = neg ? base - e : base + e; if (n < (SMALL ? 4096 : (size_t)1 << 20)) continue;
            P p; p.strategy = s; p.dict = mode ? n : (size_t)1 << (SMALL ? 22 : 24); p.stream = mode == 2; p.threads = mode == 3 ? 2 : 1; p.overlap = 2; Ctx C(p);
            for (size_t m : {(size_t)3, e / 2}) { if (m < 3 || m > n / 2) continue; Bytes in = noise(n, (u32)(b + e)); for (auto& v : in) v &= 0x3F; std::copy(in.begin(), in.begin() + m, in.end() - m); if (mode == 1 || mode == 2) { Bytes z = noise(n / 3, 77); in.insert(in.end(), z.begin(), z.end()); } one(C, in); }
        }
    }
}
/* lengths 0.. : every length with slices for every thread count (small bounds) */
static void famLengths() {
    Fam f("lengths");
    for (unsigned t : {1u, 2u, 3u, 4u, 6u}) for (int s = 0; s < 3; ++s) for (int d = 0; d < 2; ++d) for (int kind = 0; kind < 4; ++kind) for (size_t b = 0; b < 4096 + 64; b += 64) {
        P p; p.dict = 4096; p.threads = t; p.strategy = s; p.dac = d;
        if (!f.mine()) continue;
        if (!f.next("%sinput kind %d, every length %zu..%zu", p.str().c_str(), kind, b, b + 63)) continue;
        Ctx C(p); Bytes big = blockInput(b + 64, kind);
        for (size_t n = b; n < b + 64; n += mcThorough || b < 600 ? 1 : 5) one(C, Bytes(big.begin(), big.begin() + n));
    }
}
/* many equal prefixes: lists longer than the match buffer, repeat handling */
static void famLists() {
    Fam f("lists");
    for (int s : {0, 2}) for (int d = 0; d < 2; ++d) for (int rz : {0, 2, 4}) for (unsigned t : {1u, 3u}) for (int str = 0; str < 2; ++str) for (size_t per : {2, 3, 4, 5, 6, 7, 8, 11, 16, 23, 24, 25, 31, 48}) for (int kind = 0; kind < 4; ++kind) {
        P p; p.dict = SMALL ? (str ? 16384 : 8192) : 1 << 20; p.strategy = s; p.dac = d; p.resize = rz; p.threads = t; p.stream = str; p.depth = per == 6 ? 254 : 42;
        if (!f.mine()) continue;
        if (!f.next("%slists: period %zu, kind %d", p.str().c_str(), (size_t)per, kind)) continue;
        Ctx C(p);
        for (size_t n : {(size_t)255 * per, (size_t)256 * per + 3, (size_t)257 * per + 1, (size_t)512 * per - 1, (size_t)600 * per}) {
            if (n > 15000 && SMALL) continue;
            Bytes in(n); lcg = 99; for (size_t i = 0; i < n; ++i) { size_t k = i % per; in[i] = kind == 0 ? (u8)(k * 3) : kind == 1 ? (k < 2 ? (u8)k : rnd()) : kind == 2 ? (k + 2 < per ? (u8)k : (u8)(i / per >> (k + 1 - per ? 8 : 0))) : (k < 4 ? (u8)k : (u8)(rnd() & 1)); }
            one(C, in);
        }
    }
}
/* ---- C08 ---- */
static void famCapacity() {
    Fam f("capacity");
    std::vector<std::pair<std::string, Bytes>> ins;
    for (size_t n : {0, 1, 2, 3, 5, 17, 40, 100}) { ins.push_back({"noise " + std::to_string(n), noise(n, 2)}); ins.push_back({"zeros " + std::to_string(n), Bytes(n, 0)}); }
    ins.push_back({"text 900", text(900)}); ins.push_back({"text 4600", text(4600)}); ins.push_back({"noise 5000", noise(5000)}); ins.push_back({"text 9000", text(9000, 6)});
    for (auto& in : ins) for (int s = 0; s < 3; ++s) for (unsigned t : {1u, 3u}) for (int x = 0; x < 4; ++x) {
        P p; p.strategy = s; p.threads = t; p.xxh = x & 1; p.omit = x >> 1; if (SMALL) p.dict = 4096;
        size_t n = in.second.size(), bound = FL2_compressBound(n), full;
        if (SMALL) bound = bound * 2 + 300;
        size_t B = 64;
        /* the size it takes */
        for (size_t c0 = 0; c0 <= bound + 2; c0 += B) {
            if (!f.mine()) continue;
            if (!f.next("%s%s: capacities %zu..%zu", p.str().c_str(), in.first.c_str(), c0, c0 + B - 1)) continue;
            { Ctx C(p); u8* src = SB->put(in.second.data(), n); u8* o = OB->get(bound); full = comp(C, src, n, o, bound); OB->check("compression"); if (FL2_isError(full)) mcFail("with the bound %zu: %s", bound, errName(full)); verify(C, in.second, o, full); }
            for (size_t cap = c0; cap < c0 + B && cap <= bound + 2; ++cap) {
                /* every capacity of short results and around the needed size; every 9th elsewhere */
                if (!mcThorough && full > 200 && cap > 40 && (cap + 24 < full || cap > full + 8) && cap % (x ? 61 : 9)) continue;
                Ctx C(p); u8* src = SB->put(in.second.data(), n); u8* o = OB->get(cap, 0xEE);
                size_t c = comp(C, src, n, o, cap); OB->check("compression");
                if (cap >= full) { if (c != full) mcFail("capacity %zu: %s (%zu); it takes %zu", cap, errName(c), c, full); verify(C, in.second, o, c); }
                else if (!FL2_isError(c)) mcFail("capacity %zu: returned %zu, with enough space %zu", cap, c, full);
                else if (FL2_getErrorCode(c) != FL2_error_dstSize_tooSmall) mcFail("capacity %zu of %zu: error %s", cap, full, errName(c));
            }
        }
    }
}
static void famDecCapacity() {
    Fam f("decompression capacity");
    auto go = [&](const char* n, const Bytes& s, const Bytes& data) {
        for (unsigned t : {1u, 2u, 4u}) for (size_t c0 = 0; c0 <= data.size() + 2; c0 += 256) {
            if (!f.mine()) continue;
            if (!f.next("%s, %u threads, capacities %zu..", n, t, c0)) continue;
            FL2_DCtx* d = FL2_createDCtxMt(t);
            for (size_t cap = c0; cap < c0 + 256 && cap <= data.size() + 2; ++cap) {
                u8* src = SB->put(s.data(), s.size()); u8* o = DB->get(cap, 0xEE); size_t c = FL2_decompressDCtx(d, o, cap, src, s.size()); ++nOps;
                DB->check("decompression");
                if (cap < data.size()) { if (!FL2_isError(c)) mcFail("capacity %zu of %zu: returned %zu", cap, data.size(), c); }
                else if (FL2_isError(c) || c != data.size() || (c && memcmp(o, data.data(), c))) mcFail("capacity %zu, content %zu: %s", cap, data.size(), FL2_isError(c) ? errName(c) : "wrong data");
            }
            FL2_freeDCtx(d);
        }
    };
    for (auto& b : bases(true)) { RefStream R = refStream(b.second.data(), b.second.size()); go(b.first.c_str(), b.second, R.info.out); }
    for (int k = 0; k < 4; ++k) for (size_t n : {(size_t)1, (size_t)300, (size_t)1500, (size_t)9000}) {
        P p; if (SMALL) p.dict = 4096; p.overlap = k; Bytes in = blockInput(n, k); Bytes out(FL2_compressBound(n) * 2 + 300); Ctx C(p); size_t c = comp(C, in.data(), n, out.data(), out.size()); if (FL2_isError(c)) mcFail("compression failed"); out.resize(c);
        go(("block input " + std::to_string(k) + " of " + std::to_string(n)).c_str(), out, in);
    }
}
/* the bound, on input that expands: noise and near-incompressible mixtures, real constants */
static void famBound() {
    Fam f("bound");
    std::vector<size_t> sizes; for (size_t n = 0; n < 40; ++n) sizes.push_back(n);
    for (size_t n : {255, 256, 257, 577, 1000, 16383, 16384, 28672, 31744, 57343, 60000, 62463, 62464, 63487, 63488, 63489, 65535, 65536, 65537, 114687, 114688, 114689, 126976, 131071, 131072, 229376, 262144, 344064, 458752}) sizes.push_back(n);
    std::vector<size_t> big = {(1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 20) + 131072, (1 << 20) + 131073, 3 << 20}; if (mcThorough) for (size_t k = 1; k < 20; ++k) big.push_back(((size_t)1 << 20) + k * 65536 + 7);
    for (int kind = 0; kind < 6; ++kind) for (int s = 0; s < 3; ++s) for (unsigned t : {1u, 2u, 4u, 8u}) for (int ov : {0, 2, 14}) {
        P p; p.dict = 1 << 20; p.strategy = s; p.threads = t; p.overlap = ov; p.dac = kind & 1;
        auto mk = [&](size_t n) { Bytes b = noise(n, 100 + kind); if (kind == 1) for (size_t i = 0; i + 64 < n; i += 700) memcpy(&b[i + 60], &b[i], 4); if (kind == 2) for (auto& v : b) if (v == 255) v = 0; if (kind == 3) for (size_t i = 20; i + 9 < n; i += 97) memcpy(&b[i], &b[i - 19], 6); if (kind == 4) for (size_t i = 0; i < n; ++i) if (i / 66000 & 1) b[i] &= 0xFE; if (kind == 5) for (size_t i = 30000; i + 2 < n; i += 40) memcpy(&b[i], &b[i - 29000], 3); return b; };
        if (t == 1 || ov == 2) for (size_t n : sizes) { if ((t > 1 || ov != 2) && n < 60000) continue; if (!f.mine()) continue; if (!f.next("%snoise kind %d, %zu bytes", p.str().c_str(), kind, n)) continue; Ctx C(p); one(C, mk(n)); }
        for (size_t n : big) { if (kind > 2 && !mcThorough && s != kind % 3) continue; if (!f.mine()) continue; if (!f.next("%snoise kind %d, %zu bytes", p.str().c_str(), kind, n)) continue; Ctx C(p); one(C, mk(n)); }
    }
}
/* ---- C20 ---- */
static void famOmit() {
    Fam f("omit");
    std::vector<Bytes> ins; for (size_t n : {0, 1, 2, 3, 7, 20, 100, 1000, 4095, 4096, 4097, 9000}) { ins.push_back(text(n)); ins.push_back(noise(n)); ins.push_back(Bytes(n, 0)); }
    for (auto& in : ins) for (int s = 0; s < 3; ++s) for (unsigned t : {1u, 3u}) for (int st = 0; st < 2; ++st) for (int x = -1; x < 2; ++x) for (size_t dict : {(size_t)4096, (size_t)6144, (size_t)20000, (size_t)1 << 20}) for (int order = 0; order < 2; ++order) {
        P p; p.strategy = s; p.threads = t; p.xxh = x; p.omit = 1; p.dict = SMALL ? dict : std::max(dict, (size_t)1 << 20); p.stream = st; p.overlap = 2;
        if (!SMALL && dict != 4096 && dict != 1 << 20) continue;
        if (!f.mine()) continue;
        if (!f.next("%sinput of %zu bytes%s", p.str().c_str(), in.size(), order ? ", the context used with a property byte before" : "")) continue;
        P q = p; q.omit = 0; Ctx Q(q); size_t n = in.size(), cap = FL2_compressBound(n) * 2 + 300;
        u8* src = SB->put(in.data(), n); u8* o = OB->get(cap, 0xEE); size_t c = comp(Q, src, n, o, cap); if (FL2_isError(c)) mcFail("with property byte: %s", errName(c));
        Bytes full(o, o + c); RefStream R = refStream(full.data(), full.size()); if (R.info.st != RefInfo::OK) mcFail("with property byte: invalid stream: %s", R.info.why);
        Ctx C(p);
        if (order) { FL2_CCtx_setParameter(C.c, FL2_p_omitProperties, 0); size_t k = comp(C, src, n, o, cap); if (FL2_isError(k)) mcFail("first use: %s", errName(k)); size_t e = FL2_CCtx_setParameter(C.c, FL2_p_omitProperties, 1); if (FL2_isError(e)) mcFail("set after use: %s", errName(e)); }
        o = OB->get(cap, 0xEE); c = comp(C, src, n, o, cap); OB->check("compression"); if (FL2_isError(c)) mcFail("without property byte: %s", errName(c));
        verify(C, in, o, c);
        Bytes raw(o, o + c);
        /* the property an unomitted stream would carry */
        for (int w = 0; w < 2; ++w) {
            u8 prop = w ? FL2_getCCtxDictProp(C.c) : full[0] & 0x3F;
            RefInfo I = refDecode(raw.data(), raw.size(), refDictSize(prop)); if (I.st != RefInfo::OK || I.out != in || I.consumed != raw.size()) mcFail("raw stream with property %u: %s", prop, I.st != RefInfo::OK ? I.why : "other data or length");
            for (unsigned dt : {1u, 3u}) { Decoders D(cap, n + 64);
                DecRes r = D.oneShot(raw, n, dt, prop); if (r.err || r.out != in) mcFail("FL2_initDCtx(%u), %u threads: %s", prop, dt, r.str());
                for (size_t is : {(size_t)0, (size_t)5}) { r = D.stream(raw, dt, is, is, n + 32, prop); if (r.err || !r.done || r.out != in) mcFail("FL2_initDStream_withProp(%u), %u threads, step %zu: %s", prop, dt, is, r.str()); } }
        }
        /* exactly the capacity it takes, and one less */
        if (!st && !order) for (size_t less = 0; less < 2; ++less) { Ctx E(p); o = OB->get(c - less, 0xEE); size_t k = comp(E, src, n, o, c - less); OB->check("compression without property byte"); if (less ? !FL2_isError(k) : k != c) mcFail("capacity %zu, it takes %zu: %s", c - less, c, FL2_isError(k) ? errName(k) : "ok"); }
    }
    Fam g("properties");
    for (int prop = 0; prop < 256; ++prop) {
        if (!g.next("property %d", prop)) continue;
        Bytes in = text(500); P p; p.omit = 1; if (SMALL) p.dict = 4096; Ctx C(p); Bytes out(2000); size_t c = comp(C, in.data(), in.size(), out.data(), out.size()); out.resize(c);
        bool legal = (prop & 0x3F) <= 40 && !(prop & 0x40);   /* bit 7: hash follows */
        size_t ds = FL2_getDictSizeFromProp((u8)prop);
        if ((prop & 0x3F) <= 40 ? ds != (size_t)refDictSize((u8)prop) : !FL2_isError(ds)) mcFail("FL2_getDictSizeFromProp(%d) = %zu", prop, ds);
        Bytes s2 = out; if (prop & 0x80) { u32 h = refXXH32(in.data(), in.size()); for (int k = 3; k >= 0; --k) s2.push_back((u8)(h >> 8 * k)); }
        for (unsigned t : {1u, 2u, 4u}) {
            if (prop < 36 || (prop & 0x3F) > 40) { Decoders D(4000, 4000);
                DecRes a = D.oneShot(s2, 500, t, prop), b = D.stream(s2, t, 0, 0, 1000, prop), e;
                Bytes s3(1, (u8)prop); cat(s3, s2); e = D.oneShot(s3, 500, t); DecRes h = D.stream(s3, t, 0, 0, 1000);
                const char* nm[] = {"FL2_initDCtx", "FL2_initDStream_withProp", "one-shot, in the stream", "streaming, in the stream"}; DecRes* rs[] = {&a, &b, &e, &h};
                for (int k = 0; k < 4; ++k) if ((prop & 0x3F) > 40 ? !rs[k]->err : legal && (rs[k]->err || rs[k]->out != in)) mcFail("property %d, %s, %u threads: %s", prop, nm[k], t, rs[k]->str());
            }
            FL2_DCtx* d = FL2_createDCtxMt(t); size_t e = FL2_initDCtx(d, (u8)prop); if (FL2_isError(e) != ((prop & 0x3F) > 40)) mcFail("FL2_initDCtx(%d): %s", prop, errName(e)); FL2_freeDCtx(d);
        }
    }
}
/* the functions which need no object: every level, size class and thread count, each decompressed in both ways */
static void famOneCall() {
    Fam f("one-call functions");
    std::vector<std::pair<const char*, Bytes>> ins; for (size_t n : {0, 1, 2, 100, 5000, 70000, 300000}) { ins.push_back({"text", text(n, 3)}); if (n == 100 || n == 70000) { ins.push_back({"noise", noise(n, 9)}); ins.push_back({"zeros", Bytes(n, 0)}); } }
    for (int lev = 1; lev <= FL2_maxCLevel(); ++lev) for (auto& in : ins) for (int t : {-1, 0, 1, 2, 3, 7, 200, 201, 100000}) {
        if (!f.mine() || !f.next("level %d, %s of %zu bytes, %d threads%s", lev, in.first, in.second.size(), t, t < 0 ? " (FL2_compress)" : "")) continue;
        const Bytes& b = in.second; size_t cap = FL2_compressBound(b.size()); u8* s = SB->put(b.data(), b.size()); u8* o = OB->get(cap); nOps += 4;
        size_t r = t < 0 ? FL2_compress(o, cap, s, b.size(), lev) : FL2_compressMt(o, cap, s, b.size(), lev, (unsigned)t); OB->check("one-call compression"); if (FL2_isError(r) || r > cap) mcFail("%s (%zu)", errName(r), r); if (b.size() && memcmp(s, b.data(), b.size())) mcFail("source changed");
        RefStream R = refStream(o, r); if (R.info.st != RefInfo::OK || R.total != r || !R.hashPresent) mcFail("not a valid stream with hash: %s", R.info.why); if (R.info.out != b) mcFail("the stream decodes to other data");
        FL2_CCtx* c = FL2_createCCtx(); Bytes w(cap); size_t r2 = FL2_compressCCtx(c, w.data(), cap, b.data(), b.size(), lev); FL2_freeCCtx(c); if (t == -1 || t == 1) if (r2 != r || memcmp(w.data(), o, r)) mcFail("%zu bytes, FL2_compressCCtx gives %zu", r, r2);
        for (int mt : {0, 1}) { u8* d = DB->get(b.size()); size_t e = mt ? FL2_decompressMt(d, b.size(), o, r, t < 0 ? 1 : (unsigned)t) : FL2_decompress(d, b.size(), o, r); DB->check("one-call decompression"); if (e != b.size() || (e && memcmp(d, b.data(), e))) mcFail("decompression (Mt: %d): %s", mt, errName(e)); }
        if (b.size() > 1) { u8* d = DB->get(b.size() - 1); size_t e = FL2_decompress(d, b.size() - 1, o, r); DB->check("one-call decompression"); if (!FL2_isError(e)) mcFail("decompression into too small a buffer returned %zu", e); Bytes cut(o, o + r - 1); o = OB->put(cut.data(), r - 1); d = DB->get(b.size()); e = FL2_decompressMt(d, b.size(), o, r - 1, 2); if (!FL2_isError(e)) mcFail("decompression of a cut stream returned %zu", e); }
    }
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
#ifdef FL2_MODEL_CHECK
    SMALL = true;
#endif
    size_t big = SMALL ? (size_t)1 << (mcThorough ? 24 : 22) : (size_t)1 << (mcThorough ? 26 : 24);
    SB = new GuardBuf(big); OB = new GuardBuf(big); DB = new GuardBuf(big); DC = FL2_createDCtx();
    static const u8 L[] = {'a', 'b', 'c', 'd', 0, 255};
    bool deep = mcThorough;
    if (mcProp == "C20") famOmit();
    else if (mcProp == "C08") { if (mcJob == "bound") famBound(); else { famCapacity(); famDecCapacity(); } }
    else if (mcJob == "large") { if (mcProp == "C01") famOneCall(); famSegments(); famParams(); famLists(); if (mcProp != "C01" || mcThorough) { famDictSize(); famDictClass(); } }
    else if (mcJob == "dicts") { famDictSize(); famDictClass(); }
    else if (mcJob == "struct") { std::vector<P> v = modesSt(); v.erase(v.begin(), v.begin() + 6); famMatch({v[0], v[3], v[4]}); famRuns({v[3], v[4]}); }
    else if (mcJob == "small") { famStrings("binary", 2, deep ? 14 : 9, L, modesSt()); famRuns(modesSt()); famPeriod(modesSt()); famMatch(modesSt()); famParams(); famBlocks(); famDictSize(); famLengths(); famLists(); famDictClass(); }
    else { famStrings("binary", 2, deep ? 19 : 16, L, modes()); famStrings("ternary", 3, deep ? 12 : 10, L, modes()); famStrings("6 letters", 6, deep ? 7 : 5, L, modes()); famRuns(modes()); famPeriod(modes()); famMatch(modes()); famDepth(); }
    mcCount("transitions", nOps);
    return mcFinish();
}
