/* C03, C04, C14, C17: decoders against the reference codec on exhaustive families of streams. */
#include "lib.h"
#include "streams.h"

static Decoders* D;
static uint64_t nDec;
static const size_t MAXO = 5u << 20;

/* Compare every decoder with the reference verdict. s = property byte + stream (+ hash). */
struct Opt { bool mt = true, streams = true, sizes = true, fine = false; size_t extra = 40; };
static void checkAll(const Bytes& s, const RefStream& R, const Opt& o) {
    bool ok = R.info.st == RefInfo::OK; size_t n = R.info.out.size();
    bool hashOnly = R.hashPresent && !R.hashOk && R.info.st != RefInfo::OK && R.total != 0;   /* structure fine, hash wrong or short */
    /* size query (no hash involved) */
    {
        u8* p = D->src.put(s.data(), s.size());
        unsigned long long z = FL2_findDecompressedSize(p, s.size()); ++nDec;
        if (mcProp == "C17") {
            if (R.info.st == RefInfo::OK || hashOnly) MC_CHECK(z == n, "findDecompressedSize returned %lld, the stream holds %zu bytes", (long long)z, n);
        }
    }
    auto verdict = [&](const char* who, const DecRes& d, bool capOk) {
        ++nDec;
        if (ok && capOk) {
            MC_CHECK(!d.err && d.done, "%s: valid stream of %zu bytes not decoded: %s", who, n, d.str());
            MC_CHECK(d.out == R.info.out, "%s: decoded data differ (%zu bytes, expected %zu)", who, d.out.size(), n);
        } else MC_CHECK(!d.done, "%s: reported success (%zu bytes) on %s", who, d.out.size(), ok ? "a buffer that is too small" : R.info.why);
    };
    size_t cap = ok ? n : n + o.extra;
    DecRes a = D->oneShot(s, cap, 1); verdict("one-shot", a, true);
    if (o.sizes) {
        if (ok) { DecRes b = D->oneShot(s, n + 1, 1); verdict("one-shot, larger buffer", b, true); }
        if (n) { DecRes c = D->oneShot(s, n - 1, 1); verdict("one-shot, buffer one byte short", c, false); }
    }
    if (o.mt) {
        DecRes b = D->oneShot(s, cap, 2); verdict("one-shot, 2 threads", b, true);
        DecRes c = D->oneShot(s, cap, 3); verdict("one-shot, 3 threads", c, true);
        if (o.sizes && n) { DecRes e = D->oneShot(s, n - 1, 2); verdict("one-shot, 2 threads, buffer one byte short", e, false); }
    }
    if (o.streams) {
        size_t mo = n + o.extra + 2;
        DecRes b = D->stream(s, 1, 0, 0, mo); verdict("stream", b, true);
        if (ok) MC_CHECK(b.consumed == R.total, "stream: consumed %zu bytes of input, the stream has %zu", b.consumed, R.total);
        if (o.fine) {
            DecRes c = D->stream(s, 1, 1, 1, mo); verdict("stream in single bytes", c, true);
            DecRes e = D->stream(s, 1, 0, 3, mo); verdict("stream, output in threes", e, true);
            if (ok) MC_CHECK(c.consumed == R.total && e.consumed == R.total, "stream: consumed %zu/%zu bytes of input, the stream has %zu", c.consumed, e.consumed, R.total);
        }
        if (o.mt) {
            DecRes c = D->stream(s, 2, 0, 0, mo); verdict("stream, 2 threads", c, true);
            if (ok) MC_CHECK(c.consumed == R.total, "stream, 2 threads: consumed %zu bytes of input, the stream has %zu", c.consumed, R.total);
            if (o.fine) { DecRes e = D->stream(s, 2, 1, 1, mo); verdict("stream in single bytes, 2 threads", e, true); }
        }
    }
    mcCount("valid streams", ok); mcCount("invalid streams", !ok);
    mcNewState(mcMix(mcHashBytes(R.info.out.data(), std::min<size_t>(n, 4096)), mcHashBytes(R.info.why, strlen(R.info.why), n * 4 + ok)));
}
static void checkStream(const Bytes& s, const Opt& o) { RefStream R = refStream(s.data(), s.size()); checkAll(s, R, o); }
/* a stream we claim to be valid: the two reference sides must agree */
static void checkValid(RefEnc& e, u8 prop, const Opt& o) {
    Bytes s = e.stream(prop); RefStream R = refStream(s.data(), s.size());
    if (R.info.st != RefInfo::OK || R.info.out != e.data) { fprintf(stderr, "harness: reference encoder and decoder disagree: %s\n", R.info.why); _exit(3); }
    checkAll(s, R, o);
}

/* ---- token alphabet ---- */
enum { T_L0, T_L1, T_L2, T_M12, T_M22, T_MA2, T_M13, T_MA9, T_R0, T_R1, T_R2, T_R3, T_SR, T_M1X, T_N };
static const char* tokName[] = {"a", "b", "~", "m1/2", "m2/2", "mA/2", "m1/3", "mA/9", "r0", "r1", "r2", "r3", "sr", "m1/18"};
static bool token(RefEnc& e, int t) {
    u64 h = e.procd;
    auto rok = [&](int i) { return (u64)e.rep[i] + 1 <= h; };
    switch (t) {
    case T_L0: e.literal('a'); return true;
    case T_L1: e.literal('b'); return true;
    case T_L2: e.literal(0xFE); return true;
    case T_M12: if (h < 1) return false; e.match(1, 2); return true;
    case T_M22: if (h < 2) return false; e.match(2, 2); return true;
    case T_MA2: if (h < 3) return false; e.match(h, 2); return true;
    case T_M13: if (h < 1) return false; e.match(1, 3); return true;
    case T_MA9: if (h < 1) return false; e.match(h, 10); return true;
    case T_R0: if (!rok(0)) return false; e.repMatch(0, 2); return true;
    case T_R1: if (!rok(1)) return false; e.repMatch(1, 3); return true;
    case T_R2: if (!rok(2)) return false; e.repMatch(2, 2); return true;
    case T_R3: if (!rok(3)) return false; e.repMatch(3, 12); return true;
    case T_SR: if (!rok(0)) return false; e.shortRep(); return true;
    case T_M1X: if (h < 1) return false; e.match(1, 18); return true;
    }
    return false;
}
static const int PROPS[][3] = {{3, 0, 2}, {0, 0, 0}, {4, 0, 4}, {0, 4, 1}, {2, 2, 3}, {1, 3, 0}, {0, 2, 2}, {3, 1, 4}};

static void famTokens(int depth, int nprops, bool heavy) {
    Fam f("tok" + std::to_string(depth) + (nprops > 8 ? "all" : ""));
    uint64_t total = 1; for (int i = 0; i < depth; ++i) total *= T_N;
    struct P { int lc, lp, pb; }; std::vector<P> ps;
    for (auto& p : PROPS) if ((int)ps.size() < nprops) ps.push_back({p[0], p[1], p[2]});
    if (nprops > 8) { ps.clear(); for (int lc = 0; lc <= 4; ++lc) for (int lp = 0; lc + lp <= 4; ++lp) for (int pb = 0; pb <= 4; ++pb) ps.push_back({lc, lp, pb}); }
    for (auto& p : ps) for (uint64_t k = 0; k < total; ++k) {
        int t[8]; uint64_t v = k; for (int i = depth; i--;) { t[i] = (int)(v % T_N); v /= T_N; }
        if (t[0] > T_L2) continue;   /* no history yet */
        if (!f.mine()) continue;
        RefEnc e; setProps(e, p.lc, p.lp, p.pb);
        e.begin(3); bool ok = true; for (int i = 0; i < depth && ok; ++i) ok = token(e, t[i]);
        if (!ok) { f.skip(); continue; }
        std::string d; for (int i = 0; i < depth; ++i) { d += tokName[t[i]]; d += ' '; }
        if (!f.next("lc%d lp%d pb%d: %s", p.lc, p.lp, p.pb, d.c_str())) continue;
        e.end(); e.eos();
        Opt o; o.fine = heavy; o.sizes = heavy; o.mt = heavy || (k & 7) == 0; checkValid(e, (k & 1) ? 0x80 : 0, o);
    }
}
/* all sequences of chunks */
static void chunkContent(RefEnc& e, int kind) { /* 0: three tokens, 1: one literal, 2: matches only */
    if (kind == 0) { token(e, T_L0); token(e, T_L2); if (!token(e, T_MA2)) token(e, T_M12); token(e, T_SR); }
    else if (kind == 1) token(e, T_L1);
    else { if (!token(e, T_R0)) token(e, T_L2); if (!token(e, T_MA9)) token(e, T_L1); token(e, T_R1); }
}
struct ChunkSt { bool needDict = true, needProp = true, needState = true; };
/* kinds: 0 S1, 1 S2, 2..: LZMA modes 0..3 x content 0..2 x (props: 2 for modes 2,3) */
static const int NCH = 2 + 3 + 3 + 6 + 6;
static bool addChunk(RefEnc& e, ChunkSt& c, int k, std::string& d, bool legalOnly) {
    static const u8 st[] = {'x', 'y', 'x', 'y', 'z'};
    if (k < 2) {
        if (k == 1 && c.needDict && legalOnly) return false;
        if (k == 0) { c.needDict = false; c.needProp = c.needState = true; }
        e.stored(st, k ? 5 : 2, k == 0); d += k ? "S2 " : "S1 "; return true;
    }
    k -= 2; int mode, content, pr = 0;
    if (k < 3) { mode = 0; content = k; } else if (k < 6) { mode = 1; content = k - 3; } else { k -= 6; mode = 2 + k / 6; k %= 6; content = k / 2; pr = k & 1; }
    if (legalOnly) {
        if (mode < 3 && c.needDict) return false;
        if (mode < 2 && c.needProp) return false;
        if (mode < 1 && c.needState) return false;
    }
    if (mode >= 2) { c.needProp = false; if (pr) setProps(e, 0, 1, 0); else setProps(e, 3, 0, 2); }
    c.needState = false; if (mode == 3) c.needDict = false;
    e.begin((unsigned)mode); chunkContent(e, content); e.end();
    char b[16]; snprintf(b, sizeof b, "Z%d%c%s ", mode, "tlm"[content], pr ? "'" : ""); d += b;
    return true;
}
static void famChunks(int n) {
    Fam f("chunks" + std::to_string(n));
    uint64_t total = 1; for (int i = 0; i < n; ++i) total *= NCH;
    for (uint64_t k = 0; k < total; ++k) {
        if (!f.mine()) continue;
        RefEnc e; setProps(e, 3, 0, 2); ChunkSt c; std::string d; bool ok = true; uint64_t v = k;
        for (int i = 0; i < n && ok; ++i) { ok = addChunk(e, c, (int)(v % NCH), d, true); v /= NCH; }
        if (!ok) { f.skip(); continue; }
        if (!f.next("%s", d.c_str())) continue;
        e.eos(); Opt o; o.fine = true; checkValid(e, (k & 1) ? 0x80 | 2 : 0, o);
    }
}
/* every length and kind of match at every position state */
static void famLengths() {
    Fam f("len");
    for (int pos = 1; pos <= 17; ++pos) for (unsigned len = 2; len <= 273; ++len) for (int kind = 0; kind < 4; ++kind) {
        if (!f.next("history %d, length %u, kind %d", pos, len, kind)) continue;
        RefEnc e; setProps(e, 3, 0, 4 - kind); e.begin(3);
        for (int i = 0; i < pos; ++i) e.literal((u8)(i * 37 + 1));
        if (kind == 0) e.match((u64)pos, len); else if (kind == 1) { e.match(1, 2); e.repMatch(0, len); }
        else if (kind == 2) { e.match(1, 2); e.match((u64)pos, 3); e.repMatch(1, len); } else { e.match(1, 2); e.literal(9); e.match(1, len); e.shortRep(); }
        e.literal('z'); e.end(); e.eos(); Opt o; o.mt = len < 20; checkValid(e, 0, o);
    }
}
/* every distance slot boundary, with distances and history up to the dictionary */
static void famDist(unsigned maxLog) {
    Fam f("dist");
    std::vector<u64> ds; for (unsigned b = 0; b <= maxLog; ++b) for (int m = 2; m <= 3; ++m) for (int q = -2; q <= 2; ++q) { long long d = ((long long)m << b >> 1) + q; if (d >= 1 && (u64)d <= (1ull << maxLog)) ds.push_back((u64)d); }
    for (unsigned b = 7; b < maxLog; ++b) for (unsigned a = 0; a < 16; ++a) ds.push_back((1ull << b) + 1 + a * 1 + ((u64)(a & 3) << (b - 2)));
    std::sort(ds.begin(), ds.end()); ds.erase(std::unique(ds.begin(), ds.end()), ds.end());
    for (u64 d : ds) if (d <= (1ull << maxLog)) for (unsigned len : {2u, 3u, 4u, 5u, 20u, 273u}) for (int slack = 0; slack < 2; ++slack) {
        if (!f.next("distance %llu length %u slack %d", (unsigned long long)d, len, slack)) continue;
        RefEnc e; setProps(e, 0, 0, 0); 
        size_t n = (size_t)d + slack; u32 x = 12345;
        bool first = true; size_t pos = 0; Bytes h(n); for (auto& b : h) { x = x * 1664525 + 1013904223; b = (u8)(x >> 24); }
        while (pos < n) { size_t c = std::min<size_t>(n - pos, 65536); e.stored(h.data() + pos, c, first); first = false; pos += c; }
        e.begin(2); e.match(d, len); e.literal(1); e.repMatch(0, len); e.end(); e.eos();
        u8 prop = 0; while (refDictSize(prop) < d) ++prop;
        Opt o; o.mt = d < 70000; o.sizes = false; checkValid(e, prop, o);
    }
}
/* circular dictionary of a stream decoder: matches across the wrap point */
static void famWrap() {
    Fam f("wrap");
    Bytes h(8400); u32 x = 7; for (auto& b : h) { x = x * 1664525 + 1013904223; b = (u8)(x >> 24); }
    for (int lap = 1; lap <= 2; ++lap) for (int off = -20; off <= 4; ++off) for (u64 d : {1ull, 2ull, 7ull, 19ull, 20ull, 21ull, 300ull, 4094ull, 4095ull, 4096ull})
        for (unsigned len : {2u, 3u, 16u, 24u, 273u}) for (size_t os : {(size_t)0, (size_t)1, (size_t)5, (size_t)4096}) {
            size_t n = (size_t)(4096 * lap + off);
            if (d > n) continue;
            if (!f.next("position %zu distance %llu length %u output step %zu", n, (unsigned long long)d, len, os)) continue;
            RefEnc e; setProps(e, 3, 0, 2); e.stored(h.data(), n, true); e.begin(2); e.match(d, len); e.literal(5); e.repMatch(0, len); e.shortRep(); e.end(); e.eos();
            Bytes s = e.stream(0); RefStream R = refStream(s.data(), s.size());
            if (R.info.st != RefInfo::OK) { fprintf(stderr, "harness: %s\n", R.info.why); _exit(3); }
            DecRes a = D->stream(s, 1, 0, os, e.data.size() + 5); ++nDec;
            MC_CHECK(a.done && a.out == e.data, "stream decoder at the dictionary wrap: %s, %zu of %zu bytes", a.str(), a.out.size(), e.data.size());
            DecRes b = D->oneShot(s, e.data.size(), 1); ++nDec;
            MC_CHECK(b.done && b.out == e.data, "one-shot: %s", b.str());
            mcNewState(mcHashBytes(e.data.data(), e.data.size()));
        }
}
/* chunk size limits */
static void famBig() {
    Fam f("big");
    for (size_t n : {1ul, 2ul, 255ul, 256ul, 257ul, 65535ul, 65536ul}) for (int k = 0; k < 2; ++k) {
        if (!f.next("stored chunk of %zu, %d", n, k)) continue;
        Bytes h(n); for (size_t i = 0; i < n; ++i) h[i] = (u8)(i * 13 + (i >> 8)); RefEnc e; setProps(e, 3, 0, 2);
        e.stored(h.data(), n, true); if (k) { e.stored(h.data(), n, false); e.begin(2); e.match(n, 273); e.end(); } e.eos(); Opt o; checkValid(e, 8 | 0x80, o);
    }
    for (size_t n : {65535ul, 65536ul, 65537ul, 131072ul, 1048576ul, 2097151ul, 2097152ul}) {
        if (!f.next("LZMA chunk of %zu bytes", n)) continue;
        RefEnc e; setProps(e, 3, 0, 2); e.begin(3); e.literal(7); size_t left = n - 1; while (left) { unsigned l = left >= 275 ? 273 : left > 273 ? (unsigned)left - 2 : (unsigned)left; if (l == 1) { e.shortRep(); left -= 1; continue; } e.match(1, l); left -= l; }
        e.end(); e.eos(); Opt o; checkValid(e, 0x80 | 4, o);
    }
    for (size_t lits : {100ul, 50000ul, 55000ul}) {   /* packed sizes up to the limit */
        if (!f.next("LZMA chunk of %zu literals", lits)) continue;
        RefEnc e; setProps(e, 0, 0, 0); e.begin(3); u32 x = 99; for (size_t i = 0; i < lits; ++i) { x = x * 1664525 + 1013904223; e.literal((u8)(x >> 24)); }
        if (e.rc.size() + 5 > 65536) { fprintf(stderr, "chunk too big\n"); continue; }
        e.end(); e.begin(0); e.match(100, 5); e.end(); e.eos(); Opt o; checkValid(e, 12, o);
    }
}

/* ---- malformed ---- */
static void malformed(const Bytes& s, bool fine) { Opt o; o.sizes = false; o.mt = true; o.fine = fine; checkStream(s, o); }
static void famBytes() {
    { Fam f("short"); /* every string up to 3 bytes over all values after a valid property byte */
      Bytes s;
      for (int p : {0, 40, 41, 63, 0x80, 0xA8, 0xA9, 255}) { s = {(u8)p}; if (f.next("%s", hex(s).c_str())) malformed(s, true);
        for (int a = 0; a < 256; ++a) { s = {(u8)p, (u8)a}; if (p % 64 != 40 && f.next("%s", hex(s).c_str())) malformed(s, true); } }
      for (int p : {0, 0x80}) for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { s = {(u8)p, (u8)a, (u8)b}; if (f.next("%s", hex(s).c_str())) malformed(s, false); } }
    { Fam f("header"); /* chunk header bytes x short bodies: control byte x size fields x property byte */
      static const u8 sz[] = {0, 1, 4, 5, 6, 255};
      for (int c = 0; c < 256; ++c) for (u8 u : sz) for (u8 pk : sz) for (int pb : {0, 93, 224, 225}) for (int body = 0; body < 3; ++body) {
        Bytes s = {1, (u8)c, 0, u};
        if (c >= 0x80) { s.push_back(0); s.push_back(pk); if (c >= 0xC0) s.push_back((u8)pb); else if (pb) continue; } else if (pk || pb) continue;
        for (int i = 0; i < 7; ++i) s.push_back(body == 0 ? 0 : body == 1 ? (u8)(i * 50) : (i == 0 ? 0 : 0xFF));
        s.push_back(0);
        if (f.next("%s", hex(s).c_str())) malformed(s, false);
      } }
    { Fam f("badseq"); /* all chunk sequences, legal or not */
      for (int n = 1; n <= 3; ++n) { uint64_t total = 1; for (int i = 0; i < n; ++i) total *= NCH;
        for (uint64_t k = 0; k < total; ++k) {
            RefEnc e; setProps(e, 3, 0, 2); ChunkSt c; std::string d; uint64_t v = k;
            e.begin(1);   /* a state to encode from */
            for (int i = 0; i < n; ++i) { addChunk(e, c, (int)(v % NCH), d, false); v /= NCH; }
            if (n == 3 && !mcThorough && k % 3) continue;
            if (!f.next("%s", d.c_str())) continue;
            e.eos(); malformed(e.stream(0), false);
        } } }
    { Fam f("distbad"); /* distances at and beyond the history, in fresh dictionaries and after resets */
      for (int hist = 0; hist <= 6; ++hist) for (int over = -2; over <= 3; ++over) for (int kind = 0; kind < 6; ++kind) for (int stored = 0; stored < 3; ++stored) {
        if (!f.next("history %d, distance history%+d, kind %d, stored %d", hist, over, kind, stored)) continue;
        RefEnc e; setProps(e, 3, 0, 2);
        if (stored == 2) { e.stored((const u8*)"previous block", 14, true); }
        if (stored && hist) { e.stored((const u8*)"abcdefg", hist, true); e.begin(2); } else { e.begin(3); for (int i = 0; i < hist; ++i) e.literal((u8)('a' + i)); }
        long d = hist + over; if (d < 1) d = 1;
        if (kind == 0) e.match((u64)d, 2); else if (kind == 1) e.match((u64)d, 40); else if (kind == 2) e.repMatch(0, 3); else if (kind == 3) e.shortRep(); else if (kind == 4) e.repMatch(2, 2); else { e.match((u64)d, 2); e.literal('k'); }
        e.end(); e.eos(); malformed(e.stream(0), true);
      }
      Bytes h(8300); for (size_t i = 0; i < h.size(); ++i) h[i] = (u8)(i * 31 >> 3);
      for (int hist : {4095, 4096, 4097, 4200, 8192}) for (int d : {4094, 4095, 4096, 4097, 4098, 4200, 8192}) for (int kind = 0; kind < 3; ++kind) for (int pre = 0; pre < 2; ++pre) {
        if (!f.next("history %d, distance %d, dictionary 4096, kind %d, LZMA history %d", hist, d, kind, pre)) continue;
        RefEnc e; setProps(e, 3, 0, 2);
        if (!pre) { e.stored(h.data(), (size_t)hist, true); e.begin(2); } else { e.begin(3); for (int i = 0; i < hist; ++i) e.literal(h[(size_t)i] & 3); }
        e.match((u64)d, kind == 1 ? 50 : 2); if (kind == 2) { e.literal(3); e.repMatch(0, 9); }
        e.end(); e.eos(); malformed(e.stream(0), false);
      } }
    auto bs = bases(mcThorough || true);
    { Fam f("trunc");
      for (auto& b : bs) for (size_t n = 0; n <= b.second.size(); ++n) if (f.next("%s cut to %zu of %zu", b.first.c_str(), n, b.second.size())) { if (!n) continue; Bytes s(b.second.begin(), b.second.begin() + n); malformed(s, b.second.size() < 200); } }
    { Fam f("sub"); /* every single-byte substitution */
      for (auto& b : bs) for (size_t i = 1; i < b.second.size(); ++i) { if (b.second.size() > 300 && i > 12 && i + 40 < b.second.size()) continue;
        for (int v = 0; v < 256; ++v) { if (b.second[i] == v) continue; if (f.next("%s byte %zu=%02x", b.first.c_str(), i, v)) { Bytes s = b.second; s[i] = (u8)v; malformed(s, false); } } } }
    { Fam f("insdel");
      for (auto& b : bs) for (size_t i = 1; i < b.second.size(); ++i) { if (b.second.size() > 300 && i > 12 && i + 40 < b.second.size()) continue;
        if (f.next("%s without byte %zu", b.first.c_str(), i)) { Bytes s = b.second; s.erase(s.begin() + i); malformed(s, true); }
        for (int v : {0, 1, 2, 0x80, 0xFF}) if (f.next("%s with %02x before byte %zu", b.first.c_str(), v, i)) { Bytes s = b.second; s.insert(s.begin() + i, (u8)v); malformed(s, false); } } }
    { Fam f("hdr2"); /* pairs of header changes: declared sizes off by up to 3 in every combination, with the body kept, shortened or padded */
      for (int du = -3; du <= 3; ++du) for (int dp = -4; dp <= 4; ++dp) for (int pad = -2; pad <= 4; ++pad) for (int kind = 0; kind < 4; ++kind) for (int tail = 0; tail < 3; ++tail) {
        if (!f.next("unpack size %+d, pack size %+d, body %+d bytes, kind %d, tail %d", du, dp, pad, kind, tail)) continue;
        RefEnc e; setProps(e, 3, 0, 2); e.begin(3); e.literal('a'); e.literal('b'); e.match(2, 4);
        if (kind == 1) e.literal(0xF0); else if (kind == 2) e.repMatch(0, 30); else if (kind == 3) for (int i = 0; i < 20; ++i) e.literal((u8)(i * 91));
        e.end(du, dp); for (int i = pad; i < 0; ++i) e.out.pop_back(); for (int i = 0; i < pad; ++i) e.out.push_back(i == 1 ? 1 : 0);
        if (tail == 1) { e.begin(3); e.literal('z'); e.match(1, 5); e.end(); } else if (tail == 2) e.stored((const u8*)"tail", 4, false);
        e.eos(); malformed(e.stream(0), true);
      } }
}
/* no behaviour may depend on memory the decoder never wrote */
static void famUninit() {
    Fam f("uninit");
    auto bs = bases(true);
    auto run = [&](const Bytes& s, int fill, std::string& sig) {
        mc_alloc.fill = fill; RefStream R = refStream(s.data(), s.size()); size_t cap = R.info.out.size() + 20; char b[64];
        for (unsigned t = 1; t <= 2; ++t) { DecRes r = D->oneShot(s, cap, t); snprintf(b, sizeof b, "%zx/%zu;", r.code, r.out.size()); sig += b; sig += hex(r.out, 4000);
            DecRes q = D->stream(s, t, 0, 0, cap); snprintf(b, sizeof b, "%zx/%d/%zu/%zu;", q.code, q.done, q.out.size(), q.consumed); sig += b; sig += hex(q.out, 4000); }
        mc_alloc.fill = 0xAA; nDec += 4;
    };
    auto cmp = [&](const Bytes& s) { std::string a, b, c; run(s, 0x00, a); run(s, 0xFF, b); run(s, 0x02, c); MC_CHECK(a == b && a == c, "result depends on uninitialised memory:\n %s\n %s\n %s", a.c_str(), b.c_str(), c.c_str()); mcNewState(mcHashBytes(a.data(), a.size())); };
    for (int n = 1; n <= 2; ++n) { uint64_t total = 1; for (int i = 0; i < n; ++i) total *= NCH;
        for (uint64_t k = 0; k < total; ++k) { RefEnc e; setProps(e, 3, 0, 2); ChunkSt c; std::string d; uint64_t v = k; e.begin(1);
            for (int i = 0; i < n; ++i) { addChunk(e, c, (int)(v % NCH), d, false); v /= NCH; }
            if (!f.next("%s", d.c_str())) continue; e.eos(); cmp(e.stream(0)); } }
    for (auto& b : bs) for (size_t n = 1; n <= b.second.size(); ++n) { if (b.second.size() > 300 && n > 12 && n + 40 < b.second.size()) continue;
        if (f.next("%s cut to %zu", b.first.c_str(), n)) { Bytes s(b.second.begin(), b.second.begin() + n); cmp(s); } }
    for (auto& b : bs) for (size_t i = 1; i < b.second.size() && i < 40; ++i) for (int v : {0, 1, 2, 0x80, 0x9F, 0xA0, 0xC0, 0xE0, 0xFF})
        if (f.next("%s byte %zu=%02x", b.first.c_str(), i, v)) { Bytes s = b.second; s[i] = (u8)v; cmp(s); }
}
/* ---- C14 ---- */
static void hashCase(const Bytes& s, const RefStream& R, bool mustFail) {
    size_t n = R.info.out.size();
    for (unsigned t = 1; t <= 3; ++t) {
        DecRes a = D->oneShot(s, n + 2, t); ++nDec;
        MC_CHECK(a.done == !mustFail, "one-shot, %u threads: %s, expected %s", t, a.str(), mustFail ? "an error" : "success");
        for (int k = 0; k < 4; ++k) {
            DecRes b = D->stream(s, t, k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 3 : s.size() > 2 ? s.size() - 2 : 0, k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n + 1 : n ? n : 1, n + 2); ++nDec;
            MC_CHECK(b.done == !mustFail, "stream, %u threads, split %d: %s, expected %s", t, k, b.str(), mustFail ? "an error" : "success");
            if (!mustFail) MC_CHECK(b.out == R.info.out, "stream: wrong data");
        }
        DecRes c = D->oneShot(Bytes(s.begin() + 1, s.end()), n + 2, t, s[0]); ++nDec;
        MC_CHECK(c.done == !mustFail, "one-shot after FL2_initDCtx, %u threads: %s", t, c.str());
        DecRes d = D->stream(Bytes(s.begin() + 1, s.end()), t, 0, 0, n + 2, s[0]); ++nDec;
        MC_CHECK(d.done == !mustFail, "stream after FL2_initDStream_withProp, %u threads: %s", t, d.str());
    }
    mcNewState(mcHashBytes(s.data(), s.size()));
}
static void famHash() {
    std::vector<std::pair<std::string, Bytes>> bs;
    for (auto b : bases(true)) { RefStream R = refStream(b.second.data(), b.second.size()); if (R.hashPresent) bs.push_back(b); else { Bytes s(b.second); s[0] |= 0x80; u32 h = refXXH32(R.info.out.data(), R.info.out.size()); for (int i = 24; i >= 0; i -= 8) s.push_back((u8)(h >> i)); bs.push_back({b.first + "+h", s}); } }
    { Fam f("xxlen"); /* every content length up to 70 and some more: correct hash accepted, each bit of it matters */
      for (int n = 0; n <= 200; ++n) for (int bit = -1; bit < 32; ++bit) { if (n > 70 && bit > 0 && bit % 8) continue; if (!f.next("%d bytes stored, hash bit %d flipped", n, bit)) continue;
        Bytes h((size_t)n + 1); for (int i = 0; i < n; ++i) h[i] = (u8)(i * i + 3 * i); RefEnc e; setProps(e, 3, 0, 2); if (n) e.stored(h.data(), (size_t)n, true); e.eos(); Bytes s = e.stream(0x80);
        RefStream R = refStream(s.data(), s.size()); if (bit >= 0) s[s.size() - 1 - bit / 8] ^= (u8)(1 << (bit & 7)); hashCase(s, R, bit >= 0); } }
    { Fam f("hashbyte"); for (auto& b : bs) { RefStream R = refStream(b.second.data(), b.second.size()); if (R.info.st != RefInfo::OK) _exit(3);
        if (f.next("%s intact", b.first.c_str())) hashCase(b.second, R, false);
        for (int i = 0; i < 4; ++i) for (int v = 1; v < 256; ++v) if (f.next("%s hash byte %d ^ %02x", b.first.c_str(), i, v)) { Bytes s = b.second; s[s.size() - 4 + i] ^= (u8)v; hashCase(s, R, true); }
        for (int cut = 1; cut <= 4; ++cut) if (f.next("%s hash cut by %d", b.first.c_str(), cut)) { Bytes s = b.second; s.resize(s.size() - cut); hashCase(s, R, true); }
        for (int perm = 1; perm < 24; ++perm) { Bytes s = b.second; int a[4] = {0, 1, 2, 3}; for (int q = 0; q < perm; ++q) std::next_permutation(a, a + 4); for (int q = 0; q < 4; ++q) s[s.size() - 4 + q] = b.second[b.second.size() - 4 + a[q]];
            if (s == b.second) continue; if (f.next("%s hash permuted %d", b.first.c_str(), perm)) hashCase(s, R, true); } } }
    { Fam f("hashvalue"); /* whole values a wrong implementation might let pass: constants, subsets of bytes blanked, hashes of related data */
      for (auto& b : bs) { RefStream R = refStream(b.second.data(), b.second.size()); const Bytes& o = R.info.out; const Bytes& full = b.second; size_t n = full.size() - 4; u32 good = refXXH32(o.data(), o.size());
        std::vector<std::pair<std::string, u32>> vs = {{"0", 0}, {"1", 1}, {"ffffffff", ~0u}, {"80000000", 0x80000000u}, {"deadbeef", 0xDEADBEEFu}, {"of nothing", refXXH32(o.data(), 0)}, {"complement", ~good}, {"+1", good + 1}, {"-1", good - 1}, {"negated", 0u - good},
            {"of the content without its last byte", refXXH32(o.data(), o.empty() ? 0 : o.size() - 1)}, {"of the content without its first byte", refXXH32(o.data() + !o.empty(), o.size() - !o.empty())}, {"of the compressed data", refXXH32(full.data(), n)}, {"of the compressed data without the property", refXXH32(full.data() + 1, n - 1)}};
        { Bytes z = o; z.push_back(0); vs.push_back({"of the content and a zero byte", refXXH32(z.data(), z.size())}); Bytes y = o; y.insert(y.end(), o.begin(), o.end()); vs.push_back({"of the content twice", refXXH32(y.data(), y.size())}); }
        for (size_t k : {(size_t)4, (size_t)16, o.size() / 2, (size_t)4096, (size_t)65536}) if (k < o.size()) { vs.push_back({"of the first " + std::to_string(k) + " bytes", refXXH32(o.data(), k)}); vs.push_back({"of the last " + std::to_string(k) + " bytes", refXXH32(o.data() + o.size() - k, k)}); }
        for (int m = 1; m < 16; ++m) for (u32 w : {0u, ~0u}) { u32 v = good; for (int i = 0; i < 4; ++i) if (m >> i & 1) v = (v & ~(255u << (8 * i))) | (w & (255u << (8 * i))); vs.push_back({"bytes " + std::to_string(m) + " blanked with " + (w ? "ff" : "00"), v}); }
        for (int i = 0; i < 32; ++i) for (int j = i + 1; j < 32; ++j) if (i % 8 == 0 || j - i == 16 || j - i == 8) vs.push_back({"bits " + std::to_string(i) + "+" + std::to_string(j), good ^ (1u << i) ^ (1u << j)});
        for (auto& v : vs) { if (v.second == good || !f.next("%s, stored hash: %s", b.first.c_str(), v.first.c_str())) continue; Bytes s = full; for (int i = 0; i < 4; ++i) s[n + i] = (u8)(v.second >> (24 - 8 * i)); hashCase(s, R, true); } } }
    { Fam f("database"); /* stored data altered: the structure stays valid, only the hash can tell */
      for (int n : {1, 5, 15, 16, 17, 64, 300}) for (int i = 0; i < n; ++i) for (int v : {1, 0x80, 0xFF}) for (int two = 0; two < 2; ++two) { if (!f.next("%d stored bytes (%d blocks), byte %d ^ %02x", n, two + 1, i, v)) continue;
        Bytes h((size_t)n); for (int k = 0; k < n; ++k) h[k] = (u8)(k * 7); RefEnc e; setProps(e, 3, 0, 2); e.stored(h.data(), (size_t)n, true); if (two) e.stored(h.data(), (size_t)n, true); e.eos(); Bytes s = e.stream(0x80);
        RefStream R = refStream(s.data(), s.size()); s[(size_t)(two ? 4 + n + 3 : 4) + i] ^= (u8)v; hashCase(s, R, true); } }
    { Fam f("datalzma"); /* every single-byte change of LZMA data: reported, or (structure valid, hash equal) impossible */
      for (auto& b : bs) { RefStream R0 = refStream(b.second.data(), b.second.size()); for (size_t i = 1; i + 4 < b.second.size(); ++i) { if (b.second.size() > 300 && i > 20 && i + 60 < b.second.size()) continue; for (int v : {1, 2, 4, 8, 16, 32, 64, 128}) {
        if (!f.next("%s byte %zu ^ %02x", b.first.c_str(), i, v)) continue; Bytes s = b.second; s[i] ^= (u8)v; RefStream R = refStream(s.data(), s.size());
        if (R.info.st == RefInfo::OK) { hashCase(s, R, false); continue; } (void)R0; hashCase(s, R, true); } } } }
}
/* ---- C17 ---- */
static void famSize() {
    auto q = [&](const Bytes& s) { u8* p = D->src.put(s.data(), s.size()); ++nDec; return FL2_findDecompressedSize(p, s.size()); };
    { Fam f("chunks"); for (int n = 0; n <= 3; ++n) { uint64_t total = 1; for (int i = 0; i < n; ++i) total *= NCH;
        for (uint64_t k = 0; k < total; ++k) { RefEnc e; setProps(e, 3, 0, 2); ChunkSt c; std::string d; bool ok = true; uint64_t v = k;
            for (int i = 0; i < n && ok; ++i) { ok = addChunk(e, c, (int)(v % NCH), d, true); v /= NCH; }
            if (!ok || !f.next("%s", d.c_str())) continue; e.eos();
            for (int hash = 0; hash < 2; ++hash) {
                Bytes s = e.stream((u8)(hash ? 0x80 : 0)); size_t endMark = 1 + e.out.size();
                MC_CHECK(q(s) == e.data.size(), "size %lld, expected %zu", (long long)q(s), e.data.size());
                for (u8 t : {0, 1, 0x80, 0xFF}) { Bytes u = s; for (int i = 0; i < 8; ++i) { u.push_back(t); MC_CHECK(q(u) == e.data.size(), "size %lld, expected %zu, with %d trailing bytes %02x", (long long)q(u), e.data.size(), i + 1, t); } }
                for (size_t cut = 0; cut < endMark; ++cut) { Bytes u(s.begin(), s.begin() + cut); if (u.empty()) continue; MC_CHECK(q(u) == FL2_CONTENTSIZE_ERROR, "truncated to %zu of %zu bytes: size %lld instead of an error", cut, endMark, (long long)q(u)); }
                DecRes r = D->oneShot(s, e.data.size(), 1); MC_CHECK(r.done && r.out.size() == e.data.size(), "decompression produces %zu", r.out.size());
            }
            mcNewState(mcHashBytes(e.out.data(), e.out.size())); } } }
    { Fam f("sizes"); for (unsigned hi = 0; hi < 32; ++hi) for (unsigned u : {0u, 1u, 255u, 256u, 0x1FFu, 0xFF00u, 0xFFFFu}) for (unsigned pk : {0u, 4u, 5u, 255u, 256u, 300u, 0xFFFFu}) for (int two = 0; two < 2; ++two) {
        if (!f.next("unpack field %x%04x, pack field %04x, %d chunks", hi, u, pk, two + 1)) continue;
        Bytes s = {5}; size_t want = 0; for (int i = 0; i <= two; ++i) { s.push_back((u8)((i ? 0x80 : 0xE0) | hi)); s.push_back((u8)(u >> 8)); s.push_back((u8)u); s.push_back((u8)(pk >> 8)); s.push_back((u8)pk); if (!i) s.push_back(93); s.insert(s.end(), pk + 1, 0); want += (hi << 16) + u + 1; }
        s.push_back(0); MC_CHECK(q(s) == want, "size %lld, expected %zu", (long long)q(s), want);
        s.pop_back(); MC_CHECK(q(s) == FL2_CONTENTSIZE_ERROR, "no end marker: size %lld", (long long)q(s));
        s.pop_back(); MC_CHECK(q(s) == FL2_CONTENTSIZE_ERROR, "chunk data short: size %lld", (long long)q(s));
        mcNewState(mcMix(mcMix(hi, u), pk * 2 + two)); } }
    { Fam f("storedsizes"); for (unsigned n : {1u, 2u, 255u, 256u, 257u, 0xFFFFu, 0x10000u}) for (int k = 1; k <= 3; ++k) { if (!f.next("%d stored chunks of %u", k, n)) continue;
        Bytes h(n, 9); RefEnc e; for (int i = 0; i < k; ++i) e.stored(h.data(), n, i == 0 || k == 3); e.eos(); Bytes s = e.stream(0); MC_CHECK(q(s) == (u64)n * k, "size %lld", (long long)q(s));
        for (size_t cut = 1; cut < s.size(); cut += (cut < 40 || cut + 40 > s.size()) ? 1 : 97) { Bytes u(s.begin(), s.begin() + cut); MC_CHECK(q(u) == FL2_CONTENTSIZE_ERROR, "cut to %zu: %lld", cut, (long long)q(u)); } } }
    { Fam f("structure"); /* invalid control, property and first-chunk bytes are errors */
      for (int c = 0; c < 256; ++c) for (int pb = 0; pb < 256; ++pb) { if (c < 0xC0 && pb) continue; if (!f.next("first control %02x property %02x", c, pb)) continue;
        Bytes s = {0, (u8)c, 0, 0}; if (c >= 0x80) { s.push_back(0); s.push_back(4); if (c >= 0xC0) s.push_back((u8)pb); s.insert(s.end(), 5, 0); } else if (c) s.push_back('x'); s.push_back(0); s.insert(s.end(), 8, 0);
        unsigned long long z = q(s); bool badCtl = c > 2 && c < 0x80;
        if (badCtl) MC_CHECK(z == FL2_CONTENTSIZE_ERROR, "size %lld instead of an error", (long long)z);
        else if (c == 0) MC_CHECK(z == 0, "size %lld", (long long)z);
        mcNewState(mcMix(c, pb)); } 
      for (int p = 0; p < 256; ++p) if (f.next("stream property %02x", p)) { Bytes s = {(u8)p, 1, 0, 2, 'a', 'b', 'c', 0}; unsigned long long z = q(s); MC_CHECK(z == 3, "size %lld (the property byte may be anything here)", (long long)z); } }
    { Fam f("subst"); for (auto& b : bases(true)) for (size_t i = 1; i < b.second.size(); ++i) for (int v = 0; v < 256; ++v) { if (b.second.size() > 300 && i > 12 && i + 30 < b.second.size()) continue; if (!f.next("%s byte %zu=%02x", b.first.c_str(), i, v)) continue;
        Bytes s = b.second; s[i] = (u8)v; RefStream R = refStream(s.data(), s.size()); unsigned long long z = q(s);
        if (R.info.st == RefInfo::OK || (R.total && R.hashPresent)) MC_CHECK(z == R.info.out.size(), "size %lld, decompression produces %zu", (long long)z, R.info.out.size());
        if (z != FL2_CONTENTSIZE_ERROR) { DecRes r = D->oneShot(s, (size_t)z, 1); if (r.done) MC_CHECK(r.out.size() == z, "size %lld, decompression produces %zu", (long long)z, r.out.size()); }
        mcNewState(mcMix(z, R.info.st)); } }
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
    D = new Decoders(1 << 22, MAXO);
    if (mcProp == "C03") {
        bool deep = mcJob != "asan";
        famTokens(2, 99, true); famTokens(3, 8, true); famTokens(4, deep ? 8 : 2, false);
        if (deep) { famTokens(3, 99, false); famTokens(5, mcThorough ? 8 : 2, false); }
        if (deep && mcThorough) { famTokens(4, 99, false); famTokens(6, 2, false); }
        famChunks(1); famChunks(2); famChunks(3); if (deep) famChunks(4);
        famLengths(); famDist(mcThorough ? 22 : 18); famWrap(); famBig();
    } else if (mcProp == "C04") { famBytes(); famUninit(); }
    else if (mcProp == "C14") famHash();
    else if (mcProp == "C17") famSize();
    mcCount("transitions", nDec);
    return mcFinish();
}
