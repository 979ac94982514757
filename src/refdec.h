/* Independent strict LZMA2 reference decoder (oracle).  Written from the format definition, not
 * from the library: bit-at-a-time, bounds-checked, no lookahead. */
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <vector>
#include <string>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef uint16_t u16;
typedef std::vector<u8> Bytes;

struct RefInfo {
    enum St { OK, TRUNC, CORRUPT } st = OK;
    const char* why = "";
    Bytes out;
    size_t consumed = 0;          /* bytes up to and including the end marker */
    u64 maxDist = 0;              /* largest match distance (1-based) used */
    std::vector<size_t> dictResets; /* output offsets of dictionary resets */
    unsigned chunks = 0, lzmaChunks = 0, stored = 0, stateResets = 0, propChunks = 0;
    std::vector<size_t> chunkEnds;  /* output offsets at chunk ends */
    std::vector<size_t> chunkInEnds;/* input offsets at chunk ends */
    std::vector<u8> ctl;
};

class RefDec {
    const u8* s; size_t n; u64 dict; size_t pos = 0;
    RefInfo& r;
    /* LZMA state */
    u16 isMatch[12][16], isRep[12], isRepG0[12], isRepG1[12], isRepG2[12], isRep0Long[12][16];
    u16 posSlot[4][64], posSpec[128], align_[16];
    struct LenC { u16 choice, choice2, low[16][8], mid[16][8], high[256]; } lenC, repC;
    u16 lit[0x300 << 4];
    u32 rep[4]; unsigned state;
    unsigned lc = 0, lp = 0, pb = 0;
    u64 procd = 0;  /* bytes since dictionary reset */
    u32 range, code; size_t rpos, rend; bool eof;

    void initState() {
        auto f = [](u16* p, size_t c) { for (size_t i = 0; i < c; ++i) p[i] = 1024; };
        f(&isMatch[0][0], 192); f(isRep, 12); f(isRepG0, 12); f(isRepG1, 12); f(isRepG2, 12); f(&isRep0Long[0][0], 192);
        f(&posSlot[0][0], 256); f(posSpec, 128); f(align_, 16); f((u16*)&lenC, sizeof lenC / 2); f((u16*)&repC, sizeof repC / 2);
        f(lit, (size_t)0x300 << (lc + lp));
        rep[0] = rep[1] = rep[2] = rep[3] = 0; state = 0;
    }
    void norm() {
        if (range < (1u << 24)) {
            if (rpos >= rend) { eof = true; range <<= 8; code <<= 8; return; }
            range <<= 8; code = (code << 8) | s[rpos++];
        }
    }
    unsigned bit(u16& p) {
        norm();
        u32 bound = (range >> 11) * p;
        if (code < bound) { range = bound; p += (2048 - p) >> 5; return 0; }
        range -= bound; code -= bound; p -= p >> 5; return 1;
    }
    u32 direct(unsigned c) {
        u32 v = 0;
        while (c--) { norm(); range >>= 1; u32 b = code >= range; if (b) code -= range; v = v * 2 + b; }
        return v;
    }
    unsigned tree(u16* p, unsigned bits) { unsigned m = 1; for (unsigned i = 0; i < bits; ++i) m = m * 2 + bit(p[m]); return m - (1u << bits); }
    unsigned rtree(u16* p, unsigned bits) { unsigned m = 1, v = 0; for (unsigned i = 0; i < bits; ++i) { unsigned b = bit(p[m]); m = m * 2 + b; v |= b << i; } return v; }
    unsigned len(LenC& c, unsigned ps) {
        if (!bit(c.choice)) { unsigned m = 1; for (int i = 0; i < 3; ++i) m = m * 2 + bit(c.low[ps][m]); return m - 8; }
        if (!bit(c.choice2)) { unsigned m = 1; for (int i = 0; i < 3; ++i) m = m * 2 + bit(c.mid[ps][m]); return m - 8 + 8; }
        return tree(c.high, 8) + 16;
    }
    bool fail(const char* w, RefInfo::St st = RefInfo::CORRUPT) { r.st = st; r.why = w; return false; }
    u8 back(u64 d) const { return r.out[r.out.size() - d]; } /* d is 1-based */
    bool lzma(size_t unpack, size_t pack) {
        if (pos + pack > n) return fail("packed data beyond input", RefInfo::TRUNC);
        rpos = pos; rend = pos + pack; eof = false;
        if (pack < 5) return fail("pack size below 5");
        if (s[rpos]) return fail("first range coder byte not 0");
        code = (u32)s[rpos + 1] << 24 | (u32)s[rpos + 2] << 16 | (u32)s[rpos + 3] << 8 | s[rpos + 4];
        range = 0xFFFFFFFFu; rpos += 5;
        size_t todo = unpack;
        while (todo) {
            if (eof) return fail("LZMA data beyond chunk");
            unsigned ps = (unsigned)(procd & ((1u << pb) - 1));
            if (!bit(isMatch[state][ps])) {
                u8 prev = procd ? back(1) : 0;
                unsigned ls = (unsigned)(((procd & ((1u << lp) - 1)) << lc) + (prev >> (8 - lc)));
                u16* p = lit + (size_t)0x300 * ls;
                unsigned m = 1;
                if (state >= 7) {
                    if (procd <= rep[0] || rep[0] >= dict) return fail("match byte beyond history");
                    unsigned mb = back((u64)rep[0] + 1);
                    do {
                        unsigned b = (mb >> 7) & 1; mb <<= 1;
                        unsigned c = bit(p[((1 + b) << 8) + m]);
                        m = m * 2 + c;
                        if (c != b) break;
                    } while (m < 0x100);
                }
                while (m < 0x100) m = m * 2 + bit(p[m]);
                if (eof) return fail("LZMA data beyond chunk");
                r.out.push_back((u8)m); ++procd; --todo;
                state = state < 4 ? 0 : state < 10 ? state - 3 : state - 6;
                continue;
            }
            unsigned l;
            if (bit(isRep[state])) {
                if (!procd) return fail("rep match without history");
                if (!bit(isRepG0[state])) {
                    if (!bit(isRep0Long[state][ps])) {
                        if (eof) return fail("LZMA data beyond chunk");
                        if (rep[0] >= procd || rep[0] >= dict) return fail("distance beyond history");
                        state = state < 7 ? 9 : 11;
                        if ((u64)rep[0] + 1 > r.maxDist) r.maxDist = (u64)rep[0] + 1;
                        r.out.push_back(back((u64)rep[0] + 1)); ++procd; --todo;
                        continue;
                    }
                } else {
                    u32 d;
                    if (!bit(isRepG1[state])) d = rep[1];
                    else { if (!bit(isRepG2[state])) d = rep[2]; else { d = rep[3]; rep[3] = rep[2]; } rep[2] = rep[1]; }
                    rep[1] = rep[0]; rep[0] = d;
                }
                l = len(repC, ps);
                state = state < 7 ? 8 : 11;
            } else {
                rep[3] = rep[2]; rep[2] = rep[1]; rep[1] = rep[0];
                l = len(lenC, ps);
                state = state < 7 ? 7 : 10;
                unsigned slot = tree(posSlot[l < 3 ? l : 3], 6);
                u32 d;
                if (slot < 4) d = slot;
                else {
                    unsigned nb = (slot >> 1) - 1; d = (2 | (slot & 1)) << nb;
                    if (slot < 14) d += rtree(posSpec + d - slot, nb);
                    else { d += direct(nb - 4) << 4; d += rtree(align_, 4); }
                }
                rep[0] = d;
            }
            if (eof) return fail("LZMA data beyond chunk");
            if (rep[0] >= procd || rep[0] >= dict) return fail("distance beyond history");
            l += 2;
            if (l > todo) return fail("match crosses chunk end");
            if ((u64)rep[0] + 1 > r.maxDist) r.maxDist = (u64)rep[0] + 1;
            for (unsigned i = 0; i < l; ++i) r.out.push_back(back((u64)rep[0] + 1));
            procd += l; todo -= l;
        }
        norm();
        if (eof) return fail("LZMA data beyond chunk");
        if (code != 0) return fail("range coder not finished");
        if (rpos != rend) return fail("chunk has unused packed bytes");
        pos = rend;
        return true;
    }
public:
    RefDec(const u8* src, size_t len, u64 dictSize, RefInfo& info) : s(src), n(len), dict(dictSize), r(info) {}
    void run(size_t maxOut = (size_t)-1) {
        bool needDict = true, needState = true, needProp = true;
        for (;;) {
            if (pos >= n) { fail("no end marker", RefInfo::TRUNC); return; }
            u8 c = s[pos];
            if (c == 0) { r.consumed = pos + 1; return; }
            if (c >= 3 && c < 0x80) { fail("bad control byte"); return; }
            r.ctl.push_back(c);
            if (c < 3) {
                if (pos + 3 > n) { fail("short header", RefInfo::TRUNC); return; }
                size_t u = ((size_t)s[pos + 1] << 8 | s[pos + 2]) + 1;
                if (c == 1) { needDict = false; needState = needProp = true; procd = 0; r.dictResets.push_back(r.out.size()); }
                else if (needDict) { fail("no dictionary reset"); return; }
                pos += 3;
                if (pos + u > n) { size_t av = n - pos; r.out.insert(r.out.end(), s + pos, s + pos + av); fail("short data", RefInfo::TRUNC); return; }
                r.out.insert(r.out.end(), s + pos, s + pos + u); pos += u; procd += u;
                ++r.chunks; ++r.stored;
            } else {
                unsigned mode = (c >> 5) & 3;
                if (pos + 5 + (mode >= 2) > n) { fail("short header", RefInfo::TRUNC); return; }
                size_t u = ((size_t)(c & 31) << 16 | (size_t)s[pos + 1] << 8 | s[pos + 2]) + 1;
                size_t p = ((size_t)s[pos + 3] << 8 | s[pos + 4]) + 1;
                size_t h = 5;
                if (mode >= 2) {
                    u8 b = s[pos + 5]; h = 6;
                    if (b >= 225) { fail("bad lc/lp/pb"); return; }
                    lc = b % 9; b /= 9; lp = b % 5; pb = b / 5;
                    if (lc + lp > 4) { fail("lc+lp > 4"); return; }
                    ++r.propChunks;
                }
                if (mode == 3) { needDict = false; procd = 0; r.dictResets.push_back(r.out.size()); }
                else if (needDict) { fail("no dictionary reset"); return; }
                if (mode >= 2) needProp = false; else if (needProp) { fail("no properties"); return; }
                if (mode >= 1) { initState(); needState = false; ++r.stateResets; } else if (needState) { fail("no state reset"); return; }
                pos += h;
                if (!lzma(u, p)) return;
                ++r.chunks; ++r.lzmaChunks;
            }
            r.chunkEnds.push_back(r.out.size()); r.chunkInEnds.push_back(pos);
            if (r.out.size() > maxOut) { fail("too much output"); return; }
        }
    }
};

static inline u64 refDictSize(u8 prop) { prop &= 0x3F; return prop >= 40 ? 0xFFFFFFFFull : (u64)(2 | (prop & 1)) << (prop / 2 + 11); }

static inline RefInfo refDecode(const u8* s, size_t n, u64 dict) { RefInfo r; RefDec* d = new RefDec(s, n, dict, r); d->run(); delete d; return r; }

static inline u32 refXXH32(const u8* p, size_t len, u32 seed = 0) {
    const u32 P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
    auto rd = [](const u8* q) { return (u32)q[0] | (u32)q[1] << 8 | (u32)q[2] << 16 | (u32)q[3] << 24; };
    auto rot = [](u32 x, int k) { return (x << k) | (x >> (32 - k)); };
    const u8* e = p + len; u32 h;
    if (len >= 16) {
        u32 v[4] = { seed + P1 + P2, seed + P2, seed, seed - P1 };
        while (e - p >= 16) { for (int i = 0; i < 4; ++i, p += 4) { v[i] += rd(p) * P2; v[i] = rot(v[i], 13) * P1; } }
        h = rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18);
    } else h = seed + P5;
    h += (u32)len;
    while (e - p >= 4) { h += rd(p) * P3; h = rot(h, 17) * P4; p += 4; }
    while (p < e) { h += *p++ * P5; h = rot(h, 11) * P1; }
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16;
    return h;
}

/* Full fast-lzma2 stream: property byte, LZMA2 data, optional big-endian XXH32. */
struct RefStream { RefInfo info; u8 prop = 0; bool hashPresent = false, hashOk = false; size_t total = 0; };
static inline RefStream refStream(const u8* s, size_t n) {
    RefStream R;
    if (!n) { R.info.st = RefInfo::TRUNC; R.info.why = "empty"; return R; }
    R.prop = s[0];
    if ((R.prop & 0x3F) > 40) { R.info.st = RefInfo::CORRUPT; R.info.why = "bad property"; return R; }
    R.info = refDecode(s + 1, n - 1, refDictSize(R.prop));
    if (R.info.st != RefInfo::OK) return R;
    R.total = 1 + R.info.consumed;
    if (R.prop & 0x80) {
        R.hashPresent = true;
        if (n - R.total < 4) { R.info.st = RefInfo::TRUNC; R.info.why = "short hash"; return R; }
        u32 h = (u32)s[R.total] << 24 | (u32)s[R.total + 1] << 16 | (u32)s[R.total + 2] << 8 | s[R.total + 3];
        R.total += 4;
        R.hashOk = h == refXXH32(R.info.out.data(), R.info.out.size());
        if (!R.hashOk) { R.info.st = RefInfo::CORRUPT; R.info.why = "bad hash"; }
    }
    return R;
}
