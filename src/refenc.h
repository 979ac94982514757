/* Token-level LZMA/LZMA2 encoder used to build arbitrary valid (and deliberately invalid) streams. */
#pragma once
#include "refdec.h"
#include <functional>

struct RefEnc {
    Bytes out;        /* LZMA2 stream without property byte */
    Bytes data;       /* content produced so far */
    u64 procd = 0;    /* since dictionary reset */
    std::function<u8(u64)> far; u64 farBase = 0;      /* content before `data`, by position, for streams too long to keep */
    unsigned lc = 3, lp = 0, pb = 2;
    u16 isMatch[12][16], isRep[12], isRepG0[12], isRepG1[12], isRepG2[12], isRep0Long[12][16];
    u16 posSlot[4][64], posSpec[128], align_[16];
    struct LenC { u16 choice, choice2, low[16][8], mid[16][8], high[256]; } lenC, repC;
    u16 lit[0x300 << 4];
    u32 rep[4]; unsigned state = 0;
    /* range coder */
    u64 low; u32 range; u8 cache; u64 cacheSize; Bytes rc;
    unsigned mode; size_t chunkStart;

    RefEnc() { initState(); }
    void initState() {
        auto f = [](u16* p, size_t c) { for (size_t i = 0; i < c; ++i) p[i] = 1024; };
        f(&isMatch[0][0], 192); f(isRep, 12); f(isRepG0, 12); f(isRepG1, 12); f(isRepG2, 12); f(&isRep0Long[0][0], 192);
        f(&posSlot[0][0], 256); f(posSpec, 128); f(align_, 16); f((u16*)&lenC, sizeof lenC / 2); f((u16*)&repC, sizeof repC / 2);
        f(lit, (size_t)0x300 << 4);
        rep[0] = rep[1] = rep[2] = rep[3] = 0; state = 0;
    }
    void shiftLow() {
        if ((u32)low < 0xFF000000u || (low >> 32)) {
            u8 c = cache;
            do { rc.push_back((u8)(c + (u8)(low >> 32))); c = 0xFF; } while (--cacheSize);
            cache = (u8)(low >> 24);
        }
        ++cacheSize; low = (u32)low << 8;
    }
    void bit(u16& p, unsigned b) {
        u32 bound = (range >> 11) * p;
        if (!b) { range = bound; p += (2048 - p) >> 5; } else { low += bound; range -= bound; p -= p >> 5; }
        while (range < (1u << 24)) { range <<= 8; shiftLow(); }
    }
    void direct(u32 v, unsigned n) { while (n--) { range >>= 1; if ((v >> n) & 1) low += range; while (range < (1u << 24)) { range <<= 8; shiftLow(); } } }
    void tree(u16* p, unsigned n, unsigned v) { unsigned m = 1; while (n--) { unsigned b = (v >> n) & 1; bit(p[m], b); m = m * 2 + b; } }
    void rtree(u16* p, unsigned n, unsigned v) { unsigned m = 1; for (unsigned i = 0; i < n; ++i) { unsigned b = (v >> i) & 1; bit(p[m], b); m = m * 2 + b; } }
    void encLen(LenC& c, unsigned l, unsigned ps) {
        if (l < 8) { bit(c.choice, 0); tree(c.low[ps], 3, l); }
        else if (l < 16) { bit(c.choice, 1); bit(c.choice2, 0); tree(c.mid[ps], 3, l - 8); }
        else { bit(c.choice, 1); bit(c.choice2, 1); tree(c.high, 8, l - 16); }
    }
    u8 back(u64 d) const { return d <= data.size() ? data[data.size() - d] : far && d <= data.size() + farBase ? far(farBase + data.size() - d) : 0; }
    unsigned ps() const { return (unsigned)(procd & ((1u << pb) - 1)); }
    void put(u8 b) { data.push_back(b); ++procd; }

    /* chunk control: mode 0 = nothing, 1 = state reset, 2 = +props, 3 = +dict */
    void begin(unsigned m) {
        mode = m;
        if (m == 3) procd = 0;
        if (m >= 1) initState();
        low = 0; range = 0xFFFFFFFFu; cache = 0; cacheSize = 1; rc.clear(); chunkStart = data.size();
    }
    void literal(u8 v) {
        bit(isMatch[state][ps()], 0);
        u8 prev = procd ? back(1) : 0;
        unsigned ls = (unsigned)(((procd & ((1u << lp) - 1)) << lc) + (prev >> (8 - lc)));
        u16* p = lit + (size_t)0x300 * ls;
        unsigned m = 1; int i = 7;
        if (state >= 7) {
            unsigned mb = back((u64)rep[0] + 1);
            for (; i >= 0;) {
                unsigned b = (mb >> i) & 1, c = (v >> i) & 1; --i;
                bit(p[((1 + b) << 8) + m], c); m = m * 2 + c;
                if (b != c) break;
            }
        }
        for (; i >= 0; --i) { unsigned c = (v >> i) & 1; bit(p[m], c); m = m * 2 + c; }
        put(v);
        state = state < 4 ? 0 : state < 10 ? state - 3 : state - 6;
    }
    void copy(unsigned len) { for (unsigned i = 0; i < len; ++i) put(back((u64)rep[0] + 1)); }
    void match(u64 dist, unsigned len) { /* dist 1-based */
        u32 d = (u32)(dist - 1);
        bit(isMatch[state][ps()], 1); bit(isRep[state], 0);
        encLen(lenC, len - 2, ps());
        state = state < 7 ? 7 : 10;
        unsigned ls = len - 2 < 3 ? len - 2 : 3;
        if (d < 4) tree(posSlot[ls], 6, d);
        else {
            unsigned hb = 31 - __builtin_clz(d), slot = hb * 2 + ((d >> (hb - 1)) & 1), nb = (slot >> 1) - 1;
            u32 base = (2 | (slot & 1)) << nb, red = d - base;
            tree(posSlot[ls], 6, slot);
            if (slot < 14) rtree(posSpec + base - slot, nb, red);
            else { direct(red >> 4, nb - 4); rtree(align_, 4, red & 15); }
        }
        rep[3] = rep[2]; rep[2] = rep[1]; rep[1] = rep[0]; rep[0] = d;
        copy(len);
    }
    void repMatch(unsigned i, unsigned len) {
        bit(isMatch[state][ps()], 1); bit(isRep[state], 1);
        if (i == 0) { bit(isRepG0[state], 0); bit(isRep0Long[state][ps()], 1); }
        else {
            bit(isRepG0[state], 1);
            if (i == 1) bit(isRepG1[state], 0); else { bit(isRepG1[state], 1); bit(isRepG2[state], i - 2); }
            u32 d = rep[i]; for (unsigned k = i; k; --k) rep[k] = rep[k - 1]; rep[0] = d;
        }
        encLen(repC, len - 2, ps());
        state = state < 7 ? 8 : 11;
        copy(len);
    }
    void shortRep() {
        bit(isMatch[state][ps()], 1); bit(isRep[state], 1); bit(isRepG0[state], 0); bit(isRep0Long[state][ps()], 0);
        state = state < 7 ? 9 : 11;
        copy(1);
    }
    /* finish the chunk; deltas allow corrupted headers */
    void end(int du = 0, int dp = 0) {
        for (int i = 0; i < 5; ++i) shiftLow();
        size_t u = data.size() - chunkStart - 1 + du, p = rc.size() - 1 + dp;
        out.push_back((u8)(0x80 | mode << 5 | (u >> 16)));
        out.push_back((u8)(u >> 8)); out.push_back((u8)u); out.push_back((u8)(p >> 8)); out.push_back((u8)p);
        if (mode >= 2) out.push_back((u8)((pb * 5 + lp) * 9 + lc));
        out.insert(out.end(), rc.begin(), rc.end());
    }
    size_t chunkUnpack() const { return data.size() - chunkStart; }
    void stored(const u8* p, size_t n, bool dictReset) {
        if (dictReset) procd = 0;
        out.push_back(dictReset ? 1 : 2); out.push_back((u8)((n - 1) >> 8)); out.push_back((u8)(n - 1));
        out.insert(out.end(), p, p + n);
        for (size_t i = 0; i < n; ++i) put(p[i]);
    }
    void eos() { out.push_back(0); }
    /* property byte + stream + optional hash */
    Bytes stream(u8 prop) const {
        Bytes r; r.push_back(prop); r.insert(r.end(), out.begin(), out.end());
        if (prop & 0x80) { u32 h = refXXH32(data.data(), data.size()); for (int i = 24; i >= 0; i -= 8) r.push_back((u8)(h >> i)); }
        return r;
    }
};
