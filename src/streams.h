/* A set of small valid streams that covers the chunk and symbol kinds. */
#pragma once
#include "lib.h"
#include <functional>
static void setProps(RefEnc& e, int lc, int lp, int pb) { e.lc = lc; e.lp = lp; e.pb = pb; }
static std::vector<std::pair<std::string, Bytes>> bases(bool longer) {
    std::vector<std::pair<std::string, Bytes>> r;
    auto add = [&](const char* n, const std::function<void(RefEnc&)>& g, u8 prop) { RefEnc e; setProps(e, 3, 0, 2); g(e); e.eos(); r.push_back({n, e.stream(prop)}); };
    add("empty", [](RefEnc&) {}, 0);
    add("empty+hash", [](RefEnc&) {}, 0x80);
    add("stored", [](RefEnc& e) { e.stored((const u8*)"hello", 5, true); }, 0);
    add("lzma", [](RefEnc& e) { e.begin(3); for (char c : std::string("abcab")) e.literal((u8)c); e.match(3, 4); e.shortRep(); e.end(); }, 0);
    add("lzma+hash", [](RefEnc& e) { e.begin(3); e.literal('q'); e.match(1, 30); e.literal('r'); e.repMatch(0, 5); e.end(); }, 0x80);
    add("stored,lzma", [](RefEnc& e) { e.stored((const u8*)"xyzw", 4, true); e.begin(2); e.match(4, 6); e.literal('!'); e.repMatch(0, 2); e.end(); }, 1);
    add("two blocks", [](RefEnc& e) { e.begin(3); e.literal('a'); e.match(1, 12); e.end(); e.begin(3); e.literal('b'); e.literal('c'); e.match(2, 9); e.end(); }, 0x80);
    add("lzma x4 modes", [](RefEnc& e) { e.begin(3); e.literal('a'); e.literal('b'); e.end(); e.begin(0); e.match(2, 5); e.end(); e.begin(1); e.literal('c'); e.match(3, 3); e.end(); setProps(e, 0, 2, 0); e.begin(2); e.literal('d'); e.match(1, 7); e.end(); }, 0);
    add("lzma,stored,lzma", [](RefEnc& e) { e.begin(3); e.literal('a'); e.match(1, 4); e.end(); e.stored((const u8*)"mnop", 4, false); e.begin(0); e.match(3, 3); e.end(); }, 2);
    if (longer) {
        add("long", [](RefEnc& e) { e.begin(3); u32 x = 5; for (int i = 0; i < 60; ++i) { x = x * 1664525 + 1013904223; e.literal((u8)(x >> 25)); if (i % 7 == 6) e.match(1 + (x >> 8) % e.procd, 2 + (x >> 16) % 20); } e.end(); }, 0x80);
        add("three blocks", [](RefEnc& e) { for (int b = 0; b < 3; ++b) { if (b == 1) e.stored((const u8*)"stored data, block two", 22, true); else { e.begin(3); for (int i = 0; i < 12; ++i) e.literal((u8)(i * 41)); e.match(7, 30); e.end(); } } }, 3);
        add("five blocks", [](RefEnc& e) { for (int b = 0; b < 5; ++b) { e.begin(3); e.literal((u8)(b * 41)); e.match(1, 3 + b); if (b == 3) { e.end(); e.begin(0); e.literal(9); } e.end(); } }, 0x80);
        add("dist 4096", [](RefEnc& e) { Bytes h(4100, 3); e.stored(h.data(), h.size(), true); e.begin(2); e.match(4096, 8); e.match(1, 2); e.end(); }, 0);
    }
    return r;
}
