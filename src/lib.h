/* Common helpers on top of the library API: guarded buffers, decoder runners, stream building. */
#pragma once
#include "mc_case.h"
#include "refdec.h"
#include "refenc.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define MC_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define MC_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define MC_POISON(p, n) ((void)0)
#define MC_UNPOISON(p, n) ((void)0)
#endif
extern "C" {
#include "fast-lzma2.h"
#include "fl2_errors.h"
}
/* A buffer whose end touches an unmapped page, with canaries (and ASAN poison) before it. */
struct GuardBuf {
    u8* base = nullptr; size_t cap = 0, cur = 0; u8* p = nullptr; u8 can = 0;
    explicit GuardBuf(size_t c) {
        cap = (c + 4096 + 4095) & ~(size_t)4095;
        base = (u8*)mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) { perror("mmap"); _exit(3); }
        mprotect(base + cap, 4096, PROT_NONE);
        MC_POISON(base, cap);
    }
    ~GuardBuf() { MC_UNPOISON(base, cap); munmap(base, cap + 4096); }
    u8* get(size_t n, u8 fill = 0xCC) {
        if (n + 128 > cap) { fprintf(stderr, "guard buffer too small (%zu)\n", n); _exit(3); }
        if (p) MC_POISON(p, cur);
        p = base + cap - n; cur = n; can = (u8)(n * 7 + 0x5A);
        MC_UNPOISON(p - 64, n + 64);
        memset(p - 64, can, 64); memset(p, fill, n);
        MC_POISON(p - 64, 64); MC_UNPOISON(p, n);
        return p;
    }
    u8* put(const u8* d, size_t n) { u8* q = get(n); if (n) memcpy(q, d, n); return q; }
    void check(const char* what) {
        MC_UNPOISON(p - 64, 64);
        for (int i = -64; i < 0; ++i) if (p[i] != can) mcFail("%s: wrote before the start of its buffer", what);
        MC_POISON(p - 64, 64); MC_UNPOISON(p, cur);
    }
};
static const char* errName(size_t r) { return FL2_isError(r) ? FL2_getErrorName(r) : "ok"; }

struct DecRes {
    bool err = false; size_t code = 0; bool done = false; Bytes out; size_t consumed = 0; unsigned calls = 0;
    const char* str() const { return err ? FL2_getErrorName(code) : done ? "complete" : "needs more"; }
};
struct Decoders {
    GuardBuf src, dst, ob, ib;
    FL2_DCtx* ctx[9] = {}; FL2_DStream* str[9] = {};
    bool fresh = true;       /* a new context for every call */
    Decoders(size_t maxIn, size_t maxOut) : src(maxIn + 256), dst(maxOut + 256), ob(maxOut + 256), ib(maxIn + 256) {}
    /* one-shot; withProp: prop byte given through FL2_initDCtx */
    DecRes oneShot(const Bytes& s, size_t cap, unsigned threads, int initProp = -1) {
        DecRes r;
        if (fresh && ctx[threads]) { FL2_freeDCtx(ctx[threads]); ctx[threads] = nullptr; }
        if (!ctx[threads]) ctx[threads] = FL2_createDCtxMt(threads);
        u8* in = src.put(s.data(), s.size()); u8* o = dst.get(cap);
        if (initProp >= 0) { size_t e = FL2_initDCtx(ctx[threads], (u8)initProp); if (FL2_isError(e)) { r.err = true; r.code = e; return r; } }
        size_t c = FL2_decompressDCtx(ctx[threads], o, cap, in, s.size());
        r.err = FL2_isError(c); r.code = c; r.done = !r.err;
        dst.check("one-shot decompression"); src.check("source of one-shot decompression");
        if (s.size() && memcmp(in, s.data(), s.size())) mcFail("one-shot decompression modified its source");
        if (!r.err) { if (c > cap) mcFail("one-shot decompression returned %zu with capacity %zu", c, cap); r.out.assign(o, o + c); }
        return r;
    }
    /* streaming: input in pieces of inStep, output in pieces of outStep (0: everything at once).
     * maxOut bounds the total output accepted. */
    DecRes stream(const Bytes& s, unsigned threads, size_t inStep, size_t outStep, size_t maxOut, int initProp = -1, size_t memLimit = ~(size_t)0) {
        DecRes r;
        if (fresh && str[threads]) { FL2_freeDStream(str[threads]); str[threads] = nullptr; }
        if (!str[threads]) str[threads] = FL2_createDStreamMt(threads);
        FL2_DStream* d = str[threads];
        if (memLimit != ~(size_t)0) FL2_setDStreamMemoryLimitMt(d, memLimit);
        size_t e = initProp >= 0 ? FL2_initDStream_withProp(d, (u8)initProp) : FL2_initDStream(d);
        if (FL2_isError(e)) { r.err = true; r.code = e; return r; }
        size_t fed = 0; FL2_inBuffer in = {nullptr, 0, 0}; FL2_outBuffer out = {nullptr, 0, 0};
        unsigned idle = 0;
        if (!inStep) inStep = s.size() ? s.size() : 1;
        for (;;) {
            if (in.pos == in.size && fed < s.size()) {
                size_t n = std::min(inStep, s.size() - fed);
                in.src = ib.put(s.data() + fed, n); in.size = n; in.pos = 0; fed += n;
            }
            if (!out.dst || out.pos == out.size) {
                size_t n = outStep ? outStep : maxOut;
                out.dst = ob.get(n); out.size = n; out.pos = 0;
            }
            size_t ip = in.pos, op = out.pos;
            static u8 dummy; if (!in.src) in.src = &dummy;
            size_t c = FL2_decompressStream(d, &out, &in); ++r.calls;
            if (in.pos < ip || in.pos > in.size) mcFail("streaming decompression moved the input position from %zu to %zu (size %zu)", ip, in.pos, in.size);
            if (out.pos < op || out.pos > out.size) mcFail("streaming decompression moved the output position from %zu to %zu (size %zu)", op, out.pos, out.size);
            ob.check("streaming decompression");
            r.out.insert(r.out.end(), (u8*)out.dst + op, (u8*)out.dst + out.pos);
            r.consumed = fed - (in.size - in.pos);
            if (FL2_isError(c)) { r.err = true; r.code = c; return r; }
            if (c == 0) { r.done = true; return r; }
            if (c != 1) mcFail("streaming decompression returned %zu", c);
            if (r.out.size() > maxOut) { r.err = true; r.code = (size_t)-1; return r; }   /* caller gives up: more output than expected */
            if (in.pos == ip && out.pos == op) { if (++idle > 6 + threads * 2 && fed == s.size()) return r; } else idle = 0;
            if (r.calls > 64 + 8 * (s.size() + r.out.size())) mcFail("streaming decompression does not finish");
        }
    }
    ~Decoders() { for (int i = 0; i < 9; ++i) { if (ctx[i]) FL2_freeDCtx(ctx[i]); if (str[i]) FL2_freeDStream(str[i]); } }
};
static std::string hex(const Bytes& b, size_t max = 48) { std::string s; char t[4]; for (size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, 4, "%02x", b[i]); s += t; } if (b.size() > max) s += "..(" + std::to_string(b.size()) + ")"; return s; }
