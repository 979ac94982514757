#include "u.h"

static int count = -1, fail_at = -1;
void* __real_malloc(size_t n);
void* __wrap_malloc(size_t n) { if (count >= 0 && count++ == fail_at) return NULL; return __real_malloc(n); }
int main(void)
{
    size_t n = 600000, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    u_text(a, n);
    FL2_CCtx* cctx = FL2_createCCtx();
    FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, 1);
    FL2_CCtx_setParameter(cctx, FL2_p_resetInterval, 1);
    FL2_CCtx_setParameter(cctx, FL2_p_overlapFraction, 0);
    FL2_CCtx_setParameter(cctx, FL2_p_dictionarySize, (size_t)1 << 20);
    size_t r = FL2_compressCCtx(cctx, c, cap, a, n, 0);
    CHECK(!FL2_isError(r));
    for (fail_at = 0; fail_at < 12; ++fail_at) {
        count = -1;
        FL2_DStream* ds = FL2_createDStreamMt(2);
        FL2_initDStream(ds);
        FL2_inBuffer in = { c, r, 0 };
        FL2_outBuffer out = { b, n, 0 };
        size_t e;
        count = 0;
        do e = FL2_decompressStream(ds, &out, &in); while (!FL2_isError(e) && e != 0);
        count = -1;
        if (!FL2_isError(e)) CHECK(out.pos == n && memcmp(a, b, n) == 0);
        FL2_freeDStream(ds);
    }
    return 0;
}
