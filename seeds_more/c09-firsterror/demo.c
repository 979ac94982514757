#include "u.h"

int main(void)
{
    size_t n = 8 << 20, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    u_text(a, n);
    for (size_t i = 0; i < n; i += 3) a[i] = (unsigned char)u_rnd();
    FL2_CCtx* cctx = FL2_createCCtx();
    FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, 1);
    FL2_CCtx_setParameter(cctx, FL2_p_dictionarySize, (size_t)1 << 20);
    FL2_CCtx_setParameter(cctx, FL2_p_resetInterval, 4);
    size_t r = FL2_compressCCtx(cctx, c, cap, a, n, 0);
    CHECK(!FL2_isError(r));
    /* find the second dictionary reset */
    size_t pos = 1, resets = 0;
    for (;;) {
        CHECK(pos < r && c[pos] != 0);
        if (c[pos] >= 0xE0 && ++resets == 2) break;
        if (c[pos] < 3) pos += 3 + (c[pos + 1] << 8) + c[pos + 2] + 1;
        else pos += 5 + (c[pos] >= 0xC0) + (c[pos + 3] << 8) + c[pos + 4] + 1;
    }
    memset(c + pos + 30, 0xFF, 2000);
    size_t first = 0;
    for (unsigned threads = 1; threads <= 4; ++threads) {
        FL2_DStream* ds = FL2_createDStreamMt(threads);
        FL2_initDStream(ds);
        FL2_outBuffer out = { b, n, 0 };
        FL2_inBuffer in = { c, r, 0 };
        size_t e;
        do e = FL2_decompressStream(ds, &out, &in); while (!FL2_isError(e) && e != 0);
        printf("%u threads: %s\n", threads, FL2_getErrorName(e));
        if (threads == 1) first = e;
        CHECK(FL2_isError(e) && FL2_getErrorCode(e) == FL2_getErrorCode(first));
        FL2_freeDStream(ds);
    }
    return 0;
}
