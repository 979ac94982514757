#include "u.h"

#include <malloc.h>
static size_t cur, peak; static int on;
void* __real_malloc(size_t n); void __real_free(void* p);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (on && p) { cur += malloc_usable_size(p); if (cur > peak) peak = cur; } return p; }
void __wrap_free(void* p) { if (on && p) cur -= malloc_usable_size(p); __real_free(p); }
int main(void)
{
    size_t n = 8 << 20, cap = FL2_compressBound(n), limit = 6 << 20;
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    u_text(a, n);
    FL2_CCtx* cctx = FL2_createCCtx();
    FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, 1);
    FL2_CCtx_setParameter(cctx, FL2_p_resetInterval, 4);
    size_t r = FL2_compressCCtx(cctx, c, cap, a, n, 0);
    CHECK(!FL2_isError(r));
    on = 1;
    FL2_DStream* ds = FL2_createDStreamMt(4);
    FL2_setDStreamMemoryLimitMt(ds, limit);
    FL2_initDStream(ds);
    FL2_inBuffer in = { c, r, 0 };
    FL2_outBuffer out = { b, n, 0 };
    size_t e;
    do { e = FL2_decompressStream(ds, &out, &in); CHECK(!FL2_isError(e)); } while (e != 0);
    on = 0;
    CHECK(out.pos == n && memcmp(a, b, n) == 0);
    printf("peak %d, limit %d\n", (int)peak, (int)limit);
    CHECK(peak <= limit + (512 << 10));
    return 0;
}
