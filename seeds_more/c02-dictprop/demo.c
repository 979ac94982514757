#include "u.h"

int main(void)
{
    size_t n = ((size_t)3 << 19) + 64, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap);
    u_random(a, n);
    memcpy(a + n - 60, a, 60);
    FL2_CCtx* cctx = FL2_createCCtx();
    FL2_CCtx_setParameter(cctx, FL2_p_dictionarySize, (size_t)1 << 21);
    size_t r = FL2_compressCCtx(cctx, c, cap, a, n, 0);
    CHECK(!FL2_isError(r));
    CHECK(FL2_getDictSizeFromProp(c[0]) >= n);
    return 0;
}
