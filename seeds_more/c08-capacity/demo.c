#include "u.h"

int main(void)
{
    size_t n = 5000, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap + 16);
    u_text(a, n);
    FL2_CCtx* cctx = FL2_createCCtx();
    size_t r = FL2_compressCCtx(cctx, c, cap, a, n, 3);
    CHECK(!FL2_isError(r));
    for (size_t k = 2; k < r; ++k) {
        memset(c, 0xA5, cap + 16);
        size_t e = FL2_compressCCtx(cctx, c, k, a, n, 0);
        CHECK(FL2_isError(e));
        for (size_t i = k; i < k + 16 && i < cap + 16; ++i) CHECK(c[i] == 0xA5);
    }
    CHECK(FL2_compressCCtx(cctx, c, r, a, n, 0) == r);
    return 0;
}
