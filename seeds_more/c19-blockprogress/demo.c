#include "u.h"

int main(void)
{
    size_t n = 3000000, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    u_random(a, n);
    for (size_t i = 0; i < n; ++i) a[i] &= 0x3F;
    size_t r = FL2_compress(c, cap, a, n, 1);
    CHECK(!FL2_isError(r));
    FL2_DStream* ds = FL2_createDStreamMt(2);
    FL2_initDStream(ds);
    FL2_inBuffer in = { c, r, 0 };
    FL2_outBuffer out = { b, n, 0 };
    size_t e;
    do { e = FL2_decompressStream(ds, &out, &in); CHECK(!FL2_isError(e)); CHECK(FL2_getDStreamProgress(ds) <= n); } while (e != 0);
    CHECK(out.pos == n && memcmp(a, b, n) == 0);
    CHECK(FL2_getDStreamProgress(ds) == n);
    return 0;
}
