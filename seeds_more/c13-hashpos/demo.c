#include "u.h"

int main(void)
{
    size_t n = 5000, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    u_text(a, n);
    size_t r = FL2_compress(c, cap, a, n, 3);
    for (size_t cut = r - 4; cut <= r; ++cut) {
        FL2_DStream* ds = FL2_createDStream();
        FL2_initDStream(ds);
        FL2_inBuffer in = { c, cut, 0 };
        FL2_outBuffer out = { b, n, 0 };
        CHECK(!FL2_isError(FL2_decompressStream(ds, &out, &in)));
        FL2_initDStream(ds);
        in.pos = 0; in.size = r; out.pos = 0;
        size_t e = FL2_decompressStream(ds, &out, &in);
        CHECK(e == 0);
        CHECK(in.pos == r && out.pos == n && memcmp(a, b, n) == 0);
        FL2_freeDStream(ds);
    }
    return 0;
}
