#include "u.h"

int main(void)
{
    size_t n = 5000, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    u_text(a, n);
    size_t r = FL2_compress(c, cap, a, n, 3);
    CHECK(FL2_decompress(b, n, c, r) == n);
    static const unsigned char v[] = { 0, 0xFF, 0x55, 1 };
    for (int k = 0; k < 4; ++k) {
        memset(c + r - 4, v[k], 4);
        CHECK(FL2_isError(FL2_decompress(b, n, c, r)));
    }
    return 0;
}
