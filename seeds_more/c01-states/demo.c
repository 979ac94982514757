#include "u.h"

int main(void)
{
    size_t n = 700000, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    for (int level = 1; level <= 6; ++level) {
        u_random(a, 200000);
        u_text(a + 200000, n - 200000);
        size_t r = FL2_compress(c, cap, a, n, level);
        CHECK(!FL2_isError(r));
        memset(b, 0, n);
        CHECK(FL2_decompress(b, n, c, r) == n);
        CHECK(memcmp(a, b, n) == 0);
    }
    return 0;
}
