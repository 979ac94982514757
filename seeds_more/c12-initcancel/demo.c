#include "u.h"

#include <unistd.h>
int main(void)
{
    alarm(100);
    size_t n = (size_t)1 << 24, m = 40000, cap = FL2_compressBound(m);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(m), *s = malloc(m);
    u_text(a, n);
    u_text(s, m);
    FL2_CStream* cs = FL2_createCStreamMt(2, 0);
    FL2_CStream_setParameter(cs, FL2_p_compressionLevel, 1);
    FL2_CStream_setParameter(cs, FL2_p_dictionarySize, n);
    CHECK(!FL2_isError(FL2_setCStreamTimeout(cs, 1)));
    for (int k = 0; k < 60; ++k) {
        CHECK(!FL2_isError(FL2_initCStream(cs, 0)));
        FL2_inBuffer in = { a, n, 0 };
        size_t r = FL2_compressStream(cs, NULL, &in);
        CHECK(!FL2_isError(r) || FL2_isTimedOut(r));
        usleep(300 * k);
        FL2_cancelCStream(cs);
        CHECK(!FL2_isError(FL2_initCStream(cs, 0)));
        FL2_inBuffer in2 = { s, m, 0 };
        FL2_outBuffer out = { c, cap, 0 };
        r = FL2_compressStream(cs, &out, &in2);
        CHECK(!FL2_isError(r) && in2.pos == m);
        do { r = FL2_endStream(cs, &out); if (FL2_isTimedOut(r)) r = 1; CHECK(!FL2_isError(r)); } while (r != 0);
        CHECK(FL2_decompress(b, m, c, out.pos) == m);
        CHECK(memcmp(s, b, m) == 0);
    }
    return 0;
}
