#include "u.h"

int main(void)
{
    size_t n = 5500000, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    u_text(a, n);
    FL2_CStream* cs = FL2_createCStreamMt(1, 0);
    FL2_CStream_setParameter(cs, FL2_p_compressionLevel, 8);
    FL2_CStream_setParameter(cs, FL2_p_dictionarySize, (size_t)1 << 20);
    FL2_CStream_setParameter(cs, FL2_p_overlapFraction, 0);
    CHECK(!FL2_isError(FL2_setCStreamTimeout(cs, 1)));
    CHECK(!FL2_isError(FL2_initCStream(cs, 0)));
    FL2_inBuffer in = { a, n, 0 };
    FL2_outBuffer out = { c, cap, 0 };
    size_t r;
    do { r = FL2_compressStream(cs, &out, &in); while (FL2_isTimedOut(r)) r = FL2_waitCStream(cs); CHECK(!FL2_isError(r)); } while (in.pos < n);
    do { r = FL2_endStream(cs, &out); while (FL2_isTimedOut(r)) { r = FL2_waitCStream(cs); if (!FL2_isTimedOut(r)) { CHECK(!FL2_isError(r)); r = 1; break; } } CHECK(!FL2_isError(r)); } while (r != 0);
    CHECK(FL2_decompress(b, n, c, out.pos) == n);
    CHECK(memcmp(a, b, n) == 0);
    return 0;
}
