#include "u.h"

int main(void)
{
    size_t n = 2000000, cap = FL2_compressBound(n);
    unsigned char *a = malloc(n), *c = malloc(cap), *b = malloc(n);
    u_text(a, n);
    FL2_CStream* cs = FL2_createCStreamMt(4, 0);
    FL2_CStream_setParameter(cs, FL2_p_dictionarySize, (size_t)1 << 22);
    CHECK(!FL2_isError(FL2_initCStream(cs, 0)));
    FL2_inBuffer in = { a, n, 0 };
    FL2_outBuffer out = { c, 100, 0 };
    CHECK(!FL2_isError(FL2_compressStream(cs, &out, &in)));
    CHECK(in.pos == n);
    size_t r = FL2_endStream(cs, &out);
    CHECK(!FL2_isError(r));
    size_t pos = out.pos;
    FL2_cBuffer cb;
    while ((r = FL2_getNextCompressedBuffer(cs, &cb)) != 0) { CHECK(!FL2_isError(r)); memcpy(c + pos, cb.src, cb.size); pos += cb.size; }
    CHECK(FL2_decompress(b, n, c, pos) == n);
    CHECK(memcmp(a, b, n) == 0);
    return 0;
}
