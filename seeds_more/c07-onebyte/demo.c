#include "u.h"

int main(void)
{
    unsigned char a[3000], c[6000], b[3000];
    u_text(a, sizeof a);
    FL2_CStream* cs = FL2_createCStream();
    CHECK(!FL2_isError(FL2_initCStream(cs, 1)));
    FL2_outBuffer out = { c, sizeof c, 0 };
    FL2_DStream* ds = FL2_createDStream();
    FL2_initDStream(ds);
    FL2_outBuffer dout = { b, sizeof b, 0 };
    size_t pos = 0, dpos = 0, sizes[] = { 1000, 1, 500, 1, 1, 700 };
    for (int i = 0; i < 6; ++i) {
        FL2_inBuffer in = { a + pos, sizes[i], 0 };
        CHECK(!FL2_isError(FL2_compressStream(cs, &out, &in)));
        CHECK(in.pos == in.size);
        CHECK(FL2_flushStream(cs, &out) == 0);
        pos += sizes[i];
        FL2_inBuffer din = { c + dpos, out.pos - dpos, 0 };
        CHECK(!FL2_isError(FL2_decompressStream(ds, &dout, &din)));
        dpos += din.pos;
        CHECK(dout.pos == pos && memcmp(a, b, pos) == 0);
    }
    return 0;
}
