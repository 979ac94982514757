#include "u.h"

#include <pthread.h>
#include <time.h>
static volatile int bad;
static time_t stop;
static void* work(void* arg)
{
    unsigned char in[64], out[2][256];
    size_t len[2] = { 0, 0 };
    memset(in, (int)(size_t)arg + 'a', sizeof in);
    FL2_CStream* cs = FL2_createCStreamMt(1, 0);
    FL2_CStream_setParameter(cs, FL2_p_dictionarySize, 1 << 20);
    for (unsigned i = 0; !bad && ((i & 255) || time(NULL) < stop); ++i) {
        int k = i > 0;
        FL2_inBuffer ib = { in, 8, 0 };
        FL2_outBuffer ob = { out[k], sizeof out[k], 0 };
        FL2_initCStream(cs, 0);
        if (FL2_isError(FL2_compressStream(cs, &ob, &ib)) || FL2_endStream(cs, &ob) != 0) bad = 2;
        len[k] = ob.pos;
        if (k && (len[0] != len[1] || memcmp(out[0], out[1], len[0]))) bad = 1;
    }
    FL2_freeCStream(cs);
    return NULL;
}
int main(void)
{
    pthread_t t[8];
    stop = time(NULL) + 12;
    for (size_t i = 0; i < 8; ++i) pthread_create(&t[i], NULL, work, (void*)i);
    for (size_t i = 0; i < 8; ++i) pthread_join(t[i], NULL);
    if (bad) printf("a stream differs from the first stream of the same data\n");
    return bad;
}
