#include "u.h"

#include <pthread.h>
#include <time.h>
static volatile int bad;
static time_t stop;
/* stored chunks of k bytes, a dictionary reset now and then, no hash */
static void* work(void* arg)
{
    size_t k = 1 + (size_t)arg, chunks = 60000, n = 0, m = 0;
    unsigned char* s = malloc(chunks * (k + 3) + 2), *d = malloc(chunks * k), *o = malloc(chunks * k);
    s[n++] = 10;
    for (size_t i = 0; i < chunks; ++i) {
        s[n++] = i % 20000 ? 2 : 1; s[n++] = 0; s[n++] = (unsigned char)(k - 1);
        for (size_t j = 0; j < k; ++j) s[n++] = d[m++] = (unsigned char)(i * 7 + j);
    }
    s[n++] = 0;
    FL2_DStream* ds = FL2_createDStreamMt(2);
    while (!bad && time(NULL) < stop) {
        FL2_inBuffer in = { s, n, 0 };
        FL2_outBuffer out = { o, m, 0 };
        size_t r;
        FL2_initDStream(ds);
        memset(o, 0, m);
        do r = FL2_decompressStream(ds, &out, &in); while (r == 1);
        if (r != 0 || out.pos != m || memcmp(o, d, m)) { bad = 1; printf("thread %u: %s\n", (unsigned)k, FL2_getErrorName(r)); }
    }
    FL2_freeDStream(ds);
    return NULL;
}
int main(void)
{
    pthread_t t[8];
    stop = time(NULL) + 10;
    for (size_t i = 0; i < 8; ++i) pthread_create(&t[i], NULL, work, (void*)i);
    for (size_t i = 0; i < 8; ++i) pthread_join(t[i], NULL);
    return bad;
}
