
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "fl2_threading.h"
/* a late wait widens the window between the test and the wait */
static int late_wait(pthread_cond_t* c, pthread_mutex_t* m) { usleep(100000); return pthread_cond_wait(c, m); }
#undef FL2_pthread_cond_wait
#define FL2_pthread_cond_wait(c, m) late_wait(c, m)
#include "fl2_pool.c"
int main(void)
{
    alarm(30);                                  /* a lost wake-up hangs */
    for (int i = 0; i < 10; ++i) {
        FL2POOL_ctx* p = FL2POOL_create(1);
        if (!p) return 2;
        usleep(20000);
        FL2POOL_free(p);
    }
    return 0;
}
