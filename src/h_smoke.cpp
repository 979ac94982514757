#include "mc_case.h"
#include "refdec.h"
extern "C" {
#include "fast-lzma2.h"
#include "fl2_pool.h"
}
int main(int argc, char** argv) {
    mcInit(argc, argv);
    std::vector<uint8_t> in(5000), out(20000), dec(5000);
    for (size_t i = 0; i < in.size(); ++i) in[i] = (uint8_t)(i * i >> 5);
    for (int t = 1; t <= 3; ++t) {
        size_t r = FL2_compressMt(out.data(), out.size(), in.data(), in.size(), 6, t);
        printf("t %d r %zu %s\n", t, r, FL2_getErrorName(r));
        RefStream R = refStream(out.data(), r);
        printf("ref %d %s %zu\n", R.info.st, R.info.why, R.info.out.size());
        size_t d = FL2_decompressMt(dec.data(), dec.size(), out.data(), r, t);
        printf("d %zu same %d live %zu\n", d, dec == in, mc_alloc.live);
    }
    printf("threads %d\n", mc_live_threads());
    return mcFinish();
}
