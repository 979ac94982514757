extern "C" { char mc_lib_data1[64] __attribute__((aligned(64))) = {1}; char mc_lib_bss1[64] __attribute__((aligned(64))); }
