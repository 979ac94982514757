extern "C" { char mc_lib_data0[64] __attribute__((aligned(64))) = {1}; char mc_lib_bss0[64] __attribute__((aligned(64))); }
