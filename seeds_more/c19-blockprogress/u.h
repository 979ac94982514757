#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "fast-lzma2.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static uint32_t u_s = 12345;
static uint32_t u_rnd(void) { u_s ^= u_s << 13; u_s ^= u_s >> 17; u_s ^= u_s << 5; return u_s; }
static void u_random(unsigned char* p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)(u_rnd() >> 11); }
/* compressible: words of a small vocabulary */
static void u_text(unsigned char* p, size_t n)
{
    static char words[256][12]; static int have;
    if (!have) { have = 1; for (int i = 0; i < 256; ++i) { int l = 2 + u_rnd() % 9; for (int j = 0; j < l; ++j) words[i][j] = 'a' + u_rnd() % 26; words[i][l] = ' '; } }
    for (size_t i = 0; i < n;) for (const char* w = words[(u_rnd() >> 7) & 255]; *w && i < n; ++w) p[i++] = *w;
}
