// The NIST generator and seed expander, driven by binary commands on standard input.
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include KAT_SRC
static int get(void *p, size_t n) { return fread(p, 1, n, stdin) == n; }
static uint64_t num(void) { uint64_t v = 0; if (!get(&v, 8)) exit(3); return v; }
static unsigned char *room(size_t n) { unsigned char *p = malloc(n + 32); if (!p) exit(4); memset(p, 0xC7, n + 32); return p + 16; }
static void out(int32_t r, unsigned char *p, size_t n) {
    for (int i = 0; i < 16; i++) if (p[-1 - i] != 0xC7 || p[n + i] != 0xC7) exit(5);
    fwrite(&r, 1, 4, stdout); fwrite(p, 1, n, stdout); free(p - 16);
}
extern KAT_NIST_AES256_CTR_DRBG_struct DRBG_ctx;
int main(void) {
    int c; unsigned char a[64], b[64]; KAT_NIST_AES_XOF_struct x; memset(&x, 0x5a, sizeof x);
    while ((c = getchar()) != EOF) {
        if (c == 'I') { int p = (int)num(); if (!get(a, 48) || !get(b, 48)) return 3; KAT_NIST_randombytes_init(a, p ? b : NULL, 256); }
        else if (c == 'V') { if (!get(DRBG_ctx.Key, 32) || !get(DRBG_ctx.V, 16)) return 3; }
        else if (c == 'R') { size_t n = num(); unsigned char *p = room(n); int r = KAT_NIST_randombytes(p, n); out(r, p, n); }
        else if (c == 'U') { int p = (int)num(); if (!get(a, 48) || !get(b, 48)) return 3; unsigned char *k = room(32), *v = room(16); memcpy(k, b, 32); memcpy(v, b + 32, 16);
            KAT_NIST_AES256_CTR_DRBG_Update(p ? a : NULL, k, v); out(0, k, 32); out(0, v, 16); }
        else if (c == 'S') { unsigned long m = num(); if (!get(a, 32) || !get(b, 8)) return 3; int32_t r = KAT_NIST_seedexpander_init(&x, a, b, m); fwrite(&r, 1, 4, stdout); }
        else if (c == 'X') { size_t n = num(); unsigned char *p = room(n); int r = KAT_NIST_seedexpander(&x, p, n); out(r, p, n); }
        else if (c == 'N') { int32_t r = KAT_NIST_seedexpander(&x, NULL, num()); fwrite(&r, 1, 4, stdout); }
        else return 3;
    }
    return 0;
}
