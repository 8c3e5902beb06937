// libFuzzer target: the input describes alterations of genuine signed messages, or is itself a signed message and key.
#include "LESS.h"
#include "api.h"
#include "rng.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#define NB 4
static uint8_t pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], *base[NB]; static size_t bl[NB];
static void init(void) {
    uint8_t s[48]; memset(s, 7, sizeof s); initialize_csprng(&platform_csprng_state, s, sizeof s);
    crypto_sign_keypair(pk, sk);
    for (int i = 0; i < NB; i++) {
        size_t n = (size_t)(i * 11); base[i] = calloc(1, n + CRYPTO_BYTES); uint8_t m[64] = { 1, 2, 3 }; unsigned long long l = 0;
        if (crypto_sign(base[i], &l, m, n, sk)) abort();
        bl[i] = l;
    }
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    static int ready; if (!ready) { init(); ready = 1; }
    if (n < 2) return 0;
    int mode = d[0] & 3, b = d[1] % NB; d += 2; n -= 2;
    uint8_t *p = malloc(sizeof pk), *sm; size_t l; memcpy(p, pk, sizeof pk); int touched = 0;
    if (mode == 0) { l = n; sm = malloc(l ? l : 1); memcpy(sm, d, l); touched = 1; }
    else if (mode == 1) {                    // key from the input, genuine signature
        l = bl[b]; sm = malloc(l); memcpy(sm, base[b], l); size_t k = n < sizeof pk ? n : sizeof pk; for (size_t i = 0; i < k; i++) { p[i] ^= d[i]; }
        touched = 0;
    } else {                                 // splices: (where, what, bytes)
        l = bl[b]; size_t cap = l + n + 64; sm = malloc(cap); memcpy(sm, base[b], l);
        while (n >= 4) {
            size_t at = (size_t)(d[0] | d[1] << 8); unsigned op = d[2], v = d[3]; d += 4; n -= 4;
            size_t pos = (op & 1) ? (at < l ? l - 1 - at : 0) : (l ? at % l : 0);
            switch ((op >> 1) & 7) {
            case 0: if (l) sm[pos] ^= (uint8_t)v; break;
            case 1: if (l) sm[pos] = (uint8_t)v; break;
            case 2: l = l > v ? l - v : 0; break;
            case 3: if (l < cap) sm[l++] = (uint8_t)v; break;
            case 4: { size_t k = n < v ? n : v; if (pos + k <= l) memcpy(sm + pos, d, k); d += k; n -= k; break; }
            case 5: if (l) memmove(sm + pos, sm + pos + 1, l - pos - 1), l--; break;
            case 6: if (l) sm[l - 1] = (uint8_t)v; break;
            default: p[(at * 7u + v) % sizeof pk] ^= (uint8_t)(1u << (v & 7)); break;
            }
        }
        uint8_t *t = malloc(l ? l : 1); memcpy(t, sm, l); free(sm); sm = t;   // exact size, so that any overrun is seen
    }
    uint8_t *m = malloc(l ? l : 1); unsigned long long ml = 0;
    int r = crypto_sign_open(m, &ml, sm, l, p);
    if (r == 0 && ml > l) { fprintf(stderr, "FORGERY: recovered length\n"); abort(); }
    (void)touched;
    free(m); free(sm); free(p); return 0;
}
