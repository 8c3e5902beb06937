#include "LESS.h"
#include "api.h"
#include "rng.h"
#include "seedtree.h"
#include <stdlib.h>
#include "core.h"
int ops_api(uint32_t op) {
    size_t n, k;
    switch (op) {
    case 10: {
        uint32_t v[] = { N, K, Q, SEED_LENGTH_BYTES, HASH_DIGEST_LENGTH, PRIVATE_KEY_SEED_LENGTH_BYTES, T, W, NUM_KEYPAIRS, SEED_TREE_MAX_PUBLISHED_BYTES,
            (uint32_t)NUM_LEAVES_OF_SEED_TREE, RREF_MAT_PACKEDBYTES, MONO_ACTION_PACKEDBYTES, (uint32_t)CRYPTO_SECRETKEYBYTES, (uint32_t)CRYPTO_PUBLICKEYBYTES, (uint32_t)CRYPTO_BYTES,
            LESS_CRYPTO_MAX_BYTES, LESS_CRYPTO_BYTES(0), LESS_CRYPTO_BYTES(1), sizeof(platform_csprng_state), (uint32_t)sizeof(sign_t) };
        w_blob(v, sizeof v); return 1; }
    case 11: { const uint8_t *s = r_blob(&n); poison_stack(); initialize_csprng(&platform_csprng_state, s, (uint32_t)n); return 1; }
    case 12: w_blob(&platform_csprng_state, sizeof platform_csprng_state); return 1;
    case 13: { const uint8_t *s = r_raw(&n); if (n == sizeof platform_csprng_state) memcpy(&platform_csprng_state, s, n); return 1; }
    case 14: { uint32_t c = r_u32(); uint8_t *o = g_alloc(c, 0x5a); randombytes(o, c); w_blob(o, c); return 1; }
    case 20: {   // keypair
        uint8_t *pk = g_alloc(CRYPTO_PUBLICKEYBYTES, 0x5a), *sk = g_alloc(CRYPTO_SECRETKEYBYTES, 0x5a);
        poison_stack(); int r = crypto_sign_keypair(pk, sk);
        w_u32((uint32_t)r); w_blob(pk, CRYPTO_PUBLICKEYBYTES); w_blob(sk, CRYPTO_SECRETKEYBYTES); return 1; }
    case 21: {   // sign: fill byte, sk, m -> ret, smlen lo/hi, whole buffer
        int fill = (int)r_u32(); const uint8_t *sk = r_blob(&k), *m = r_blob(&n);
        uint8_t *sm = g_alloc(n + CRYPTO_BYTES, fill); unsigned long long sl = 0xdeadbeefcafef00dULL;
        poison_stack(); int r = crypto_sign(sm, &sl, m, n, sk);
        w_u32((uint32_t)r); w_u32((uint32_t)sl); w_u32((uint32_t)(sl >> 32)); w_blob(sm, n + CRYPTO_BYTES); return 1; }
    case 22: {   // open: fill, sm, pk -> ret, mlen lo/hi, m buffer (smlen bytes)
        int fill = (int)r_u32(); const uint8_t *sm = r_blob(&n), *pk = r_blob(&k);
        uint8_t *m = g_alloc(n, fill); unsigned long long ml = 0xdeadbeefcafef00dULL;
        poison_stack(); int r = crypto_sign_open(m, &ml, sm, n, pk);
        w_u32((uint32_t)r); w_u32((uint32_t)ml); w_u32((uint32_t)(ml >> 32)); w_blob(m, n); return 1; }
    case 25: {   // the same verification again and again: n, sm, pk -> how often the result was not the first one
        uint32_t c = r_u32(), bad = 0; const uint8_t *sm = r_blob(&n), *pk = r_blob(&k);
        uint8_t *m = g_alloc(n, 0x5a); unsigned long long l0 = 0, l;
        int r0 = crypto_sign_open(m, &l0, sm, n, pk);
        for (uint32_t i = 0; i < c; i++) { l = l0; int r = crypto_sign_open(m, &l, sm, n, pk); bad += (r != r0 || (!r && l != l0)); }
        w_u32((uint32_t)r0); w_u32(bad); return 1; }
    }
    return 0;
}
