#include "parameters.h"
#include "fips202.h"
#include "rng.h"
#include "core.h"
static const uint8_t *chunk(const uint8_t *all, size_t off, size_t len) { uint8_t *p = g_alloc(len, 0); memcpy(p, all + off, len); g_protect(p, len); return p; }
int ops_hash(uint32_t op) {
    size_t n, ln;
    switch (op) {
    case 90: {   // one-shot: which, out length, input
        uint32_t w = r_u32(), ol = r_u32(); const uint8_t *m = r_blob(&n); uint8_t *o = g_alloc(ol, 0x5a); poison_stack();
        switch (w) { case 0: sha3_256(o, m, n); break; case 1: sha3_384(o, m, n); break; case 2: sha3_512(o, m, n); break; case 3: shake128(o, ol, m, n); break; case 4: shake256(o, ol, m, n); break; default: return 0; }
        w_blob(o, ol); return 1; }
    case 91: {   // incremental: which, out length, input, list of absorb lengths (u32), list of squeeze lengths
        uint32_t w = r_u32(), ol = r_u32(); const uint8_t *m = r_raw(&n); const uint8_t *ab = r_raw(&ln); size_t sn; const uint8_t *sq = r_raw(&sn);
        union { shake128incctx a; shake256incctx b; sha3_256incctx c; sha3_384incctx d; sha3_512incctx e; } s; memset(&s, poison_byte, sizeof s); poison_stack();
        uint8_t *o = g_alloc(ol, 0x5a); size_t off = 0;
        switch (w) { case 0: sha3_256_inc_init(&s.c); break; case 1: sha3_384_inc_init(&s.d); break; case 2: sha3_512_inc_init(&s.e); break; case 3: shake128_inc_init(&s.a); break; case 4: shake256_inc_init(&s.b); break; default: return 0; }
        REPEAT(i, ln / 4) { uint32_t c; memcpy(&c, ab + 4 * i, 4); const uint8_t *p = chunk(m, off, c); off += c;
            switch (w) { case 0: sha3_256_inc_absorb(&s.c, p, c); break; case 1: sha3_384_inc_absorb(&s.d, p, c); break; case 2: sha3_512_inc_absorb(&s.e, p, c); break; case 3: shake128_inc_absorb(&s.a, p, c); break; case 4: shake256_inc_absorb(&s.b, p, c); break; } }
        switch (w) { case 0: sha3_256_inc_finalize(o, &s.c); break; case 1: sha3_384_inc_finalize(o, &s.d); break; case 2: sha3_512_inc_finalize(o, &s.e); break; case 3: shake128_inc_finalize(&s.a); break; case 4: shake256_inc_finalize(&s.b); break; }
        if (w >= 3) { off = 0; REPEAT(i, sn / 4) { uint32_t c; memcpy(&c, sq + 4 * i, 4); uint8_t *q = g_alloc(c, 0x5a); if (w == 3) shake128_inc_squeeze(q, c, &s.a); else shake256_inc_squeeze(q, c, &s.b); memcpy(o + off, q, c); off += c; } }
        w_blob(o, ol); return 1; }
    case 92: {   // absorb once, squeeze whole blocks, several calls
        uint32_t w = r_u32(); const uint8_t *m = r_blob(&n); const uint8_t *bl = r_raw(&ln); union { shake128ctx a; shake256ctx b; } s; memset(&s, poison_byte, sizeof s); poison_stack();
        size_t rate = w == 3 ? SHAKE128_RATE : SHAKE256_RATE, tot = 0; REPEAT(i, ln) tot += bl[i];
        uint8_t *o = g_alloc(tot * rate, 0x5a); size_t off = 0;
        if (w == 3) shake128_absorb(&s.a, m, n); else shake256_absorb(&s.b, m, n);
        REPEAT(i, ln) { if (w == 3) shake128_squeezeblocks(o + off, bl[i], &s.a); else shake256_squeezeblocks(o + off, bl[i], &s.b); off += bl[i] * rate; }
        w_blob(o, tot * rate); return 1; }
    case 93: {   // the package's seeded stream: seed, list of read lengths
        const uint8_t *s = r_blob(&n); const uint8_t *sq = r_raw(&ln); SHAKE_STATE_STRUCT st; memset(&st, poison_byte, sizeof st); poison_stack();
        initialize_csprng(&st, s, (uint32_t)n); size_t tot = 0; REPEAT(i, ln / 4) { uint32_t c; memcpy(&c, sq + 4 * i, 4); tot += c; }
        uint8_t *o = w_space(tot); REPEAT(i, ln / 4) { uint32_t c; memcpy(&c, sq + 4 * i, 4); uint8_t *q = g_alloc(c, 0x5a); csprng_randombytes(q, c, &st); memcpy(o, q, c); o += c; }
        return 1; }
    }
    return 0;
}
