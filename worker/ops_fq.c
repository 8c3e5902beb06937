#include "fq_arith.h"
#include "core.h"
int ops_fq(uint32_t op) {
    size_t n;
    switch (op) {
    case 30: { const uint8_t *x = r_raw(&n); uint8_t *o = w_space(n / 2); REPEAT(i, n / 2) { uint16_t v; memcpy(&v, x + 2 * i, 2); o[i] = fq_red(v); } return 1; }
    case 31: { const uint8_t *x = r_raw(&n); uint8_t *o = w_space(n); REPEAT(i, n) o[i] = fq_inv(x[i]); return 1; }
    case 32: case 33: {   // sample from a seeded stream: 32 = nonzero, 33 = full range; then 16 further stream bytes
        SHAKE_STATE_STRUCT st; const uint8_t *s = r_blob(&n); uint32_t c = r_u32();
        initialize_csprng(&st, s, (uint32_t)n); uint8_t *o = g_alloc(c, 0xee); poison_stack();
        if (op == 32) fq_star_rnd_state_elements(&st, o, c); else rand_range_q_state_elements(&st, o, c);
        uint8_t after[16]; csprng_randombytes(after, 16, &st); w_blob(o, c); w_blob(after, 16); return 1; }
    case 34: case 35: {   // the same from the global generator
        uint32_t c = r_u32(); uint8_t *o = g_alloc(c, 0xee); poison_stack();
        if (op == 34) fq_star_rnd_elements(o, c); else rand_range_q_elements(o, c);
        w_blob(o, c); return 1; }
    }
    return 0;
}
