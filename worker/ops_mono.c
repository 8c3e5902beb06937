#include "monomial_mat.h"
#include "core.h"
// wire: N coefficient bytes, N u16 positions (actions: K of each). Structure padding gets the poison byte.
static void rm(monomial_t *m) {
    size_t n; const uint8_t *c = r_raw(&n); const uint8_t *p = r_raw(&n);
    memset(m, poison_byte, sizeof *m);
    REPEAT(i, N) { uint16_t v; memcpy(&v, p + 2 * i, 2); m->coefficients[i] = c[i]; m->permutation[i] = (POSITION_T)v; }
}
static void ra(monomial_action_IS_t *m) {
    size_t n; const uint8_t *c = r_raw(&n); const uint8_t *p = r_raw(&n);
    memset(m, poison_byte, sizeof *m);
    REPEAT(i, K) { uint16_t v; memcpy(&v, p + 2 * i, 2); m->coefficients[i] = c[i]; m->permutation[i] = (POSITION_T)v; }
}
static void wm(const monomial_t *m) { uint8_t *c = w_space(N); REPEAT(i, N) c[i] = m->coefficients[i]; uint8_t *p = w_space(2 * N); REPEAT(i, N) { uint16_t v = m->permutation[i]; memcpy(p + 2 * i, &v, 2); } }
static void wa(const monomial_action_IS_t *m) { uint8_t *c = w_space(K); REPEAT(i, K) c[i] = m->coefficients[i]; uint8_t *p = w_space(2 * K); REPEAT(i, K) { uint16_t v = m->permutation[i]; memcpy(p + 2 * i, &v, 2); } }
int ops_mono(uint32_t op) {
    static monomial_t a, b, o; static monomial_action_IS_t x, y; size_t n;
    memset(&o, poison_byte, sizeof o); memset(&y, poison_byte, sizeof y);
    switch (op) {
    case 50: { const uint8_t *s = r_blob(&n), *t = r_blob(&n); uint32_t i = r_u32(); poison_stack(); monomial_mat_seed_expand_salt_rnd(&o, s, t, (uint16_t)i); wm(&o); return 1; }
    case 51: { const uint8_t *s = r_blob(&n); poison_stack(); monomial_mat_seed_expand_prikey(&o, s); wm(&o); return 1; }
    case 52: rm(&a); rm(&b); poison_stack(); monomial_mat_mul(&o, &a, &b); wm(&o); return 1;
    case 53: rm(&a); poison_stack(); monomial_mat_inv(&o, &a); wm(&o); return 1;
    case 54: poison_stack(); monomial_mat_id(&o); wm(&o); return 1;
    case 55: rm(&a); ra(&x); poison_stack(); monomial_compose_action(&y, &a, &x); wa(&y); return 1;
    case 56: { ra(&x); uint8_t *c = g_alloc(MONO_ACTION_PACKEDBYTES, poison_byte); poison_stack(); compress_monom_action(c, &x); w_blob(c, MONO_ACTION_PACKEDBYTES); return 1; }
    case 57: { const uint8_t *c = r_blob(&n); poison_stack(); expand_to_monom_action(&y, c); wa(&y); return 1; }
    case 58: { ra(&x); poison_stack(); w_u32((uint32_t)!!is_monom_action_valid(&x)); return 1; }
    case 59: poison_stack(); monomial_mat_rnd(&o); wm(&o); return 1;
    case 49: { const uint8_t *c = r_blob(&n); poison_stack(); expand_to_monom_action(&y, c); w_u32((uint32_t)!!is_monom_action_valid(&y)); return 1; }
    }
    return 0;
}
