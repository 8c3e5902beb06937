#include "codes.h"
#include "core.h"
// wire: K x N (or K x (N-K)) row-major bytes. Structure padding gets the poison byte.
static void rg(generator_mat_t *g) { size_t n; const uint8_t *p = r_raw(&n); memset(g, poison_byte, sizeof *g); REPEAT(i, K) REPEAT(j, N) g->values[i][j] = p[i * N + j]; }
static void wg(const generator_mat_t *g) { uint8_t *p = w_space((size_t)K * N); REPEAT(i, K) REPEAT(j, N) p[i * N + j] = g->values[i][j]; }
static void rv(normalized_IS_t *g) { size_t n; const uint8_t *p = r_raw(&n); memset(g, poison_byte, sizeof *g); REPEAT(i, K) REPEAT(j, N - K) g->values[i][j] = p[i * (N - K) + j]; }
static void wv(const normalized_IS_t *g) { uint8_t *p = w_space((size_t)K * (N - K)); REPEAT(i, K) REPEAT(j, N - K) p[i * (N - K) + j] = g->values[i][j]; }
static void rm(monomial_t *m) {
    size_t n; const uint8_t *c = r_raw(&n); const uint8_t *p = r_raw(&n);
    memset(m, poison_byte, sizeof *m);
    REPEAT(i, N) { uint16_t v; memcpy(&v, p + 2 * i, 2); m->coefficients[i] = c[i]; m->permutation[i] = (POSITION_T)v; }
}
static void ra(monomial_action_IS_t *m) {
    size_t n; const uint8_t *c = r_raw(&n); const uint8_t *p = r_raw(&n);
    memset(m, poison_byte, sizeof *m);
    REPEAT(i, K) { uint16_t v; memcpy(&v, p + 2 * i, 2); m->coefficients[i] = c[i]; m->permutation[i] = (POSITION_T)v; }
}
static void wa(const monomial_action_IS_t *m) { uint8_t *c = w_space(K); REPEAT(i, K) c[i] = m->coefficients[i]; uint8_t *p = w_space(2 * K); REPEAT(i, K) { uint16_t v = m->permutation[i]; memcpy(p + 2 * i, &v, 2); } }
static uint8_t piv[2 * N + 256];
static void rp(void) { size_t n; const uint8_t *p = r_raw(&n); memset(piv, 0, sizeof piv); memcpy(piv, p, N); }
int ops_code(uint32_t op) {
    static __attribute__((aligned(64))) generator_mat_t g, h; static __attribute__((aligned(64))) rref_generator_mat_t c; static __attribute__((aligned(64))) normalized_IS_t v;
    static __attribute__((aligned(64))) monomial_t m; static __attribute__((aligned(64))) monomial_action_IS_t a; size_t n;
    memset(&h, poison_byte, sizeof h); memset(&c, poison_byte, sizeof c);
    switch (op) {
    case 60: rg(&g); rm(&m); poison_stack(); generator_monomial_mul(&h, &g, &m); wg(&h); return 1;
    case 61: { rg(&g); memset(piv, 0, sizeof piv); poison_stack(); int r = generator_RREF(&g, piv); w_u32((uint32_t)r); wg(&g); w_blob(piv, N); return 1; }
    case 62: {   // normalise the listed columns of G into consecutive columns of V
        rg(&g); memset(&v, poison_byte, sizeof v); const uint8_t *l = r_raw(&n); poison_stack();
        REPEAT(i, n / 2) { uint16_t col; memcpy(&col, l + 2 * i, 2); lex_minimize(&v, (POSITION_T)i, &g, (POSITION_T)col); }
        wv(&v); return 1; }
    case 63: rv(&v); poison_stack(); lex_sort_cols(&v); wv(&v); return 1;
    case 64: rg(&g); rm(&m); memset(&v, poison_byte, sizeof v); memset(&a, poison_byte, sizeof a); poison_stack(); prepare_digest_input(&v, &a, &g, &m); wv(&v); wa(&a); return 1;
    case 65: rg(&g); ra(&a); poison_stack(); apply_action_to_G(&h, &g, &a); wg(&h); return 1;
    case 66: rg(&g); rp(); poison_stack(); generator_rref_compact(&c, &g, piv); generator_rref_expand(&h, &c); wg(&h);
             { uint8_t *p = w_space((size_t)K * (N - K)); REPEAT(i, K) REPEAT(j, N - K) p[i * (N - K) + j] = c.values[i][j]; uint8_t *q = w_space(2 * (N - K)); REPEAT(i, N - K) { uint16_t x = c.column_pos[i]; memcpy(q + 2 * i, &x, 2); } }
             return 1;
    case 67: { rg(&g); rp(); uint8_t *o = g_alloc(RREF_MAT_PACKEDBYTES, poison_byte); poison_stack(); compress_rref(o, &g, piv); w_blob(o, RREF_MAT_PACKEDBYTES); return 1; }
    case 68: { const uint8_t *p = r_blob(&n); poison_stack(); expand_to_rref(&h, p); wg(&h); return 1; }
    case 69: { const uint8_t *p = r_blob(&n); poison_stack(); generator_SF_seed_expand(&c, p); generator_rref_expand(&h, &c); wg(&h); return 1; }
    case 59 + 100: poison_stack(); generator_rnd(&h); wg(&h); return 1;
    case 161: {   // what a verifier computes for a challenged round
        rg(&g); ra(&a); poison_stack(); memset(&h, 0, sizeof h); apply_action_to_G(&h, &g, &a); memset(piv, 0, sizeof piv);
        int r = generator_RREF(&h, piv); w_u32((uint32_t)r); if (!r) return 1;
        memset(&v, poison_byte, sizeof v); int k = 0; for (int j = 0; j < N; j++) if (!piv[j] && k < N - K) lex_minimize(&v, (POSITION_T)k++, &h, (POSITION_T)j);
        lex_sort_cols(&v); wv(&v); return 1; }
    }
    return 0;
}
