// Several threads verifying (and one of them signing) at the same time; results compared with those of one thread.
#include "LESS.h"
#include "api.h"
#include "rng.h"
#include <pthread.h>
#include <stdlib.h>
#include <stdatomic.h>
#include "core.h"
enum { JOBS_MAX = 16, THR_MAX = 16 };
typedef struct { int r; unsigned long long l; } res_t;
static struct { const uint8_t *sm, *pk; size_t n; res_t want; } jb[JOBS_MAX];
static int nj, iters; static atomic_int ready; static int nthr, bad, first; static res_t *got; // [thread][repetition][job]
static const uint8_t *s_sk, *s_m, *s_seed; static size_t s_n, s_seedn; static uint8_t *s_want; static unsigned long long s_len; static int s_on;
static res_t one(int j, uint8_t *m) {
    res_t o = { 0, 0 }; unsigned long long l = 0;
    memset(m, 0x5a, jb[j].n); o.r = crypto_sign_open(m, &l, jb[j].sm, jb[j].n, jb[j].pk);
    if (!o.r) { o.l = l; if (l > jb[j].n || memcmp(m, jb[j].sm, l)) o.r = 1000; }
    return o;
}
static void meet(void) { atomic_fetch_add(&ready, 1); while (atomic_load(&ready) < nthr) ; }
static void *thr(void *x) {
    int t = (int)(intptr_t)x; size_t mx = 1; for (int j = 0; j < nj; j++) if (jb[j].n > mx) mx = jb[j].n;
    uint8_t *m = malloc(mx);
    meet();
    for (int i = 0; i < iters; i++)
        for (int j = 0; j < nj; j++) { int q = (j + t * 3 + i * t) % nj; got[((size_t)t * iters + i) * nj + q] = one(q, m); }
    free(m); return NULL;
}
static unsigned long long sgn(uint8_t *sm) {
    unsigned long long l = 0;
    initialize_csprng(&platform_csprng_state, s_seed, (uint32_t)s_seedn);
    return crypto_sign(sm, &l, s_m, s_n, s_sk) ? 0 : l;
}
static uint8_t *s_got; static unsigned long long *s_gotl;
static void *signer(void *x) {
    (void)x;
    meet();
    for (int i = 0; i < iters; i++) s_gotl[i] = sgn(s_got + (size_t)i * (s_n + CRYPTO_BYTES));
    return NULL;
}
static void alone(uint8_t *m) {
    for (int j = 0; j < nj; j++) jb[j].want = one(j, m);
    if (s_on) s_len = sgn(s_want);
}
int ops_thr(uint32_t op) {
    size_t k;
    if (op != 190) return 0;
    // threads, repetitions, sign too? (2: nothing is called before the threads start), [seed, sk, m], jobs (sm, pk)... -> mismatches, which job, sequential verdicts
    nthr = (int)r_u32(); iters = (int)r_u32(); s_on = (int)r_u32(); int cold = s_on & 2; s_on &= 1;
    if (nthr > THR_MAX) nthr = THR_MAX;
    if (s_on) { s_seed = r_blob(&s_seedn); s_sk = r_blob(&k); s_m = r_blob(&s_n); }
    for (nj = 0; r_left() && nj < JOBS_MAX; nj++) { jb[nj].sm = r_blob(&jb[nj].n); jb[nj].pk = r_blob(&k); }
    size_t mx = 1; for (int j = 0; j < nj; j++) if (jb[j].n > mx) mx = jb[j].n;
    uint8_t *m = malloc(mx);
    got = calloc((size_t)nthr * iters * nj, sizeof *got);
    if (s_on) { s_want = malloc(s_n + CRYPTO_BYTES); s_got = malloc((size_t)iters * (s_n + CRYPTO_BYTES)); s_gotl = calloc(iters, sizeof *s_gotl); }
    if (!cold) alone(m);
    atomic_store(&ready, 0); bad = 0; first = -1;
    pthread_t id[THR_MAX]; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64u << 20);
    int up = 0;
    for (int t = 0; t < nthr; t++) up += !pthread_create(&id[t], &a, s_on && t == 0 ? signer : thr, (void *)(intptr_t)t);
    if (up != nthr) abort();
    for (int t = 0; t < nthr; t++) pthread_join(id[t], NULL);
    if (cold) alone(m);
    for (int t = s_on ? 1 : 0; t < nthr; t++) for (int i = 0; i < iters; i++) for (int j = 0; j < nj; j++) {
        res_t o = got[((size_t)t * iters + i) * nj + j]; if (o.r != jb[j].want.r || o.l != jb[j].want.l) { bad++; first = j; } }
    if (s_on) for (int i = 0; i < iters; i++) if (s_gotl[i] != s_len || memcmp(s_got + (size_t)i * (s_n + CRYPTO_BYTES), s_want, s_len)) { bad++; first = 99; }
    for (int j = 0; j < nj; j++) { res_t o = one(j, m); if (o.r != jb[j].want.r || o.l != jb[j].want.l) { bad++; first = j; } }
    free(m); free(got); if (s_on) { free(s_want); free(s_got); free(s_gotl); }
    w_u32((uint32_t)bad); w_u32((uint32_t)first); w_u32((uint32_t)s_len);
    for (int j = 0; j < nj; j++) w_u32((uint32_t)jb[j].want.r);
    return 1;
}
