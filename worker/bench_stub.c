// Stand-ins for the scheme under the benchmark programs: each call takes the time the script says and is recorded.
// The programs' clock instruction is replaced in their assembly by a call of vp_tsc.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "LESS.h"
#include "rng.h"
unsigned long long vp_now;
unsigned long vp_reads;
__asm__(".text\n.globl vp_tsc\nvp_tsc:\n\tincq vp_reads(%rip)\n\tmovl vp_now(%rip), %eax\n\tmovl vp_now+4(%rip), %edx\n\txorl %ecx, %ecx\n\tret\n");
SHAKE_STATE_STRUCT platform_csprng_state;
static unsigned long long dur[4096]; static int nd, at, verdict;
static FILE *lg;
static unsigned keys, sigs;
static void took(char op, int good) {
    unsigned long long d = dur[at++ % nd];
    vp_now += d;
    fprintf(lg, "%c %llu %d\n", op, d, good);
}
__attribute__((constructor)) static void init(void) {
    setvbuf(stdout, NULL, _IONBF, 0);
    lg = fopen("bench.log", "w");
    FILE *f = fopen("bench.in", "r");
    if (!lg || !f || fscanf(f, "%llu %d", &vp_now, &verdict) != 2) exit(9);
    while (nd < 4096 && fscanf(f, "%llu", &dur[nd]) == 1) nd++;
    fclose(f);
    if (!nd) exit(9);
}
__attribute__((destructor)) static void fini(void) { fprintf(lg, "reads %lu\n", vp_reads); fclose(lg); }
static uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ x >> 32; }
static void fill(void *p, size_t n, uint64_t s) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)mix(s + i / 8) ^ (uint8_t)(i % 8); }
static int is(const void *p, size_t n, uint64_t s) { for (size_t i = 0; i < n; i++) if (((const uint8_t *)p)[i] != (uint8_t)((uint8_t)mix(s + i / 8) ^ (uint8_t)(i % 8))) return 0; return 1; }
#define SKS(k) (1ull << 40 | (uint64_t)(k) << 20)
#define PKS(k) (2ull << 40 | (uint64_t)(k) << 20)
static char mess[4096]; static uint64_t messlen;
void s_keygen(void *sk, void *pk) __asm__("LESS_keygen");
void s_keygen(void *sk, void *pk) { keys++; fill(sk, sizeof(prikey_t), SKS(keys)); fill(pk, sizeof(pubkey_t), PKS(keys)); took('k', 1); }
size_t s_sign(const void *sk, const char *m, uint64_t n, void *sig) __asm__("LESS_sign");
size_t s_sign(const void *sk, const char *m, uint64_t n, void *sig) {
    int g = keys && is(sk, sizeof(prikey_t), SKS(keys));
    messlen = n; memcpy(mess, m, n < sizeof mess ? n : sizeof mess);
    sigs++; fill(sig, sizeof(sign_t), 3ull << 40 | sigs); took('s', g);
    return 1;
}
int s_verify(const void *pk, const char *m, uint64_t n, const void *sig) __asm__("LESS_verify");
int s_verify(const void *pk, const char *m, uint64_t n, const void *sig) {
    int g = keys && sigs && is(pk, sizeof(pubkey_t), PKS(keys)) && is(sig, sizeof(sign_t), 3ull << 40 | sigs) && n == messlen && !memcmp(m, mess, n < sizeof mess ? n : sizeof mess);
    took('v', g);
    return g && verdict;
}
int s_rref(void *g, uint8_t *p) __asm__("generator_RREF");
int s_rref(void *g, uint8_t *p) { memset(p, 1, N); took('e', 1); return 1; }
void s_rnd(void *g) __asm__("generator_rnd");
void s_rnd(void *g) { memset(g, 1, sizeof(generator_mat_t)); took('o', 1); }
void s_init(void *s, const unsigned char *seed, uint32_t n) __asm__("initialize_csprng");
void s_init(void *s, const unsigned char *seed, uint32_t n) { took('o', 1); }
