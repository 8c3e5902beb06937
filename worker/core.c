#define _GNU_SOURCE
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <pthread.h>
#include <errno.h>

int guard_mode, poison_byte;
int forced_on, forced_hits; uint8_t forced_chal[4096];
static uint8_t *req; static size_t req_n, req_pos, req_cap;
static uint8_t *rep; static size_t rep_n, rep_cap;
enum { G_MAX = 6000 };
static struct { uint8_t *base; size_t total; uint8_t *p; size_t n, inner; } g[G_MAX]; static int gn;

static void die(const char *m) { fprintf(stderr, "worker: %s\n", m); _exit(97); }
size_t r_left(void) { return req_n - req_pos; }
uint32_t r_u32(void) { uint32_t v; if (r_left() < 4) die("short request"); memcpy(&v, req + req_pos, 4); req_pos += 4; return v; }
const uint8_t *r_raw(size_t *n) { uint32_t k = r_u32(); if (r_left() < k) die("short blob"); const uint8_t *p = req + req_pos; req_pos += k; if (n) *n = k; return p; }
uint8_t *g_alloc(size_t n, int fill) {
    size_t pg = 4096, shift = (size_t)guard_mode >> 1, inner = (n + shift + pg - 1) / pg * pg; if (!inner) inner = pg;
    size_t total = inner + 2 * pg;
    if (gn == G_MAX) die("too many guarded buffers");
    uint8_t *b = mmap(NULL, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) die("mmap");
    memset(b + pg, 0xC7, inner);
    mprotect(b, pg, PROT_NONE); mprotect(b + pg + inner, pg, PROT_NONE);
    uint8_t *p = guard_mode & 1 ? b + pg + shift : b + pg + inner - n - shift;
    memset(p, fill, n);
    g[gn].base = b; g[gn].total = total; g[gn].p = p; g[gn].n = n; g[gn].inner = inner; gn++;
    return p;
}
int g_intact(void) {
    for (int i = 0; i < gn; i++) { uint8_t *a = g[i].base + 4096, *e = a + g[i].inner;
        for (uint8_t *q = a; q < e; q++) { if (q == g[i].p) q += g[i].n; if (q >= e) break; if (*q != 0xC7) return 0; } }
    return 1;
}
void g_protect(void *p, size_t n) { (void)n; for (int i = 0; i < gn; i++) if (g[i].p == p) mprotect(g[i].base + 4096, g[i].inner, PROT_READ); }
const uint8_t *r_blob(size_t *n) { size_t k; const uint8_t *s = r_raw(&k); uint8_t *p = g_alloc(k, 0); memcpy(p, s, k); g_protect(p, k); if (n) *n = k; return p; }
uint8_t *w_space(size_t n) {
    size_t need = rep_n + 4 + n;
    if (need > rep_cap) { rep_cap = need * 2; rep = realloc(rep, rep_cap); if (!rep) die("oom"); }
    uint32_t k = (uint32_t)n; memcpy(rep + rep_n, &k, 4); uint8_t *p = rep + rep_n + 4; rep_n = need; return p;
}
void w_blob(const void *p, size_t n) { memcpy(w_space(n), p, n); }
void w_u32(uint32_t v) {
    if (rep_n + 4 > rep_cap) { rep_cap = rep_n * 2 + 64; rep = realloc(rep, rep_cap); if (!rep) die("oom"); }
    memcpy(rep + rep_n, &v, 4); rep_n += 4;
}
__attribute__((noinline)) void poison_stack(void) {
    volatile uint8_t a[6 << 20]; uint8_t b = (uint8_t)poison_byte;
    memset((void *)a, b, sizeof a); __asm__ volatile("" : : "r"(a) : "memory");
}
static int rd(void *p, size_t n) { uint8_t *q = p; while (n) { ssize_t k = read(0, q, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return 0; } q += k; n -= (size_t)k; } return 1; }
static void wr(const void *p, size_t n) { const uint8_t *q = p; while (n) { ssize_t k = write(3, q, n); if (k < 0) { if (errno == EINTR) continue; _exit(96); } q += k; n -= (size_t)k; } }

int ops_api(uint32_t), ops_fq(uint32_t), ops_fqopt(uint32_t), ops_vec(uint32_t), ops_mono(uint32_t), ops_code(uint32_t), ops_tree(uint32_t), ops_hash(uint32_t), ops_chal(uint32_t), ops_stat(uint32_t), ops_kat(uint32_t), ops_big(uint32_t), ops_thr(uint32_t), ops_lib(uint32_t), ops_print(uint32_t);
static void *loop(void *x) {
    (void)x;
    uint32_t h[2];
    while (rd(h, 8)) {                      // opcode, length
        if (h[1] > req_cap) { req_cap = h[1]; req = realloc(req, req_cap); if (!req) die("oom"); }
        req_n = h[1]; req_pos = 0; rep_n = 0;
        if (!rd(req, req_n)) break;
        uint32_t op = h[0], ok = 1;
        if (op == 1) { guard_mode = (int)r_u32(); poison_byte = (int)r_u32(); }
        else if (op == 2) { struct rlimit l; l.rlim_cur = l.rlim_max = r_u32(); setrlimit(RLIMIT_CPU, &l); }
        else if (op == 3) { size_t n; forced_on = (int)r_u32(); const uint8_t *p = r_raw(&n); memset(forced_chal, 0, sizeof forced_chal); memcpy(forced_chal, p, n < sizeof forced_chal ? n : sizeof forced_chal); w_u32((uint32_t)forced_hits); forced_hits = 0; }
        else ok = (uint32_t)(ops_api(op) || ops_fq(op) || ops_fqopt(op) || ops_vec(op) || ops_mono(op) || ops_code(op) || ops_tree(op) || ops_hash(op) || ops_chal(op) || ops_stat(op) || ops_kat(op) || ops_big(op) || ops_thr(op) || ops_lib(op) || ops_print(op));
        uint32_t intact = (uint32_t)g_intact();
        for (int i = 0; i < gn; i++) munmap(g[i].base, g[i].total);
        gn = 0;
        uint32_t o[3] = { ok, intact, (uint32_t)rep_n };
        wr(o, 12); wr(rep, rep_n);
    }
    _exit(0);
}
int main(void) {
    // replies go to fd 3: anything the code under test prints cannot disturb the protocol
    if (dup2(1, 3) != 3 || dup2(2, 1) != 1) die("dup");
    pthread_attr_t a; pthread_t t;
    pthread_attr_init(&a); pthread_attr_setstacksize(&a, 96u << 20);
    if (pthread_create(&t, &a, loop, NULL)) die("thread");
    pthread_join(t, NULL);
    return 0;
}
