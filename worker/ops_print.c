// What the printing functions write to the standard error stream.
#define _GNU_SOURCE
#include <stdio.h>
#include <unistd.h>
#include <sys/mman.h>
#include "codes.h"
#include "monomial_mat.h"
#include "core.h"
static int saved, tmp;
static void on(void) { fflush(NULL); saved = dup(2); tmp = memfd_create("out", 0); if (tmp < 0 || dup2(tmp, 2) < 0) _exit(97); }
static void off(void) {
    fflush(NULL); dup2(saved, 2); close(saved);
    off_t n = lseek(tmp, 0, SEEK_END); uint8_t *p = w_space((size_t)n); size_t got = 0;
    while (got < (size_t)n) { ssize_t k = pread(tmp, p + got, (size_t)n - got, (off_t)got); if (k <= 0) _exit(97); got += (size_t)k; }
    close(tmp);
}
int ops_print(uint32_t op) {
    size_t n; char name[64] = {0};
    if (op < 200 || op > 203) return 0;
    const uint8_t *s = r_raw(&n); memcpy(name, s, n < 63 ? n : 63);
    const uint8_t *a = r_raw(&n), *b = r_raw(&n);
    static char buf[1 << 22]; setvbuf(stderr, buf, _IOFBF, sizeof buf);
    switch (op) {
    case 200: { static generator_mat_t G; memset(&G, 0, sizeof G); REPEAT(i, K) REPEAT(j, N) G.values[i][j] = a[i * N + j]; on(); generator_pretty_print_name(name, &G); off(); break; }
    case 201: { static rref_generator_mat_t G; REPEAT(i, K) REPEAT(j, N - K) G.values[i][j] = a[i * (N - K) + j];
        REPEAT(i, N - K) { uint16_t v; memcpy(&v, b + 2 * i, 2); G.column_pos[i] = v; } on(); generator_rref_pretty_print_name(name, &G); off(); break; }
    default: { monomial_t m; REPEAT(i, N) { uint16_t v; memcpy(&v, b + 2 * i, 2); m.coefficients[i] = a[i]; m.permutation[i] = (POSITION_T)v; }
        on(); if (op == 202) monomial_mat_pretty_print_name(name, &m); else monomial_mat_print_exp_name(name, &m); off(); }
    }
    setvbuf(stderr, NULL, _IONBF, 0);
    return 1;
}
