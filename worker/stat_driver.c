// Two accumulators of the benchmark statistics, driven by commands on standard input.
#define main bench_main
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include STAT_SRC
#undef main
static void pr(long double v) { printf("%La ", v); }
int main(void) {
    welford_t s[2]; char op; int i; double v;
    memset(s, 0x5a, sizeof s);
    while (scanf(" %c%d", &op, &i) == 2) {
        switch (op) {
        case 'i': welford_init(&s[i]); break;
        case 'u': { long n; if (scanf("%ld", &n) != 1) return 1; while (n--) { if (scanf("%la", &v) != 1) return 1; welford_update(&s[i], (long double)v); } break; }
        case 'm': pr(welford_mean(s[i])); printf("\n"); break;
        case 's': pr(welford_stddev(s[i])); printf("\n"); break;
        case 'p': welford_print(s[i]); printf("\n"); break;
        case 't': pr((long double)welch_t_statistic(s[i], s[!i])); printf("\n"); break;
        default: return 1;
        }
    }
    return 0;
}
