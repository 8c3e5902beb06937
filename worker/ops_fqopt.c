#include "fq_arith.h"
#include "core.h"
int ops_fqopt(uint32_t op) {
    size_t n;
    if (op == 36) { const uint8_t *x = r_raw(&n); uint8_t *o = w_space(n / 2); REPEAT(i, n / 2) o[i] = br_red(br_mul(x[2 * i], x[2 * i + 1])); return 1; }
    if (op == 37) { const uint8_t *x = r_raw(&n); uint8_t *o = w_space(n); REPEAT(i, n / 2) { uint16_t v; memcpy(&v, x + 2 * i, 2); v = br_red16(v); memcpy(o + 2 * i, &v, 2); } return 1; }
    return 0;
}
