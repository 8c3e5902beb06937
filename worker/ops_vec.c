// lane-wise vector arithmetic of the optimized code
#include "parameters.h"
#include "macro.h"
#include "core.h"
int ops_vec(uint32_t op) {
    size_t n;
    if (op == 40) {   // 8-bit reduction used by the elimination: every lane of x+y
        const uint8_t *a = r_raw(&n); uint8_t *o = w_space(n);
        vec256_t x, c01, c7f; vset8(c01, 1); vset8(c7f, 0x7f);
        for (size_t i = 0; i + 32 <= n; i += 32) { vload256(x, (vec256_t *)(a + i)); W_RED127_(x); vstore256((vec256_t *)(o + i), x); }
        return 1; }
    if (op == 41) {   // 16-bit products: a*b folded once, then the final reduction
        const uint8_t *a = r_raw(&n); size_t n2; const uint8_t *b = r_raw(&n2); uint8_t *o = w_space(n);
        vec256_t x, y, t, c7f, c1; vset8(c7f, 127); vset8(c1, 1); (void)n2;
        for (size_t i = 0; i + 32 <= n; i += 32) {   // 16 lanes of 16 bits
            vload256(x, (vec256_t *)(a + i)); vload256(y, (vec256_t *)(b + i));
            barrett_mul_u16(x, x, y, t); barrett_red8(x, t, c7f, c1);
            vstore256((vec256_t *)(o + i), x); }
        return 1; }
    return 0;
}
