#include "utils.h"
#include "rng.h"
#include "core.h"
int ops_chal(uint32_t op) {
    if (op != 70) return 0;
    size_t n; const uint8_t *d = r_blob(&n); uint8_t *o = g_alloc(T, 0);
    poison_stack(); expand_digest_to_fixed_weight(o, d); w_blob(o, T); return 1;
}
