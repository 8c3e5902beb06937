#include "seedtree.h"
#include "core.h"
#include <stdlib.h>
int ops_tree(uint32_t op) {
    size_t n; size_t sz = (size_t)NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES;
    switch (op) {
    case 80: { const uint8_t *r = r_blob(&n), *s = r_blob(&n); uint8_t *t = g_alloc(sz, poison_byte); poison_stack(); generate_seed_tree_from_root(t, r, s); w_blob(t, sz); return 1; }
    case 81: { const uint8_t *t = r_blob(&n), *ix = r_blob(&n); uint8_t *o = g_alloc(SEED_TREE_MAX_PUBLISHED_BYTES, poison_byte); poison_stack(); uint32_t c = seed_tree_path(t, ix, o); w_u32(c); w_blob(o, SEED_TREE_MAX_PUBLISHED_BYTES); return 1; }
    case 82: { const uint8_t *ix = r_blob(&n), *st = r_blob(&n), *s = r_blob(&n); uint8_t *t = g_alloc(sz, 0); poison_stack(); uint32_t c = rebuild_seed_tree_leaves(t, ix, st, s); w_u32(c); w_blob(t, sz); return 1; }
    }
    return 0;
}
