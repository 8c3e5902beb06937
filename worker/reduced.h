// Same code, smaller number of rounds: applied on the command line only (-include), never in the repository.
#include "parameters.h"
#ifdef RED_T
#undef T
#undef W
#undef SEED_TREE_MAX_PUBLISHED_BYTES
#define T (RED_T)
#define W (RED_W)
#define SEED_TREE_MAX_PUBLISHED_BYTES (RED_MAX)
#endif
