// A signed message of several GiB: sparse zero pages followed by a signature.
#define _GNU_SOURCE
#include "LESS.h"
#include "api.h"
#include <sys/mman.h>
#include <unistd.h>
#include <stdlib.h>
#include "core.h"
int ops_big(uint32_t op) {
    if (op != 24) return 0;
    size_t k, sn; const uint8_t *pk = r_blob(&k); const uint8_t *sig = r_raw(&sn);
    uint64_t n = r_u32(); n |= (uint64_t)r_u32() << 32;
    size_t tot = n + sn;
    uint8_t *sm = mmap(NULL, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint8_t *m = mmap(NULL, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sm == MAP_FAILED || m == MAP_FAILED) return 0;
    memcpy(sm + n, sig, sn);
    unsigned long long ml = 0; int r = crypto_sign_open(m, &ml, sm, tot, pk);
    w_u32((uint32_t)r); munmap(sm, tot); munmap(m, tot); return 1;
}
