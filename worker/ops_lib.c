// The library's own functions, below the NIST interface.
#include "LESS.h"
#include "core.h"
int ops_lib(uint32_t op) {
    size_t n, k;
    switch (op) {
    case 23: {   // LESS_verify on a sign_t image: pk, m, sig (padded with zeros to sign_t)
        const uint8_t *pk = r_blob(&k), *m = r_blob(&n); size_t sn; const uint8_t *s = r_raw(&sn);
        sign_t *sig = (sign_t *)g_alloc(sizeof(sign_t), 0); memcpy(sig, s, sn < sizeof(sign_t) ? sn : sizeof(sign_t));
        poison_stack(); int r = LESS_verify((const pubkey_t *)pk, (const char *)m, n, sig); w_u32((uint32_t)r); return 1; }
    case 26: {   // the library's own functions: key pair
        pubkey_t *pk = (pubkey_t *)g_alloc(sizeof(pubkey_t), 0x5a); prikey_t *sk = (prikey_t *)g_alloc(sizeof(prikey_t), 0x5a);
        poison_stack(); LESS_keygen(sk, pk); w_blob(pk, sizeof *pk); w_blob(sk, sizeof *sk); return 1; }
    case 27: {   // the library's own functions: fill, sk, m -> number of seeds, the whole signature structure
        int fill = (int)r_u32(); const uint8_t *sk = r_blob(&k), *m = r_blob(&n); sign_t *sig = (sign_t *)g_alloc(sizeof(sign_t), fill);
        poison_stack(); size_t c = LESS_sign((const prikey_t *)sk, (const char *)m, n, sig); w_u32((uint32_t)c); w_blob(sig, sizeof *sig); return 1; }
    }
    return 0;
}
