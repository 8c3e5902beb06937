// Link-time substitution of the challenge (only when the harness asks for it).
#include "utils.h"
#include "core.h"
void __real_expand_digest_to_fixed_weight(uint8_t s[T], const uint8_t digest[HASH_DIGEST_LENGTH]);
void __wrap_expand_digest_to_fixed_weight(uint8_t s[T], const uint8_t digest[HASH_DIGEST_LENGTH]) {
    if (forced_on) { forced_hits++; memcpy(s, forced_chal, T); return; }
    __real_expand_digest_to_fixed_weight(s, digest);
}
