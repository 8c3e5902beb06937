From 1e88561c3e852678ae44d782b1d247b0268c7ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 1/6] fix: crypto_sign_open rejects a signed message shorter
 than its signature

smlen - sig_len wrapped around (and smlen == 0 read sm[-1]), so a short
sm made crypto_sign_open read and copy far outside its buffers.
---
 Optimized_Implementation/common/lib/sign.c | 8 ++++++++
 Reference_Implementation/lib/sign.c        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d67cce6..417e2c2 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -71,6 +71,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* too short to contain any signature */
+    if (smlen < LESS_CRYPTO_BYTES(0)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -78,6 +83,9 @@ int crypto_sign_open(unsigned char *m,
 
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES(num_seeds_published);
+    if (smlen < sig_len) {
+        return -1;
+    }
 
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3320cef..4a3f70a 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -72,6 +72,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* too short to contain any signature */
+    if (smlen < LESS_CRYPTO_BYTES(0)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -79,6 +84,9 @@ int crypto_sign_open(unsigned char *m,
 
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES((uint32_t)num_seeds_published);
+    if (smlen < sig_len) {
+        return -1;
+    }
 
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
-- 
2.43.0


From 0d877afb9d655465b8eff912e817157cc0c3cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 2/6] fix: crypto_sign_open accepts signatures publishing
 exactly MAX_PUBLISHED_SEEDS seeds

The maximum is reachable (category 1, BALANCED and INTERMEDIATE): such an
honest signature was rejected.
---
 Optimized_Implementation/common/lib/sign.c | 2 +-
 Reference_Implementation/lib/sign.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 417e2c2..d9d7d2f 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -77,7 +77,7 @@ int crypto_sign_open(unsigned char *m,
     }
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 4a3f70a..575809f 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -78,7 +78,7 @@ int crypto_sign_open(unsigned char *m,
     }
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
-- 
2.43.0


From 2dd43302b62499872e85cbd8ed9d55f4c6e8100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 3/6] fix: the number of published seeds must match the
 challenge

The count byte was not compared with what the challenge requires: a
signature announcing fewer seeds was read beyond the end of sm, and one
announcing more was accepted, so a signature had many valid encodings.
---
 Optimized_Implementation/common/lib/LESS.c | 17 ++++++++++++++---
 Optimized_Implementation/common/lib/sign.c |  7 ++++++-
 Reference_Implementation/lib/LESS.c        | 17 ++++++++++++++---
 Reference_Implementation/lib/sign.c        |  7 ++++++-
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index afbe512..6892e18 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -161,7 +161,7 @@ size_t LESS_sign(const prikey_t *SK,
     }
 
     int emitted_monoms = 0;
-    memset(&sig->seed_storage, 0, SEED_TREE_MAX_PUBLISHED_BYTES);
+    memset(&sig->seed_storage, 0, sizeof(sig->seed_storage));
 
     const uint32_t num_seeds_published =
             seed_tree_path(seed_tree,
@@ -225,8 +225,19 @@ int LESS_verify(const pubkey_t *const PK,
     }
 
     unsigned char seed_tree[NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES] = {0};
-    rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
-                             (unsigned char *) &sig->seed_storage, sig->tree_salt);
+    const uint32_t num_seeds_needed =
+            rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
+                                     (unsigned char *) &sig->seed_storage, sig->tree_salt);
+
+    /* the seeds must be followed by their number, and by nothing else */
+    if (sig->seed_storage[num_seeds_needed*SEED_LENGTH_BYTES] != num_seeds_needed) {
+        return 0;
+    }
+    for (uint32_t i = num_seeds_needed*SEED_LENGTH_BYTES + 1u; i < sizeof(sig->seed_storage); i++) {
+        if (sig->seed_storage[i] != 0) {
+            return 0;
+        }
+    }
 
     unsigned char *ephem_monomial_seeds = seed_tree +
                                           SEED_LENGTH_BYTES * (NUM_LEAVES_OF_SEED_TREE - 1);
diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d9d7d2f..57b0ff9 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -90,11 +90,16 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the received signature may publish fewer seeds than the verifier needs:
+     * work on a zero-filled copy, which is never shorter than sign_t */
+    sign_t sig = {0};
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);                                  // in parameter
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
 } // end crypto_sign_open
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 84edae4..ed934ff 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -161,7 +161,7 @@ size_t LESS_sign(const prikey_t *SK,
     }
 
     int emitted_monoms = 0;
-    memset(&sig->seed_storage, 0, SEED_TREE_MAX_PUBLISHED_BYTES);
+    memset(&sig->seed_storage, 0, sizeof(sig->seed_storage));
 
     const uint32_t num_seeds_published =
             seed_tree_path(seed_tree,
@@ -216,8 +216,19 @@ int LESS_verify(const pubkey_t *const PK,
     }
 
     unsigned char seed_tree[NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES] = {0};
-    rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
-                             (unsigned char *) &sig->seed_storage, sig->tree_salt);
+    const uint32_t num_seeds_needed =
+            rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
+                                     (unsigned char *) &sig->seed_storage, sig->tree_salt);
+
+    /* the seeds must be followed by their number, and by nothing else */
+    if (sig->seed_storage[num_seeds_needed*SEED_LENGTH_BYTES] != num_seeds_needed) {
+        return 0;
+    }
+    for (uint32_t i = num_seeds_needed*SEED_LENGTH_BYTES + 1u; i < sizeof(sig->seed_storage); i++) {
+        if (sig->seed_storage[i] != 0) {
+            return 0;
+        }
+    }
 
     unsigned char *ephem_monomial_seeds = seed_tree +
                                           SEED_LENGTH_BYTES * (NUM_LEAVES_OF_SEED_TREE - 1);
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 575809f..7d5337e 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -91,11 +91,16 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the received signature may publish fewer seeds than the verifier needs:
+     * work on a zero-filled copy, which is never shorter than sign_t */
+    sign_t sig = {0};
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);                                  // in parameter
 
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
-- 
2.43.0


From 891ac9c8379198590c9f0719efb598a1577b9f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 4/6] fix: LESS_verify rejects malformed public keys

A matrix with the wrong number of pivot columns, a value equal to Q or
nonzero unused bits was expanded as is: out-of-bounds accesses for a wrong
number of pivots, and several byte strings for the same public key.
---
 .../common/include/codes.h                    |  3 ++
 Optimized_Implementation/common/lib/LESS.c    |  6 ++++
 Optimized_Implementation/common/lib/codes.c   | 35 +++++++++++++++++++
 Reference_Implementation/include/codes.h      |  3 ++
 Reference_Implementation/lib/LESS.c           |  6 ++++
 Reference_Implementation/lib/codes.c          | 35 +++++++++++++++++++
 6 files changed, 88 insertions(+)

diff --git a/Optimized_Implementation/common/include/codes.h b/Optimized_Implementation/common/include/codes.h
index 26f0293..92ccebe 100644
--- a/Optimized_Implementation/common/include/codes.h
+++ b/Optimized_Implementation/common/include/codes.h
@@ -93,6 +93,9 @@ void compress_rref(uint8_t *compressed,
 void expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
+/* Checks that a compressed matrix is a possible output of compress_rref */
+int is_compressed_rref_valid(const uint8_t *compressed);
+
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
  * columns and their position in the RREF and normalizes the columns themselves
  * i.e., rescales them to obtain the leading nonzero term equal to 1, and
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index 6892e18..8a875b4 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -214,6 +214,12 @@ int LESS_verify(const pubkey_t *const PK,
                 const uint64_t mlen,
                 const sign_t *const sig) {
 
+    for (uint32_t i = 0; i < NUM_KEYPAIRS - 1; i++) {
+        if (!is_compressed_rref_valid(PK->SF_G[i])) {
+            return 0;
+        }
+    }
+
     uint8_t fixed_weight_string[T] = {0};
     expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
     monomial_action_IS_t mono_action;
diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 38c6481..9cf2ee1 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -559,6 +559,41 @@ void expand_to_rref(generator_mat_t *full,
 } /* end expand_to_rref */
 
 
+/* Checks that a compressed matrix was produced by compress_rref: K pivot
+ * columns, all the values below Q, and the unused bits set to zero.
+ * Returns 1 if it is so, 0 otherwise */
+int is_compressed_rref_valid(const uint8_t *compressed) {
+    uint32_t num_pivots = 0;
+    for (uint32_t i = 0; i < 8 * ((N + 7) / 8); i++) {
+        const uint32_t flag = (compressed[i / 8] >> (i % 8)) & 0x1;
+        if (i < N) {
+            num_pivots += flag;
+        } else if (flag != 0) {
+            return 0;
+        }
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
+    const uint8_t *values = compressed + (N + 7) / 8;
+    const uint32_t num_bits = BITS_TO_REPRESENT(Q) * (N - K) * K;
+    for (uint32_t bit = 0; bit < num_bits; bit += BITS_TO_REPRESENT(Q)) {
+        uint32_t value = values[bit / 8] >> (bit % 8);
+        if (bit % 8 > 8 - BITS_TO_REPRESENT(Q)) {
+            value |= (uint32_t) values[bit / 8 + 1] << (8 - bit % 8);
+        }
+        if ((value & MASK_Q) >= Q) {
+            return 0;
+        }
+    }
+    if ((num_bits % 8 != 0) && ((values[num_bits / 8] >> (num_bits % 8)) != 0)) {
+        return 0;
+    }
+    return 1;
+} /* end is_compressed_rref_valid */
+
+
 /* Expands a compressed RREF generator matrix into a full one */
 void generator_rref_expand(generator_mat_t *full,
                            const rref_generator_mat_t *const compact) {
diff --git a/Reference_Implementation/include/codes.h b/Reference_Implementation/include/codes.h
index 51df856..f7f19ee 100644
--- a/Reference_Implementation/include/codes.h
+++ b/Reference_Implementation/include/codes.h
@@ -93,6 +93,9 @@ void compress_rref(uint8_t *compressed,
 void expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
+/* Checks that a compressed matrix is a possible output of compress_rref */
+int is_compressed_rref_valid(const uint8_t *compressed);
+
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
  * columns and their position in the RREF and normalizes the columns themselves
  * i.e., rescales them to obtain the leading nonzero term equal to 1, and
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index ed934ff..3c956fa 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -205,6 +205,12 @@ int LESS_verify(const pubkey_t *const PK,
                 const uint64_t mlen,
                 const sign_t *const sig) {
 
+    for (uint32_t i = 0; i < NUM_KEYPAIRS - 1; i++) {
+        if (!is_compressed_rref_valid(PK->SF_G[i])) {
+            return 0;
+        }
+    }
+
     uint8_t fixed_weight_string[T] = {0};
     expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
     monomial_action_IS_t mono_action;
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index c73f6da..a8ec848 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -517,6 +517,41 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
 } /* end expand_to_rref */
 
 
+/* Checks that a compressed matrix was produced by compress_rref: K pivot
+ * columns, all the values below Q, and the unused bits set to zero.
+ * Returns 1 if it is so, 0 otherwise */
+int is_compressed_rref_valid(const uint8_t *compressed) {
+    uint32_t num_pivots = 0;
+    for (uint32_t i = 0; i < 8 * ((N + 7) / 8); i++) {
+        const uint32_t flag = (compressed[i / 8] >> (i % 8)) & 0x1;
+        if (i < N) {
+            num_pivots += flag;
+        } else if (flag != 0) {
+            return 0;
+        }
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
+    const uint8_t *values = compressed + (N + 7) / 8;
+    const uint32_t num_bits = BITS_TO_REPRESENT(Q) * (N - K) * K;
+    for (uint32_t bit = 0; bit < num_bits; bit += BITS_TO_REPRESENT(Q)) {
+        uint32_t value = values[bit / 8] >> (bit % 8);
+        if (bit % 8 > 8 - BITS_TO_REPRESENT(Q)) {
+            value |= (uint32_t) values[bit / 8 + 1] << (8 - bit % 8);
+        }
+        if ((value & MASK_Q) >= Q) {
+            return 0;
+        }
+    }
+    if ((num_bits % 8 != 0) && ((values[num_bits / 8] >> (num_bits % 8)) != 0)) {
+        return 0;
+    }
+    return 1;
+} /* end is_compressed_rref_valid */
+
+
 /* Expands a compressed RREF generator matrix into a full one */
 void generator_rref_expand(generator_mat_t *full,
                            const rref_generator_mat_t *const compact)
-- 
2.43.0


From b05b0ff9e38879c88b6fcf5056b714f6dccf20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 5/6] fix: LESS_verify rejects signatures with nonzero unused
 bits

The unused bits of the compressed monomial actions were ignored, so every
signature had many valid encodings.
---
 .../common/include/monomial_mat.h                     |  3 +++
 Optimized_Implementation/common/lib/LESS.c            |  3 +++
 Optimized_Implementation/common/lib/monomial.c        | 11 +++++++++++
 Reference_Implementation/include/monomial_mat.h       |  3 +++
 Reference_Implementation/lib/LESS.c                   |  3 +++
 Reference_Implementation/lib/monomial.c               | 11 +++++++++++
 6 files changed, 34 insertions(+)

diff --git a/Optimized_Implementation/common/include/monomial_mat.h b/Optimized_Implementation/common/include/monomial_mat.h
index d85bf1a..67aec44 100644
--- a/Optimized_Implementation/common/include/monomial_mat.h
+++ b/Optimized_Implementation/common/include/monomial_mat.h
@@ -118,6 +118,9 @@ void expand_to_monom_action(monomial_action_IS_t *mono,
 /* Validate MonomialAction object */
 int is_monom_action_valid(const monomial_action_IS_t * const mono);
 
+/* Checks that the unused bits of a compressed action are set to zero */
+int is_compressed_monom_action_padded(const uint8_t *compressed);
+
 /* pretty_print for monomial matrices */
 void monomial_mat_pretty_print_name(char *name, const monomial_t *to_print);
 // void comp_monomial_mat_pretty_print_name(char *name,
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index 8a875b4..6bb7ff1 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -279,6 +279,9 @@ int LESS_verify(const pubkey_t *const PK,
             generator_mat_t G_hat = {0};
             /// TODO: this can be optimized: expand the matrix only once and save it.
             expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            if (!is_compressed_monom_action_padded(sig->monom_actions[employed_monoms])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Optimized_Implementation/common/lib/monomial.c b/Optimized_Implementation/common/lib/monomial.c
index 6f752ce..c3bc82e 100644
--- a/Optimized_Implementation/common/lib/monomial.c
+++ b/Optimized_Implementation/common/lib/monomial.c
@@ -519,3 +519,14 @@ int is_monom_action_valid(const monomial_action_IS_t * const mono){
     return 1;
 }
 
+/* Checks that the unused bits of a compressed action are set to zero.
+ * Returns 1 if it is so, 0 otherwise */
+int is_compressed_monom_action_padded(const uint8_t *compressed) {
+    const uint32_t num_bits = (BITS_TO_REPRESENT(N) + BITS_TO_REPRESENT(Q)) * K;
+    for (uint32_t i = num_bits; i < 8 * MONO_ACTION_PACKEDBYTES; i++) {
+        if ((compressed[i / 8] >> (i % 8)) & 0x1) {
+            return 0;
+        }
+    }
+    return 1;
+} /* end is_compressed_monom_action_padded */
diff --git a/Reference_Implementation/include/monomial_mat.h b/Reference_Implementation/include/monomial_mat.h
index 9cf99db..be39f7b 100644
--- a/Reference_Implementation/include/monomial_mat.h
+++ b/Reference_Implementation/include/monomial_mat.h
@@ -118,6 +118,9 @@ void expand_to_monom_action(monomial_action_IS_t *mono,
 /* Validate MonomialAction object */
 int is_monom_action_valid(const monomial_action_IS_t * const mono);
 
+/* Checks that the unused bits of a compressed action are set to zero */
+int is_compressed_monom_action_padded(const uint8_t *compressed);
+
 /* pretty_print for monomial matrices */
 void monomial_mat_pretty_print_name(char *name, const monomial_t *to_print);
 // void comp_monomial_mat_pretty_print_name(char *name,
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 3c956fa..5f9a155 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -269,6 +269,9 @@ int LESS_verify(const pubkey_t *const PK,
         } else {
             generator_mat_t G_hat = {0};
             expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            if (!is_compressed_monom_action_padded(sig->monom_actions[employed_monoms])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Reference_Implementation/lib/monomial.c b/Reference_Implementation/lib/monomial.c
index d3481dd..9f2214a 100644
--- a/Reference_Implementation/lib/monomial.c
+++ b/Reference_Implementation/lib/monomial.c
@@ -516,3 +516,14 @@ int is_monom_action_valid(const monomial_action_IS_t * const mono){
     return 1;
 }
 
+/* Checks that the unused bits of a compressed action are set to zero.
+ * Returns 1 if it is so, 0 otherwise */
+int is_compressed_monom_action_padded(const uint8_t *compressed) {
+    const uint32_t num_bits = (BITS_TO_REPRESENT(N) + BITS_TO_REPRESENT(Q)) * K;
+    for (uint32_t i = num_bits; i < 8 * MONO_ACTION_PACKEDBYTES; i++) {
+        if ((compressed[i / 8] >> (i % 8)) & 0x1) {
+            return 0;
+        }
+    }
+    return 1;
+} /* end is_compressed_monom_action_padded */
-- 
2.43.0


From ffa4270200e517f4c92b5a9e5ea69c7d5b48512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 6/6] fix: category 3 triple-precision type holds products
 (br_red16 result was unreduced)

---
 Optimized_Implementation/common/include/parameters.h | 2 +-
 Reference_Implementation/include/parameters.h        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/include/parameters.h b/Optimized_Implementation/common/include/parameters.h
index da6c663..ce4952b 100644
--- a/Optimized_Implementation/common/include/parameters.h
+++ b/Optimized_Implementation/common/include/parameters.h
@@ -81,7 +81,7 @@
 #define SEED_TREE_MAX_PUBLISHED_BYTES (3912)
 #define FQ_ELEM uint8_t
 #define FQ_DOUBLEPREC uint16_t
-#define FQ_TRIPLEPREC uint16_t
+#define FQ_TRIPLEPREC uint32_t
 #define POSITION_T uint16_t
 
 #elif defined(SHORT_SIG)
diff --git a/Reference_Implementation/include/parameters.h b/Reference_Implementation/include/parameters.h
index 6a8f192..93147db 100644
--- a/Reference_Implementation/include/parameters.h
+++ b/Reference_Implementation/include/parameters.h
@@ -82,7 +82,7 @@
 #define SEED_TREE_MAX_PUBLISHED_BYTES (3912)
 #define FQ_ELEM uint8_t
 #define FQ_DOUBLEPREC uint16_t
-#define FQ_TRIPLEPREC uint16_t
+#define FQ_TRIPLEPREC uint32_t
 #define POSITION_T uint16_t
 
 #elif defined(SHORT_SIG)
-- 
2.43.0

