From 8bb9b1374bd7555def2c4f408048d2fc9633877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 01/33] fix: is_prime_bpsw declared small primes composite

---
 src/primetest.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/primetest.h b/src/primetest.h
index 8d824e2..0db0313 100644
--- a/src/primetest.h
+++ b/src/primetest.h
@@ -147,8 +147,23 @@ static int is_prime_bpsw(const mpz_t n)
     int min_pprods = 5, n_pprods = sizeof(pprods) / sizeof(*pprods);
     mpz_t b, d;
 
+    /* Decide small numbers by trial division: the GCD tests below would
+     * declare primes that divide one of the products to be composite. */
+    if (mpz_cmp_ui(n, 1UL << 16) < 0) {
+        unsigned long v, k;
+
+        if (mpz_cmp_ui(n, 2) < 0)
+            return 0;
+        v = mpz_get_ui(n);
+        for (k = 2; k * k <= v; k++) {
+            if (v % k == 0)
+                return 0;
+        }
+        return 2;
+    }
+
     /* Discard even numbers. */
-    if (!mpz_tstbit(n, 0) && mpz_cmp_ui(n, 2))
+    if (!mpz_tstbit(n, 0))
         return 0;
 
     /* Adjust the number of GCDs to compute with products of small primes
-- 
2.43.0


From 1a0e83e75d24cdc4731d3926b198be4b7f13ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 02/33] fix: strict form decoding accepted second encodings of
 an element

---
 src/bqfc.c         | 3 ++-
 src/proof_common.h | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bqfc.c b/src/bqfc.c
index 1e164fe..269161c 100644
--- a/src/bqfc.c
+++ b/src/bqfc.c
@@ -323,7 +323,8 @@ int bqfc_deserialize(mpz_t out_a, mpz_t out_b, const mpz_t D, const uint8_t *str
     if (str[0] & (BQFC_IS_1 | BQFC_IS_GEN)) {
         mpz_set_ui(out_a, str[0] & BQFC_IS_GEN ? 2 : 1);
         mpz_set_ui(out_b, 1);
-        return 0;
+        /* Only the encoding produced by bqfc_serialize() is canonical. */
+        return strict ? bqfc_verify_canon(out_a, out_b, str, d_bits) : 0;
     }
 
     mpz_inits(f_c.a, f_c.t, f_c.g, f_c.b0, NULL);
diff --git a/src/proof_common.h b/src/proof_common.h
index 5cf32c8..aea44b4 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -59,6 +59,11 @@ form DeserializeForm(const integer &D, const uint8_t *bytes, size_t size,
         throw std::runtime_error("Deserializing compressed form failed");
     }
     form f = form::from_abd(a, b, D);
+    // from_abd() reduces; in strict mode the encoded pair itself must be the
+    // reduced one, or an element would have several accepted encodings.
+    if (strict && (f.a != a || f.b != b)) {
+        throw std::runtime_error("Form is not reduced");
+    }
     if (!f.is_reduced()) {
         throw std::runtime_error("Form is not reduced");
     }
-- 
2.43.0


From 81d456caa889b6e775975e496e7fada7cbee64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 03/33] fix: PulmarkReducer left the identity class as (1,-1,c)

---
 src/Reducer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Reducer.h b/src/Reducer.h
index 9fa7b5b..84bc94f 100644
--- a/src/Reducer.h
+++ b/src/Reducer.h
@@ -172,7 +172,10 @@ bool bLZCHasHW=false;
     if (a_c > 0) {
       mpz_swap(ctx.a, ctx.c);
       mpz_neg(ctx.b, ctx.b);
-    } else if (a_c == 0 && mpz_sgn(ctx.b) < 0) {
+      a_b = c_b;
+    }
+    // |b| == a or a == c: b must be non-negative
+    if ((a_b == 0 || a_c == 0) && mpz_sgn(ctx.b) < 0) {
       mpz_neg(ctx.b, ctx.b);
     }
     return true;
-- 
2.43.0


From 70bc09a537b18b1c60362bf15cf291774225cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 04/33] fix: Python verifiers read past a short x_s

---
 src/python_bindings/fastvdf.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python_bindings/fastvdf.cpp b/src/python_bindings/fastvdf.cpp
index 9af6750..3683645 100644
--- a/src/python_bindings/fastvdf.cpp
+++ b/src/python_bindings/fastvdf.cpp
@@ -25,6 +25,13 @@ static py::bytes to_signed_bytes_be(const integer& value) {
     return py::bytes(out);
 }
 
+// The verifiers read a whole serialized form through a bare pointer.
+static void require_form_size(const std::string& x_s) {
+    if (x_s.size() < BQFC_FORM_SIZE) {
+        throw std::runtime_error("expected 100-byte form");
+    }
+}
+
 PYBIND11_MODULE(_chiavdf, m) {
     m.doc() = "Chia proof of time";
 
@@ -70,6 +77,7 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const uint64_t num_iterations, const uint64_t disc_size_bits, const uint64_t recursion) {
         std::string discriminant_copy(discriminant);
         std::string x_s_copy(x_s);
+        require_form_size(x_s_copy);
         std::string proof_blob_copy(proof_blob);
         uint8_t *proof_blob_ptr = reinterpret_cast<uint8_t *>(proof_blob_copy.data());
         bool is_valid = false;
@@ -90,6 +98,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         std::string challenge_hash_str(challenge_hash);
         std::vector<uint8_t> challenge_hash_bits = std::vector<uint8_t>(challenge_hash_str.begin(), challenge_hash_str.end());
         std::string x_s_copy(x_s);
+        require_form_size(x_s_copy);
         std::string proof_blob_copy(proof_blob);
         bool is_valid = false;
         {
@@ -127,6 +136,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         std::string discriminant_copy(discriminant);
         std::string B_copy(B);
         std::string x_s_copy(x_s);
+        require_form_size(x_s_copy);
         std::string proof_blob_copy(proof_blob);
         std::pair<bool, std::vector<uint8_t>> result;
         {
@@ -158,6 +168,7 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const uint64_t num_iterations, const uint64_t recursion) {
         std::string discriminant_copy(discriminant);
         std::string x_s_copy(x_s);
+        require_form_size(x_s_copy);
         std::string proof_blob_copy(proof_blob);
         integer B;
         {
-- 
2.43.0


From 07bc2bf55fe826e8a2cedf5fe6fb37c3bc90fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 05/33] fix: forms of a non-negative discriminant crashed the
 verifiers

---
 src/proof_common.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proof_common.h b/src/proof_common.h
index aea44b4..3aedc4c 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -54,6 +54,11 @@ std::vector<unsigned char> SerializeForm(form &y, int d_bits)
 form DeserializeForm(const integer &D, const uint8_t *bytes, size_t size,
                      bool strict = false)
 {
+    // Forms of a non-negative discriminant are not definite: the arithmetic
+    // (reduction, roots of -D) does not apply to them.
+    if (mpz_sgn(D.impl) >= 0) {
+        throw std::runtime_error("Discriminant is not negative");
+    }
     integer a, b;
     if (bqfc_deserialize(a.impl, b.impl, D.impl, bytes, size, D.num_bits(), strict)) {
         throw std::runtime_error("Deserializing compressed form failed");
-- 
2.43.0


From b97d8084dcafa11b59b78aa231f9beee95c22ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:39 +0000
Subject: [PATCH 06/33] fix: seeds without a prime made discriminant derivation
 loop forever

A one-byte seed has few candidates; when none of them is prime the nonce
wraps and HashPrime searched the same candidates again without end.
---
 src/proof_common.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proof_common.h b/src/proof_common.h
index 3aedc4c..d8e46c3 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -40,6 +40,11 @@ integer HashPrime(std::vector<uint8_t> seed, int length, vector<int> bitmask) {
         p.set_bit(0, true);
         if (p.prime())
             return p;
+        // The nonce wraps: once it is back at the seed all candidates have been
+        // tried (a one-byte seed has few of them, often none of them prime).
+        if (sprout == seed) {
+            throw std::runtime_error("Seed yields no prime");
+        }
     }
 }
 
-- 
2.43.0


From 735ae7edbe03bb76662a5aabfbe1bb8fa4bc2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 07/33] fix: a stop during the one-part proof made
 ProveOneWesolowski wait forever

---
 src/vdf.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 3cfe197..d2067cd 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -330,6 +330,9 @@ Proof ProveOneWesolowski(uint64_t iters, integer& D, form f, OneWesolowskiCallba
     OneWesolowskiProver prover(sg, D, weso->forms.get(), stopped);
     prover.start();
     while (!prover.IsFinished()) {
+        // A stopped prover gives up before it finishes.
+        if (stopped)
+            return Proof();
         this_thread::sleep_for(1s);
     }
     int d_bits = D.num_bits();
-- 
2.43.0


From 26a13fdb477e71f0e19d22789d5ce4ec88561c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 08/33] fix: the many-part prover put unfinished segments into
 a proof

done_segments is padded with empty segments when segments finish out of
order; Prove() took such a placeholder for a finished segment.
---
 src/vdf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index d2067cd..6257c35 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -546,7 +546,8 @@ class ProverManager {
             for (int i = segment_count - 1; i >= 0; i--) {
                 uint64_t segment_size = (1LL << (16 + 2 * i));
                 uint64_t position = proved_iters / segment_size;
-                while (position < done_segments[i].size() && proved_iters + segment_size <= iteration) {
+                while (position < done_segments[i].size() && !done_segments[i][position].is_empty &&
+                       proved_iters + segment_size <= iteration) {
                     proof_segments.emplace_back(done_segments[i][position]);
                     position++;
                     proved_iters += segment_size;
-- 
2.43.0


From b530f5f976dcdc9c3b4372d2942a99aa630b2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 09/33] fix: a stop could leave a many-part request waiting
 forever

---
 src/vdf.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 6257c35..63d38ba 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -472,7 +472,15 @@ class ProverManager {
         }
         std::cout << "Segment provers finished.\n" << std::flush;
 
+        // Take the mutexes, so that no waiter is between its check of 'stopped'
+        // and its wait when the notification is sent.
+        {
+            std::lock_guard<std::mutex> lk(proof_mutex);
+        }
         proof_cv.notify_all();
+        {
+            std::lock_guard<std::mutex> lk(last_segment_mutex);
+        }
         last_segment_cv.notify_all();
     }
 
-- 
2.43.0


From 12cc8ddbf55170d1eeab6fac24e8e4fa37305c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 10/33] fix: the many-part checkpoints were written out of
 bounds after 2^34 iterations

---
 src/callback.h     | 7 ++++++-
 src/fast_storage.h | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/callback.h b/src/callback.h
index f4764bb..74a22b9 100644
--- a/src/callback.h
+++ b/src/callback.h
@@ -275,7 +275,7 @@ class FastAlgorithmCallback : public WesolowskiCallback {
         }
         forms_capacity = static_cast<size_t>(total_forms);
         forms.reset(new form[forms_capacity]);
-        checkpoints.reset(new form[1 << 18]);
+        checkpoints.reset(new form[checkpoints_capacity]);
 
         y_ret = f;
         for (int i = 0; i < segments; i++)
@@ -303,6 +303,9 @@ class FastAlgorithmCallback : public WesolowskiCallback {
     // 2^(18 + 2*m) * k + 12 * 2^(2*m) * l
     void OnIteration(int type, void *data, uint64_t iteration) {
         iteration++;
+        if (iteration / (1 << 16) >= checkpoints_capacity) {
+            throw std::runtime_error("FastAlgorithmCallback::OnIteration out of bounds");
+        }
         if (multi_proc_machine) {
             if (iteration % (1 << 15) == 0) {
                 SetForm(type, data, &y_ret);
@@ -336,6 +339,8 @@ class FastAlgorithmCallback : public WesolowskiCallback {
     const int bucket_size2 = 21846;
     // Assume provers won't be left behind by more than this # of segments.
     const int window_size = kWindowSize;
+    // One checkpoint per 2^16 iterations.
+    static constexpr uint64_t checkpoints_capacity = 1 << 18;
     bool multi_proc_machine;
 };
 
diff --git a/src/fast_storage.h b/src/fast_storage.h
index ebedf79..f94ba89 100644
--- a/src/fast_storage.h
+++ b/src/fast_storage.h
@@ -93,7 +93,8 @@ class FastStorage {
     }
 
     uint64_t GetFinishedSegment() {
-        while (intermediates_stored[2 * (intermediates_iter / (1 << 16))] == true &&
+        while (intermediates_iter / (1 << 16) < (1 << 18) &&
+               intermediates_stored[2 * (intermediates_iter / (1 << 16))] == true &&
                intermediates_stored[2 * (intermediates_iter / (1 << 16)) + 1] == true) {
                     intermediates_iter += (1 << 16);
                 }
-- 
2.43.0


From 7ed3a1d334cf203f88bf5edb4a37f0dbb0f5f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:31 +0000
Subject: [PATCH 11/33] Verification hook: scaled two-part constants behind
 CHIAVDF_VERIF_SCALE

---
 src/callback.h | 6 ++++++
 src/provers.h  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/callback.h b/src/callback.h
index 74a22b9..ed2e796 100644
--- a/src/callback.h
+++ b/src/callback.h
@@ -13,8 +13,14 @@
 const int kWindowSize = 20;
 
 // Applies only to 2-weso.
+#ifdef CHIAVDF_VERIF_SCALE
+// Verification builds only: the same protocol at 1/5000 of its size.
+const int kMaxItersAllowed = 700000;
+const int kSwitchIters = 18200;
+#else
 const int kMaxItersAllowed = 8e8;
 const int kSwitchIters = 91000000;
+#endif
 
 class WesolowskiCallback :public INUDUPLListener {
 public:
diff --git a/src/provers.h b/src/provers.h
index ffb1245..4ba0861 100644
--- a/src/provers.h
+++ b/src/provers.h
@@ -50,7 +50,11 @@ class TwoWesolowskiProver : public Prover{
         this->weso = weso;
         this->done_iterations = segm.start;
         k = 10;
+#ifdef CHIAVDF_VERIF_SCALE
+        l = (segm.length < 2000) ? 1 : 10;
+#else
         l = (segm.length < 10000000) ? 1 : 10;
+#endif
     }
 
     ~TwoWesolowskiProver() {
-- 
2.43.0


From e2177ab80353231b8e63617bdc22daecb64b3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:34 +0000
Subject: [PATCH 12/33] fix: the many-part prover started on segments whose end
 was not reached yet

With recomputed intermediates a segment was taken as finished when its
intermediates were, even if the main loop had not stored the segment's
last checkpoint yet; the prover then worked on an empty form.
---
 src/vdf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 63d38ba..3fe35c0 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -716,7 +716,9 @@ class ProverManager {
             }
 
             if (fast_storage != NULL) {
-                intermediates_iter = fast_storage -> GetFinishedSegment();
+                // The storage threads may finish a segment before the main loop
+                // has stored the checkpoint that ends it.
+                intermediates_iter = std::min<uint64_t>(fast_storage -> GetFinishedSegment(), vdf_iteration);
             } else {
                 intermediates_iter = vdf_iteration;
             }
-- 
2.43.0


From 5fe79e7ab5e4ccf9eaea59a950fbd180f7b0fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 13/33] fix: two many-part requests in the same last segment
 could leave one waiting forever

The first one to pass removed the shared entry, after which the event loop
no longer notified the other.
---
 src/vdf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vdf.h b/src/vdf.h
index 3fe35c0..e94fe29 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -505,7 +505,8 @@ class ProverManager {
             if (stopped) {
                 return Proof();
             }
-            pending_iters_last_sg.erase(iteration - iteration % (1 << 16));
+            // Other requests may wait for the same segment: drop only our own entry.
+            pending_iters_last_sg.erase(pending_iters_last_sg.find(iteration - iteration % (1 << 16)));
             lk.unlock();
         }
         Segment last_segment;
@@ -842,7 +843,7 @@ class ProverManager {
     // Iterations that we need proof for.
     std::set<uint64_t> pending_iters;
     // Last segment beginning for our pending iters.
-    std::set<uint64_t> pending_iters_last_sg;
+    std::multiset<uint64_t> pending_iters_last_sg;
     // Protect pending_iters and done_segments.
     std::mutex proof_mutex;
     std::mutex last_segment_mutex;
-- 
2.43.0


From 4c8e751c30b1f48a6e82c674cc7aba31d1cfbb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 14/33] fix: a stop made the many-part prover crash or return a
 proof without its first parts

---
 src/vdf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index e94fe29..5e258c5 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -578,6 +578,10 @@ class ProverManager {
                 valid_proof = true;
             }
         }
+        if (!valid_proof) {
+            // Stopped before all the segments were there.
+            return Proof();
+        }
         if (!last_segment.is_empty) {
             proof_segments.emplace_back(last_segment);
         }
-- 
2.43.0


From 7d279f7248001c5de181090421f7afdfe59d020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 15/33] fix: mpz::set_right_shift ignored its operand

---
 src/threading.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/threading.h b/src/threading.h
index 2f46af1..0694c11 100644
--- a/src/threading.h
+++ b/src/threading.h
@@ -442,7 +442,7 @@ template<int d_expected_size, int d_padded_size> struct alignas(64) mpz {
 
     void set_right_shift(const mpz_struct* a, int i) {
         assert(i>=0);
-        mpz_tdiv_q_2exp(*this, *this, i);
+        mpz_tdiv_q_2exp(*this, a, i);
     }
 
     //note: this uses truncation rounding
-- 
2.43.0


From c2f253674b2adf206db84d3226c33c3bfb7e058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 16/33] fix: bit helpers shifted by 64 when asked for all 64
 bits

---
 src/bit_manipulation.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bit_manipulation.h b/src/bit_manipulation.h
index 075a040..713877c 100644
--- a/src/bit_manipulation.h
+++ b/src/bit_manipulation.h
@@ -9,12 +9,17 @@
     return uint64(v);
 } */
 
+//the lowest "size" bits are 1. size can be 64
+constexpr uint64 bit_mask(int size) {
+    return (size>=64)? ~uint64(0) : (uint64(1)<<size)-1;
+}
+
 constexpr uint64 extract_bits(uint64 t, int start, int size) {
     assert(start>=0 && start<64);
     assert(size>=0 && start+size<=64);
 
     t >>= start;
-    t &= (1ull<<size)-1;
+    t &= bit_mask(size);
     return t;
 }
 
@@ -22,13 +27,13 @@ constexpr uint64 insert_bits(uint64 t, uint64 bits, int start, int size) {
     assert(start>=0 && start<64);
     assert(size>=0 && start+size<=64);
     assert(
-        ( bits & ~((1ull<<size)-1) )
+        ( bits & ~bit_mask(size) )
         ==0
     );
 
     bits <<= start;
 
-    uint64 mask = ((1ull<<size)-1) << start;
+    uint64 mask = bit_mask(size) << start;
 
     t &= ~mask;
     t |= bits;
@@ -50,7 +55,7 @@ void output_bits(ostream& out, uint64 bits, int size) {
 }
 
 constexpr uint64 bit_sequence(int start, int size) {
-    return insert_bits(0, (1ull<<size)-1, start, size);
+    return insert_bits(0, bit_mask(size), start, size);
 }
 
 // end Headerguard BIT_MANIPULATION_H
-- 
2.43.0


From 4489d71a4c399fb0ab4de3ef3d9a40eb7359f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 17/33] fix: fixed_integer called opposite numbers equal and
 read past shorter operands

---
 src/gpu_integer.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gpu_integer.h b/src/gpu_integer.h
index ea18493..3f44d69 100644
--- a/src/gpu_integer.h
+++ b/src/gpu_integer.h
@@ -148,7 +148,13 @@ template<class type, int size> struct fixed_integer {
                 res=-res;
             }
         } else {
-            if (res!=0) {
+            //equal only if both are 0
+            type nonzero=0;
+            for (int x=0;x<size_a;++x) nonzero|=a[x];
+            for (int x=0;x<size_b;++x) nonzero|=b[x];
+
+            res=0;
+            if (nonzero!=0) {
                 res=(sign_a==negative_sign)? -1 : 1;
             }
         }
@@ -159,7 +165,7 @@ template<class type, int size> struct fixed_integer {
     template<int b_size> int compare(const fixed_integer<type, b_size>& b) const {
         return compare(
             data+1, size, data[0],
-            b.data+1, size, b.data[0]
+            b.data+1, b_size, b.data[0]
         );
     }
 
-- 
2.43.0


From fb2f5efbea8350958eb2eaa07960784646d6e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 18/33] fix: the client divided by zero on a discriminant that
 is not negative or not a number

---
 src/vdf_client.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 58dc0af..b12b51e 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -158,6 +158,9 @@ void SessionFastAlgorithm(tcp::socket& sock) {
     ConfigureSessionRuntime();
     try {
         integer D(disc);
+        if (mpz_sgn(D.impl) >= 0) {
+            throw std::runtime_error("Invalid discriminant");
+        }
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
@@ -207,6 +210,9 @@ void SessionOneWeso(tcp::socket& sock) {
     ConfigureSessionRuntime();
     try {
         integer D(disc);
+        if (mpz_sgn(D.impl) >= 0) {
+            throw std::runtime_error("Invalid discriminant");
+        }
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
@@ -244,6 +250,9 @@ void SessionTwoWeso(tcp::socket& sock) {
     ConfigureSessionRuntime();
     try {
         integer D(disc);
+        if (mpz_sgn(D.impl) >= 0) {
+            throw std::runtime_error("Invalid discriminant");
+        }
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
-- 
2.43.0


From dde0e238a044027330e567bdecb2a818cdeb0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 19/33] fix: two-part sessions wrote past stop_vector after 100
 requests

---
 src/vdf_client.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index b12b51e..5d1c963 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -3,6 +3,7 @@
 #include "version.hpp"
 #include "vdf_client_session.h"
 #include <atomic>
+#include <deque>
 
 using boost::asio::ip::tcp;
 
@@ -261,7 +262,7 @@ void SessionTwoWeso(tcp::socket& sock) {
         boost::asio::write(sock, boost::asio::buffer("OK", 2));
 
         std::atomic<bool> stopped(false);
-        std::atomic<bool> stop_vector[100];
+        std::deque<std::atomic<bool>> stop_vector; // one per thread; references stay valid
         std::vector<std::thread> threads;
         // (iteration, thread_id)
         std::set<std::pair<uint64_t, uint64_t> > seen_iterations;
@@ -310,9 +311,9 @@ void SessionTwoWeso(tcp::socket& sock) {
                 if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
                     seen_iterations.insert({iters, threads.size()});
                     PrintInfo("Running proving for iter: " + to_string(iters));
-                    stop_vector[threads.size()] = false;
+                    stop_vector.emplace_back(false);
                     threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
-                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector[threads.size()]),
+                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
                                       std::ref(sock)));
                     if (threads.size() > kMaxProcessesAllowed) {
                         PrintInfo("Stopping proving for iter: " + to_string(max_iter));
-- 
2.43.0


From 270441885631e83a12e4669a111cc8449fd49f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 20/33] fix: two-part sessions accepted counts beyond what they
 can prove

---
 src/vdf_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 5d1c963..541f9af 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -304,7 +304,7 @@ void SessionTwoWeso(tcp::socket& sock) {
                     PrintInfo("Duplicate iteration " + to_string(iters) + "... Ignoring.");
                     continue;
                 }
-                if (iters >= kMaxProcessesAllowed - 500000) {
+                if (iters >= kMaxItersAllowed - 500000) {
                     PrintInfo("Too big iter... ignoring");
                     continue;
                 }
-- 
2.43.0


From 1536a3b54e4ada5761194d8124cad25f87143f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 21/33] fix: a peer that vanished or broke the protocol crashed
 the client

---
 src/vdf_client.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 541f9af..ee20fa3 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -44,10 +44,14 @@ void WriteProof(uint64_t iteration, Proof& result, tcp::socket& sock) {
     Int32ToBytes(int_bytes, str_result.size());
 
     PrintInfo("Sending proof");
-    {
+    try {
         std::lock_guard<std::mutex> lock(socket_mutex);
         boost::asio::write(sock, boost::asio::buffer(int_bytes, 4));
         boost::asio::write(sock, boost::asio::buffer(str_result.c_str(), str_result.size()));
+    } catch (std::exception& e) {
+        // The session ends when its next read fails.
+        PrintInfo("Could not send proof: " + to_string(e.what()));
+        return ;
     }
     PrintInfo("Sent proof");
 }
@@ -154,6 +158,17 @@ uint64_t ReadIteration(tcp::socket& sock) {
     return iters;
 }
 
+// A connection that fails or breaks the protocol stops the session like a stop
+// request: the worker threads have to be joined before the session can end.
+uint64_t ReadIterationOrStop(tcp::socket& sock) {
+    try {
+        return ReadIteration(sock);
+    } catch (std::exception& e) {
+        PrintInfo("Exception in thread: " + to_string(e.what()));
+        return 0;
+    }
+}
+
 void SessionFastAlgorithm(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
@@ -166,6 +181,9 @@ void SessionFastAlgorithm(tcp::socket& sock) {
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
         PrintInfo("Initial form: " + to_string(f.a.impl) + " " + to_string(f.b.impl));
+        // Tell client that I'm ready to get the challenges.
+        boost::asio::write(sock, boost::asio::buffer("OK", 2));
+
         std::vector<std::thread> threads;
         const bool multi_proc_machine = (std::thread::hardware_concurrency() >= 16) ? true : false;
         WesolowskiCallback* weso = new FastAlgorithmCallback(segments, D, f, multi_proc_machine);
@@ -178,11 +196,8 @@ void SessionFastAlgorithm(tcp::socket& sock) {
         ProverManager pm(D, (FastAlgorithmCallback*)weso, fast_storage, segments, thread_count);
         pm.start();
 
-        // Tell client that I'm ready to get the challenges.
-        boost::asio::write(sock, boost::asio::buffer("OK", 2));
-
         while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
+            uint64_t iters = ReadIterationOrStop(sock);
             if (iters == 0) {
                 PrintInfo("Got stop signal!");
                 stopped = true;
@@ -230,10 +245,10 @@ void SessionOneWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, iter, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
         std::thread th_prover(CreateAndWriteProofOneWeso, iter, std::ref(D), f, (OneWesolowskiCallback*)weso, std::ref(stopped), std::ref(sock));
-        iter = ReadIteration(sock);
+        iter = ReadIterationOrStop(sock);
         while (iter != 0) {
             std::cout << "Warning: did not receive stop signal\n";
-            iter = ReadIteration(sock);
+            iter = ReadIterationOrStop(sock);
         }
         stopped = true;
         vdf_worker.join();
@@ -271,7 +286,7 @@ void SessionTwoWeso(tcp::socket& sock) {
         std::thread vdf_worker(repeated_square, 0, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
 
         while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
+            uint64_t iters = ReadIterationOrStop(sock);
             if (iters == 0) {
                 PrintInfo("Got stop signal!");
                 stopped = true;
-- 
2.43.0


From fbe4b4fda4664d0aa28de2d126439ae054aac826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 22/33] fix: board voltages out of range wrapped to legal
 codes, and a voltage just read was lowered when set

---
 src/hw/vdf_driver.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/hw/vdf_driver.cpp b/src/hw/vdf_driver.cpp
index 9709b20..92230ad 100644
--- a/src/hw/vdf_driver.cpp
+++ b/src/hw/vdf_driver.cpp
@@ -573,18 +573,21 @@ double VdfDriver::GetBoardVoltage() {
 }
 
 int VdfDriver::SetBoardVoltage(double voltage) {
-  uint8_t vid;
   double vr_factor = 100000.0;
-  uint32_t vr_slope = 625;
-  uint32_t vr_intercept = 24375;
-  vid =
-    (uint8_t)((((uint32_t)(voltage * vr_factor)) - vr_intercept) / vr_slope);
-
-  if ((vid < 0x29) || (vid > 0x79)) {
-    fprintf(stderr, "SetBoardVoltage illegal vid %d for voltage %1.3f\n",
-            vid, voltage);
+  double vr_slope = 625;
+  double vr_intercept = 24375;
+  // Round to the resolution of vr_factor, so that a voltage which was read
+  // from the regulator maps to the vid it was read for.
+  double vid_val =
+    floor((floor(voltage * vr_factor + 0.5) - vr_intercept) / vr_slope);
+
+  // Check the range before narrowing; also rejects NaN
+  if (!((vid_val >= 0x29) && (vid_val <= 0x79))) {
+    fprintf(stderr, "SetBoardVoltage illegal vid %.0f for voltage %1.3f\n",
+            vid_val, voltage);
     return 1;
   }
+  uint8_t vid = (uint8_t)vid_val;
 
   int ret_val = I2CWriteReg(VR_I2C_ADDR, 0x8, 0xe4); // Fixed compensation value
   ret_val |= I2CWriteReg(VR_I2C_ADDR, 0x7, vid);     // Voltage value
-- 
2.43.0


From 5c0df79dd972deb2775f9a293124e6240fdce6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 23/33] fix: frequency steps at the ends of the table reset the
 chip or read past it

---
 src/hw/hw_interface.cpp  | 10 +++++++++-
 src/hw/hw_vdf_client.cpp |  5 +++--
 src/hw/vdf_driver.cpp    |  4 ++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/hw/hw_interface.cpp b/src/hw/hw_interface.cpp
index 129c6c6..248eb93 100644
--- a/src/hw/hw_interface.cpp
+++ b/src/hw/hw_interface.cpp
@@ -139,10 +139,18 @@ void hw_vdf_control(ChiaDriver *drv, uint8_t idx_mask, uint32_t value)
 void adjust_hw_freq(ChiaDriver *drv, uint8_t idx_mask, int direction)
 {
     double freq;
+    int64_t next_idx = (int64_t)drv->freq_idx + direction;
+
+    // Entry 0 stands for the initial setting, which resets the chip
+    if (next_idx < 1 || next_idx >= VALID_PLL_FREQS) {
+        LOG_INFO("Frequency can't be %s; freq_idx = %u",
+                direction > 0 ? "increased" : "decreased", drv->freq_idx);
+        return;
+    }
 
     hw_vdf_control(drv, idx_mask, 0);
 
-    drv->SetPLLFrequency(0.0, drv->freq_idx + direction);
+    drv->SetPLLFrequency(0.0, (uint32_t)next_idx);
     freq = drv->GetPLLFrequency();
     LOG_INFO("Frequency is %s to %.1f MHz; freq_idx = %u",
             direction > 0 ? "increased" : "decreased", freq, drv->freq_idx);
diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 73cefc5..e2aba46 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -470,8 +470,9 @@ void event_loop(struct vdf_client *client)
             uint64_t elapsed = vdf_get_elapsed_us(client->drv->last_freq_update);
             if (elapsed / 1000000 >= client->opts.auto_freq_period) {
                 // Check and see what the next frequency would be, and if its <= max allowed frequency
-                double next_freq = pll_entries[client->drv->freq_idx + 1].freq;
-                if (next_freq <= client->opts.max_freq) {
+                uint32_t next_idx = client->drv->freq_idx + 1;
+                if (next_idx < VALID_PLL_FREQS &&
+                        pll_entries[next_idx].freq <= client->opts.max_freq) {
                     adjust_hw_freq(client->drv, running_mask, 1);
                 } else {
                     LOG_INFO("Can't increase frequency, already at maximum");
diff --git a/src/hw/vdf_driver.cpp b/src/hw/vdf_driver.cpp
index 92230ad..bc8a29d 100644
--- a/src/hw/vdf_driver.cpp
+++ b/src/hw/vdf_driver.cpp
@@ -329,6 +329,10 @@ bool VdfDriver::SetPLLFrequency(double frequency, uint32_t entry_index) {
     fprintf(stderr, "SetPLLFrequency frequency too high %lf\n", frequency);
     return false;
   }
+  if (entry_index >= VALID_PLL_FREQS) {
+    fprintf(stderr, "SetPLLFrequency no table entry %u\n", entry_index);
+    return false;
+  }
 
   if (!entry_index) {
     // Reset is necessary for the initial setting of frequency
-- 
2.43.0


From 643b2182cf7b93d837185c39a191043caca4afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 24/33] fix: hardware values beyond the last iteration or with
 a negative first coefficient were accepted

---
 src/hw/hw_proof.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index c6e1bec..303605d 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -42,7 +42,12 @@ int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val)
     }
     vdf->n_skipped = 0;
 
-    if (mpz_sgn(val->a) == 0) {
+    if (val->iters < vdf->iters_offset || val->iters > vdf->target_iters) {
+        report_bad_vdf_value(vdf, val);
+        return -1;
+    }
+
+    if (mpz_sgn(val->a) <= 0) {
         report_bad_vdf_value(vdf, val);
         return -1;
     }
-- 
2.43.0


From 81128ca5f92cc8a603751e22c7785179b5f67aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 25/33] fix: a stopped proof thread could change the thread
 count of the next session

---
 src/hw/hw_proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 303605d..b405049 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -730,8 +730,9 @@ void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof
 
 out:
     if (thr_idx < vdf->max_aux_threads) {
-        vdf->aux_threads_busy &= ~(1UL << thr_idx);
         vdf->n_proof_threads -= PARALLEL_PROVER_N_THREADS;
+        // Last: once no thread is busy the state may be cleared and reused
+        vdf->aux_threads_busy &= ~(1UL << thr_idx);
     }
 }
 
-- 
2.43.0


From efcbe7b885487643e3fa388e4fea6e56829525ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 26/33] fix: finished hardware proofs were collected without
 their lock

---
 src/hw/hw_proof.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index b405049..3a18b1e 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -751,6 +751,8 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
         }
     }
 #endif
+    // Proof threads add to done_proofs and update flags
+    std::lock_guard<std::mutex> lock(vdf->proofs_resize_mtx);
     if (!vdf->done_proofs.empty()) {
         for (size_t i = 0; i < vdf->done_proofs.size(); i++) {
             uint16_t idx = vdf->done_proofs[i];
-- 
2.43.0


From 690d6562e2f4c00ff785ba61994af62cc2e7c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 27/33] fix: intermediate hardware values were replaced while
 provers read them

---
 src/hw/hw_proof.cpp | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 3a18b1e..ff61f28 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -106,6 +106,8 @@ static const size_t g_values_mult = 1UL << 12;
 
 form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
 {
+    // Called from the event loop, the work threads and the proof threads
+    std::lock_guard<std::mutex> lock(vdf->valid_values_mtx);
     size_t idx = pos / g_values_mult;
     size_t old_size = vdf->values.size();
 
@@ -121,26 +123,36 @@ form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
     return &vdf->values[idx][pos % g_values_mult];
 }
 
+bool hw_proof_have_value(struct vdf_state *vdf, size_t pos)
+{
+    std::lock_guard<std::mutex> lock(vdf->valid_values_mtx);
+    return vdf->valid_values[pos / 8] & (1 << (pos % 8));
+}
+
 form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos)
 {
     size_t pos = vdf->cur_iters / vdf->interval;
 
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_have_value(vdf, pos)) {
         pos--;
     }
     *out_pos = pos;
     return hw_proof_value_at(vdf, pos);
 }
 
-void hw_proof_add_intermediate(struct vdf_state *vdf, struct vdf_value *val, size_t pos)
+void hw_proof_add_intermediate(struct vdf_state *vdf, form &f, size_t pos)
 {
-    if (val) {
-        hw_proof_get_form(hw_proof_value_at(vdf, pos), vdf, val);
-    }
+    form *dst = hw_proof_value_at(vdf, pos);
+
+    // After a restart the same position may be computed again; a stored form
+    // must stay as it is because provers may be reading it.
     vdf->valid_values_mtx.lock();
-    vdf->valid_values[pos / 8] |= 1 << (pos % 8);
+    if (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+        *dst = f;
+        vdf->valid_values[pos / 8] |= 1 << (pos % 8);
+        vdf->done_values++;
+    }
     vdf->valid_values_mtx.unlock();
-    vdf->done_values++;
 }
 
 void hw_proof_calc_values(struct vdf_state *vdf, struct vdf_work *work, int thr_idx)
@@ -180,8 +192,7 @@ void hw_proof_calc_values(struct vdf_state *vdf, struct vdf_work *work, int thr_
                 abort();
             }
 
-            *hw_proof_value_at(vdf, pos) = f;
-            hw_proof_add_intermediate(vdf, NULL, pos);
+            hw_proof_add_intermediate(vdf, f, pos);
 
             next_iters += vdf->interval;
         }
@@ -498,7 +509,7 @@ void hw_proof_wait_values(struct vdf_state *vdf, bool finish_work)
 
 int hw_proof_wait_value(struct vdf_state *vdf, size_t pos)
 {
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_have_value(vdf, pos)) {
         vdf_usleep(100000);
         if (vdf->stopping) {
             return -1;
@@ -524,7 +535,9 @@ void hw_proof_handle_value(struct vdf_state *vdf, struct vdf_value *val)
     bool print_stats = false;
 
     if (val->iters == end_iters) {
-        hw_proof_add_intermediate(vdf, val, val->iters / interval);
+        form f;
+        hw_proof_get_form(&f, vdf, val);
+        hw_proof_add_intermediate(vdf, f, val->iters / interval);
         if (end_iters) {
             end_iters -= interval;
         }
@@ -585,7 +598,7 @@ class HwProver : public ParallelProver {
         pos += pos_offset;
         if (hw_proof_wait_value(vdf, pos)) {
             // Provide arbitrary value when stopping - proof won't be computed
-            return vdf->values[0][0];
+            return *hw_proof_value_at(vdf, 0);
         }
         return *hw_proof_value_at(vdf, pos);
     }
-- 
2.43.0


From 592cb2e964f3c53cc8ba141301835062f9c289ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 28/33] fix: the hardware client died on requests that arrive
 in pieces and overran its buffer on long ones

---
 src/hw/hw_vdf_client.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index e2aba46..194dc9c 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -247,16 +247,22 @@ void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
 {
     char *buf = conn->read_buf;
-    char iters_size_buf[3] = {0}, iters_buf[16];
+    char iters_size_buf[3] = {0}, iters_buf[24];
     uint64_t iters;
     uint32_t bytes = conn->buf_pos, iters_size;
 
-    while (bytes) {
+    while (bytes >= 2) {
         memcpy(iters_size_buf, buf, 2);
         iters_size = strtoul(iters_size_buf, NULL, 10);
-        if (iters_size > sizeof(iters_buf) || bytes < 2 + iters_size) {
-            LOG_ERROR("Bad iters data size: %u", bytes);
-            throw std::runtime_error("Bad data size");
+        if (iters_size >= sizeof(iters_buf)) {
+            LOG_ERROR("VDF %d: Bad iters data size: %u", conn->vdf.idx, iters_size);
+            stop_conn(client, conn);
+            close_conn(conn);
+            return;
+        }
+        if (bytes < 2 + iters_size) {
+            // The rest of the request has not arrived yet
+            break;
         }
         //buf[2 + iters_size] = '\0';
         memcpy(iters_buf, &buf[2], iters_size);
@@ -269,16 +275,15 @@ void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
         } else {
             LOG_INFO("VDF %d: Stop requested", conn->vdf.idx);
             stop_conn(client, conn);
-            bytes -= 2 + iters_size;
+            bytes = 0;
             break;
         }
 
         bytes -= 2 + iters_size;
         buf += 2 + iters_size;
     }
-    if (!bytes) {
-        conn->buf_pos = 0;
-    }
+    memmove(conn->read_buf, buf, bytes);
+    conn->buf_pos = bytes;
     if (!conn->vdf.req_proofs.empty()) {
         size_t n_proofs = conn->vdf.req_proofs.size();
         char iters_str[100];
-- 
2.43.0


From f4f144d932d00957bcef3ced7d63d4b8a58fe4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 29/33] fix: a timelord that vanished killed the hardware
 client

---
 src/hw/hw_vdf_client.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 194dc9c..b25d74b 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -104,6 +104,15 @@ static int vdf_socket_write(vdf_socket_t sock, const char *buf, size_t size)
 #endif
 }
 
+static int vdf_socket_shutdown(vdf_socket_t sock)
+{
+#ifdef _WIN32
+    return shutdown(sock, SD_BOTH);
+#else
+    return shutdown(sock, SHUT_RDWR);
+#endif
+}
+
 static int vdf_socket_close(vdf_socket_t sock)
 {
 #ifdef _WIN32
@@ -146,6 +155,8 @@ void init_conn(struct vdf_conn *conn, uint32_t ip, int port)
     ret = connect(conn->sock, (struct sockaddr *)&sa, sizeof(sa));
     if (ret < 0) {
         perror("connect");
+        vdf_socket_close(conn->sock);
+        conn->sock = kInvalidSocket;
         vdf_sleep(1);
         return;
     }
@@ -175,6 +186,7 @@ void init_vdf_client(struct vdf_client *client)
             continue;
         }
         client->conns[i].vdf.idx = i;
+        client->conns[i].vdf.init_done = false;
         client->conns[i].sock = kInvalidSocket;
         memset(client->conns[i].read_buf, 0, sizeof(client->conns[i].read_buf));
         client->conns[i].buf_pos = 0;
@@ -237,10 +249,21 @@ int read_data(struct vdf_client *client, struct vdf_conn *conn)
 
 void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 {
-    int bytes = vdf_socket_write(conn->sock, buf, size);
-    if (bytes < 0) {
-        perror("write");
-        throw std::runtime_error("Write error");
+    int retries = 1000;
+
+    while (size) {
+        int bytes = vdf_socket_write(conn->sock, buf, size);
+        if (bytes >= 0) {
+            buf += bytes;
+            size -= bytes;
+        } else if (vdf_socket_would_block() && retries--) {
+            vdf_usleep(10000);
+        } else {
+            perror("write");
+            // Makes the next read fail, which stops and closes the connection
+            vdf_socket_shutdown(conn->sock);
+            return;
+        }
     }
 }
 
@@ -742,6 +765,8 @@ int hw_vdf_client_main(int argc, char **argv)
     sa.sa_handler = signal_handler;
     sigaction(SIGINT, &sa, NULL);
     sigaction(SIGTERM, &sa, NULL);
+    // A vanished timelord is noticed by the failing write
+    signal(SIGPIPE, SIG_IGN);
 #endif
 
     event_loop(&client);
-- 
2.43.0


From 15539fc6567bb33837ae1e1abcc96724f96930d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 30/33] fix: the hardware client crashed on malformed
 challenges or ones that arrive in pieces

---
 src/hw/hw_vdf_client.cpp | 47 ++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index b25d74b..73cf511 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -366,6 +366,20 @@ void handle_proofs(struct vdf_client *client, struct vdf_conn *conn)
     }
 }
 
+// The discriminant and the initial form come from the network
+static bool check_challenge(const char *d_str, const uint8_t *init_form)
+{
+    mpz_t d, a, b;
+    bool ok;
+
+    mpz_inits(d, a, b, NULL);
+    ok = !mpz_set_str(d, d_str, 0) && mpz_sgn(d) < 0 && mpz_fdiv_ui(d, 4) == 1 &&
+        mpz_sizeinbase(d, 2) <= BQFC_MAX_D_BITS &&
+        !bqfc_deserialize(a, b, d, init_form, BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false);
+    mpz_clears(d, a, b, NULL);
+    return ok;
+}
+
 void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
 {
     int bytes;
@@ -381,7 +395,8 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
         uint64_t d_size;
         char d_str[350];
         uint64_t n_iters = 2000UL * 1000 * 1000;
-        uint8_t *init_form;
+        uint8_t init_form[BQFC_FORM_SIZE] = {0};
+        size_t size;
 
         bytes = read_data(client, conn);
         if (bytes < 5) {
@@ -390,22 +405,40 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
         }
 
         if (buf[0] != 'S' && buf[0] != 'N' && buf[0] != 'T') {
-            throw std::runtime_error("Bad initial data from timelord");
+            LOG_ERROR("VDF %d: Bad initial data from timelord", vdf->idx);
+            close_conn(conn);
+            return;
         }
 
-        d_size = strtoul(&buf[1], NULL, 10);
+        memcpy(d_str, &buf[1], 3);
+        d_str[3] = '\0';
+        d_size = strtoul(d_str, NULL, 10);
+        if (d_size >= sizeof(d_str)) {
+            LOG_ERROR("VDF %d: Bad discriminant size: %llu", vdf->idx, (unsigned long long)d_size);
+            close_conn(conn);
+            return;
+        }
         if ((uint64_t)bytes < 4 + d_size + 1) {
             /* Expecting initial form after discriminant */
             return;
         }
         memcpy(d_str, &buf[4], d_size);
         d_str[d_size] = '\0';
-        if ((uint64_t)bytes != 4 + d_size + 1 + buf[4 + d_size]) {
-            LOG_ERROR("Bad data size: %d", bytes);
-            throw std::runtime_error("Bad data size");
+        size = (uint8_t)buf[4 + d_size];
+        if ((uint64_t)bytes < 4 + d_size + 1 + size) {
+            /* Expecting the rest of the initial form */
+            return;
+        }
+        if (size <= sizeof(init_form)) {
+            memcpy(init_form, &buf[4 + d_size + 1], size);
+        }
+        if (size > sizeof(init_form) || (uint64_t)bytes != 4 + d_size + 1 + size ||
+                !check_challenge(d_str, init_form)) {
+            LOG_ERROR("VDF %d: Bad challenge, data size: %d", vdf->idx, bytes);
+            close_conn(conn);
+            return;
         }
 
-        init_form = (uint8_t *)&buf[4 + d_size + 1];
         init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx);
         start_hw_vdf(client->drv, vdf->D.impl, vdf->last_val.a, vdf->last_val.b,
                 vdf->target_iters, vdf->idx);
-- 
2.43.0


From bca813994a49b61936b872885e8dfe904cc1e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:39 +0000
Subject: [PATCH 31/33] fix: refuse a start element shorter than a serialized
 form in the Rust verifier

verify_n_wesolowski is a safe function that takes a slice, but passed its
pointer on without its length, and the C++ side reads 100 bytes from it.
---
 rust_bindings/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust_bindings/src/lib.rs b/rust_bindings/src/lib.rs
index fc4c91d..9c4c76d 100644
--- a/rust_bindings/src/lib.rs
+++ b/rust_bindings/src/lib.rs
@@ -9,6 +9,9 @@ mod bindings {
     include!(concat!(env!("OUT_DIR"), "/bindings.rs"));
 }
 
+/// Size in bytes of a serialized form.
+const FORM_SIZE: usize = 100;
+
 pub fn create_discriminant(seed: &[u8], result: &mut [u8]) -> bool {
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and None is returned if so.
@@ -29,6 +32,10 @@ pub fn verify_n_wesolowski(
     num_iterations: u64,
     recursion: u64,
 ) -> bool {
+    // The C++ side reads a whole serialized form through a bare pointer.
+    if x_s.len() < FORM_SIZE {
+        return false;
+    }
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and false is returned if so.
     unsafe {
-- 
2.43.0


From 069e6cbc8c45abb414bc504738ad243c426a50c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:10 +0000
Subject: [PATCH 32/33] fix: the emulator ran two jobs on one engine when a job
 was replaced before it had begun

---
 src/hw/emu_runner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hw/emu_runner.cpp b/src/hw/emu_runner.cpp
index 336ab1a..a806470 100644
--- a/src/hw/emu_runner.cpp
+++ b/src/hw/emu_runner.cpp
@@ -102,8 +102,6 @@ void run_job(int i)
 
     LOG_INFO("Emu %d: Starting run for %lu iters", i, st->target_iter);
 
-    st->error.store(false, std::memory_order_release);
-    st->running.store(true, std::memory_order_release);
     while (!st->stopping.load(std::memory_order_acquire) && st->cur_iter < st->target_iter) {
         nudupl_form(qf2, st->qf, st->d, st->l);
         reducer.reduce(qf2);
@@ -137,6 +135,9 @@ static void start_job(int i)
 
     LOG_INFO("Emu %d: Starting job", i);
     init_state(states[i], &g_job_regs[i]);
+    // Set here, not by the thread: the job may be replaced before it has begun
+    states[i]->error.store(false, std::memory_order_release);
+    states[i]->running.store(true, std::memory_order_release);
     std::thread(job_thread, i).detach();
     //usleep(100000);
 }
-- 
2.43.0


From 2f0938021bcc6a9487af8c96f8ced130ec65f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:15 +0000
Subject: [PATCH 33/33] fix: the hardware client accepted option values that
 wrap into range, and NaN

---
 src/hw/hw_vdf_client.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 73cf511..8718c49 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -568,6 +568,11 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
     opts->vpo.max_proof_threads = 0;
     opts->vdfs_mask = 0;
 
+    // Checked before they are narrowed to the option's type
+    unsigned long vdfs_mask = opts->vdfs_mask;
+    unsigned long aux_threads = opts->vpo.max_aux_threads;
+    unsigned long proof_threads = opts->vpo.max_proof_threads;
+
     while (argi < argc) {
         if (strncmp(argv[argi], "--", 2) != 0) {
             if (argv[argi][0] == '-') {
@@ -645,11 +650,11 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
             }
 #endif
         } else if (!strcmp(name, "vdfs-mask")) {
-            opts->vdfs_mask = strtoul(value, NULL, 0);
+            vdfs_mask = strtoul(value, NULL, 0);
         } else if (!strcmp(name, "vdf-threads")) {
-            opts->vpo.max_aux_threads = strtoul(value, NULL, 0);
+            aux_threads = strtoul(value, NULL, 0);
         } else if (!strcmp(name, "proof-threads")) {
-            opts->vpo.max_proof_threads = strtoul(value, NULL, 0);
+            proof_threads = strtoul(value, NULL, 0);
         } else if (!strcmp(name, "auto-freq-period")) {
             opts->auto_freq = true;
             opts->auto_freq_period = strtoul(value, NULL, 0);
@@ -672,11 +677,11 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
         LOG_SIMPLE("Invalid freq or voltage specified");
         return -1;
     }
-    if (opts->freq < 200 || opts->freq > 2200) {
+    if (!(opts->freq >= 200 && opts->freq <= 2200)) {
         LOG_SIMPLE("Frequency is outside the allowed range");
         return -1;
     }
-    if (opts->voltage < 0.7 || opts->voltage > 1.0) {
+    if (!(opts->voltage >= 0.7 && opts->voltage <= 1.0)) {
         LOG_SIMPLE("Voltage is outside the allowed range");
         return -1;
     }
@@ -684,19 +689,22 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
         LOG_SIMPLE("Invalid IP address specified");
         return -1;
     }
-    if (opts->vdfs_mask > 7) {
+    if (vdfs_mask > 7) {
         LOG_SIMPLE("Invalid VDFs mask");
         return -1;
     }
-    if (opts->vpo.max_aux_threads < 2 || opts->vpo.max_aux_threads > HW_VDF_MAX_AUX_THREADS) {
+    if (aux_threads < 2 || aux_threads > HW_VDF_MAX_AUX_THREADS) {
         LOG_SIMPLE("Number of VDF threads must be between 2 and %d",
                 HW_VDF_MAX_AUX_THREADS);
         return -1;
     }
-    if (opts->vpo.max_proof_threads >= opts->vpo.max_aux_threads) {
+    if (proof_threads >= aux_threads) {
         LOG_SIMPLE("Number of proof threads must be less than VDF threads");
         return -1;
     }
+    opts->vdfs_mask = static_cast<uint8_t>(vdfs_mask);
+    opts->vpo.max_aux_threads = static_cast<uint8_t>(aux_threads);
+    opts->vpo.max_proof_threads = static_cast<uint8_t>(proof_threads);
     if (opts->auto_freq && opts->auto_freq_period < 10) {
         LOG_SIMPLE("Invalid auto freq period");
         return -1;
-- 
2.43.0

