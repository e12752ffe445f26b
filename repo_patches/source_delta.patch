From ff01d71eaabcc59f6e945f67c91794388358dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 01/73] fix: Queue: do not lose the notification of a push or
 abort to a consumer about to wait

push_back, emplace_back and abort changed the state that wait_pop_front tests without holding the mutex it waits
with, and could notify between its test and its wait; the consumer then slept for ever. Passing through head_mutex
before notifying closes the gap.
---
 cpp/lib_moment/multithreading/queue.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/multithreading/queue.h b/cpp/lib_moment/multithreading/queue.h
index 061bc4f..d13e688 100644
--- a/cpp/lib_moment/multithreading/queue.h
+++ b/cpp/lib_moment/multithreading/queue.h
@@ -98,8 +98,9 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
-            this->data_cv.notify_one();
             // ~tail_lock
+            this->sync_with_waiting();
+            this->data_cv.notify_one();
         }
 
         void push_back(elem_t object) {
@@ -113,12 +114,14 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
-            this->data_cv.notify_one();
             // ~tail_lock
+            this->sync_with_waiting();
+            this->data_cv.notify_one();
         }
 
         void abort() noexcept {
             this->abort_flag.test_and_set(std::memory_order_release);
+            this->sync_with_waiting();
             this->data_cv.notify_all();
         }
 
@@ -159,6 +162,15 @@ namespace Moment::Multithreading {
         }
 
     private:
+        /**
+         * Acquires and releases head_mutex, so that a consumer that saw no data (and no abort) is already waiting on
+         * the condition variable, and thus cannot miss the notification that follows.
+         * No lock on head_mutex or tail_mutex should be held by caller.
+         */
+        inline void sync_with_waiting() const noexcept {
+            std::lock_guard head_lock{this->head_mutex};
+        }
+
         /**
          * Locks the head of queue, and waits until a consistent data entry is ready.
          */
-- 
2.43.0


From ad13184ac590cea2bb7059bab3647e0b703b45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 02/73] fix: SymbolTable: a word whose conjugate differs only
 by sign is anti-Hermitian, not Hermitian

fill_to_word_length compared hashes, which ignore the sign.
---
 cpp/lib_moment/symbolic/symbol_table.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7e87051..818a716 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -324,10 +324,11 @@ namespace Moment {
             const size_t seq_hash = op_seq.hash();
             const size_t conj_hash = conj_seq.hash();
 
-            if (seq_hash == conj_hash) {
+            // N.B. Sequences with the same hash might still differ by sign, in which case the symbol is anti-Hermitian.
+            if (1 == OperatorSequence::compare_same_negation(op_seq, conj_seq)) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq}));
-            } else if (seq_hash < conj_hash) {
+            } else if (seq_hash <= conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
             }
-- 
2.43.0


From 247bcf871a6c7e670655ab7307e2f05211634f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 03/73] fix: Dictionary: references to word lists must survive
 growth; use the right iterator after losing a race

Level() and NearestNeighbour() hand out references into a vector that grows, and the
recheck under the write lock dereferenced the stale end iterator.
---
 cpp/lib_moment/dictionary/dictionary.cpp            | 4 ++--
 cpp/lib_moment/dictionary/dictionary.h              | 6 +++---
 cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.cpp b/cpp/lib_moment/dictionary/dictionary.cpp
index fae13fe..f56c76b 100644
--- a/cpp/lib_moment/dictionary/dictionary.cpp
+++ b/cpp/lib_moment/dictionary/dictionary.cpp
@@ -51,8 +51,8 @@ namespace Moment {
         std::atomic_thread_fence(std::memory_order_acquire);
         auto reattempt_offset_iter = this->npa_level_to_offset.find(npa_level);
         if (reattempt_offset_iter != this->npa_level_to_offset.cend()) {
-            const ptrdiff_t offset = offset_iter->second;
-            assert(offset >= this->osgs.size());
+            const ptrdiff_t offset = reattempt_offset_iter->second;
+            assert(offset < this->osgs.size());
             return this->osgs[offset]; // Discard pointless creation...!
         }
 
diff --git a/cpp/lib_moment/dictionary/dictionary.h b/cpp/lib_moment/dictionary/dictionary.h
index 5af507d..fc5cbd5 100644
--- a/cpp/lib_moment/dictionary/dictionary.h
+++ b/cpp/lib_moment/dictionary/dictionary.h
@@ -14,8 +14,8 @@
 #include "multithreading/maintains_mutex.h"
 
 #include <atomic>
+#include <deque>
 #include <map>
-#include <vector>
 
 namespace Moment {
     class Context;
@@ -28,8 +28,8 @@ namespace Moment {
      */
     class Dictionary : protected MaintainsMutex {
     protected:
-        /** List of operator sequences */
-        mutable std::vector<OSGPair> osgs;
+        /** List of operator sequences. N.B. References to elements are handed out, so must not be invalidated by growth. */
+        mutable std::deque<OSGPair> osgs;
 
         /** Key, linking NPA hierarchy level (e.g. moment matrix level) to generator offset */
         mutable std::map<size_t, size_t> npa_level_to_offset;
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
index d1d4872..dbe0f6b 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
@@ -41,7 +41,7 @@ namespace Moment::Pauli {
         auto recheck_key = this->nn_indices.find(index);
         if (recheck_key != this->nn_indices.cend()) {
             // We were beaten in a race to create OSG, so discard work and return existing OSG.
-            const auto osg_offset = find_key->second;
+            const auto osg_offset = recheck_key->second;
             assert(osg_offset < this->osgs.size());
             return this->osgs[osg_offset]; // ~write_lock, ~new_osg
         }
-- 
2.43.0


From 7724e149a8f6bb64a728e7b3d1af9f4021e02ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 04/73] fix: Hermitian multithreaded symbolisation: each cell
 must have exactly one writer

Workers visited both triangles, so two threads wrote the same (row, col) pair
concurrently; besides the race, the two writes differ by conjugation when the
prefactor or the symbol's sign does, so the result depended on the schedule.
---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2c8e1c4..352c83a 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -583,7 +583,8 @@ namespace Moment {
         const auto prefactor = this->bundle.prefactor;
 
         for (size_t col_idx = worker_id; col_idx < row_length; col_idx += max_workers) {
-            for (size_t row_idx = 0; row_idx < row_length; ++row_idx) {
+            // Only upper triangle: lower triangle entry follows by conjugation, so each cell has exactly one writer.
+            for (size_t row_idx = 0; row_idx <= col_idx; ++row_idx) {
 
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const size_t trans_offset = (row_idx * row_length) + col_idx;
-- 
2.43.0


From 144bccbe0fa6dd098db806ced0c5fd3e48150f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 05/73] fix: multithreaded symbolisation registers Hermitian
 words in their positive form

The single-threaded path merges Symbol{positive, elem}; the multithreaded one
merged elem itself, so a word met first with a negative sign became a symbol
for its negation.
---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 352c83a..778e50b 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -107,7 +107,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -167,7 +167,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -419,7 +419,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
@@ -470,7 +470,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
-- 
2.43.0


From 240b6737a1d020a1dd18f251a8775b3ee47bbb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 06/73] fix: localizing matrix indices: words that differ only
 by sign are different words

The hash used as map key ignores the sign, so LM(-iX) was answered with LM(X).
---
 .../matrix_system/indices/localizing_matrix_index.h        | 7 ++++++-
 cpp/lib_moment/scenarios/pauli/indices/monomial_index.h    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
index 5404846..b7e27c1 100644
--- a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
+++ b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
@@ -41,7 +41,12 @@ namespace Moment {
             }
 
             // Then by sequence hash...
-            return (this->WordHash < rhs.WordHash);
+            if (this->WordHash != rhs.WordHash) {
+                return (this->WordHash < rhs.WordHash);
+            }
+
+            // Hash does not include sign, so finally by sign.
+            return (this->Word.get_sign() < rhs.Word.get_sign());
         }
 
         /**
diff --git a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
index f38185c..5da8518 100644
--- a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
+++ b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
@@ -62,7 +62,12 @@ namespace Moment::Pauli {
             }
 
             // Tie-break on word hash
-            return this->WordHash < pmmi.WordHash;
+            if (this->WordHash != pmmi.WordHash) {
+                return this->WordHash < pmmi.WordHash;
+            }
+
+            // Hash does not include sign, so finally tie-break on sign
+            return this->Word.get_sign() < pmmi.Word.get_sign();
         }
 
         [[nodiscard]] operator ::Moment::LocalizingMatrixIndex() const {
-- 
2.43.0


From ec64a59017c37a6cfbcad48b2ccc4c0f49500386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 07/73] fix: do not replace Collins-Gisin tensor another thread
 made while waiting for write lock

---
 cpp/lib_moment/probability/maintains_tensors.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/probability/maintains_tensors.cpp b/cpp/lib_moment/probability/maintains_tensors.cpp
index 4bc2c32..881cc94 100644
--- a/cpp/lib_moment/probability/maintains_tensors.cpp
+++ b/cpp/lib_moment/probability/maintains_tensors.cpp
@@ -42,8 +42,13 @@ namespace Moment  {
             read_lock.unlock();
 
             auto write_lock = this->get_write_lock();
-            this->collinsGisin = this->makeCollinsGisin();
-            const bool has_all_symbols = this->collinsGisin->HasAllSymbols();
+            bool has_all_symbols = false;
+            if (!this->collinsGisin) {
+                this->collinsGisin = this->makeCollinsGisin();
+                has_all_symbols = this->collinsGisin->HasAllSymbols();
+            } else { // Scooped while waiting for write lock: other references to tensor might exist, so do not replace.
+                has_all_symbols = this->collinsGisin->fill_missing_symbols();
+            }
             write_lock.unlock();
 
             read_lock.lock();
-- 
2.43.0


From 57f9e7e9a6efcac4ef505e305232dc84d84e00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 08/73] fix: measurement index one past the end of a tensor is
 out of bounds

---
 cpp/lib_moment/probability/collins_gisin.cpp              | 4 ++--
 .../scenarios/inflation/inflation_collins_gisin.cpp       | 6 +++---
 .../scenarios/inflation/inflation_probability_tensor.cpp  | 8 ++++----
 .../scenarios/locality/locality_collins_gisin.cpp         | 6 +++---
 .../scenarios/locality/locality_probability_tensor.cpp    | 8 ++++----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index ea3e06d..835031e 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -169,7 +169,7 @@ namespace Moment {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
 
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex > this->gmIndex.size()) {
+            if (mmtIndex >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex];
@@ -191,7 +191,7 @@ namespace Moment {
 
         for (size_t n = 0; n < mmtIndices.size(); ++n) {
 
-            if (mmtIndices[n] > this->gmIndex.size()) {
+            if (mmtIndices[n] >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndices[n]];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index af0f746..83e64c7 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -92,7 +92,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -112,7 +112,7 @@ namespace Moment::Inflation {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -125,7 +125,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: fixedOutcomes) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index 729fa5a..e5a3baf 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -48,7 +48,7 @@ namespace Moment::Inflation {
         for (const auto& mmtIndex : mmtIndices) {
 
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
 
@@ -69,7 +69,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (const auto& mmtIndex : freeMeasurements) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -81,7 +81,7 @@ namespace Moment::Inflation {
 
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -100,7 +100,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (index[global_index] != 0) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 79a1f20..6b361f2 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -69,7 +69,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -88,7 +88,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -100,7 +100,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index d43db38..e75aa85 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -52,7 +52,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex  upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -73,7 +73,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : freeMeasurements) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -85,7 +85,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -104,7 +104,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
-- 
2.43.0


From 059f3ad4faacf5f49f638d3f1e8786e371064dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 09/73] fix: polynomial tensor not marked complete if filling
 it fails

---
 cpp/lib_moment/probability/polynomial_tensor.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cpp/lib_moment/probability/polynomial_tensor.cpp b/cpp/lib_moment/probability/polynomial_tensor.cpp
index 792cfdf..1593fe4 100644
--- a/cpp/lib_moment/probability/polynomial_tensor.cpp
+++ b/cpp/lib_moment/probability/polynomial_tensor.cpp
@@ -32,20 +32,19 @@ namespace Moment {
         assert(this->StorageType == TensorStorageType::Explicit);
         assert(this->missingSymbols.has_value());
 
-        this->hasAllSymbols = true;
+        bool found_all = true; // (Only recorded once complete, in case of exceptions.)
         DynamicBitset<uint64_t, size_t> still_missing(this->ElementCount);
         for (size_t symbol_id : *this->missingSymbols) {
             // Attempt to resolve.
             const bool found = this->attempt_symbol_resolution(this->data[symbol_id]);
             if (!found) {
-                this->hasAllSymbols = false;
+                found_all = false;
                 still_missing.set(symbol_id);
             }
         }
 
-        if (!this->hasAllSymbols) {
-            this->missingSymbols->swap(still_missing);
-        }
+        this->missingSymbols->swap(still_missing);
+        this->hasAllSymbols = found_all;
 
         return this->hasAllSymbols;
     }
-- 
2.43.0


From 6db4ab2dd5d3534a346d9b07ac550c2b37f8b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 10/73] fix: beginning and end of index range allocate, so are
 not noexcept

---
 cpp/lib_moment/tensor/multi_dimensional_index_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/tensor/multi_dimensional_index_iterator.h b/cpp/lib_moment/tensor/multi_dimensional_index_iterator.h
index a2eadd8..018a178 100644
--- a/cpp/lib_moment/tensor/multi_dimensional_index_iterator.h
+++ b/cpp/lib_moment/tensor/multi_dimensional_index_iterator.h
@@ -171,11 +171,11 @@ namespace Moment {
 
         MultiDimensionalIndexRange(std::initializer_list<size_t> limits) : max_vals{limits} { }
 
-        [[nodiscard]] constexpr auto begin() const noexcept {
+        [[nodiscard]] constexpr auto begin() const {
             return MultiDimensionalIndexIterator<reversed_indices>{max_vals};
         }
 
-        [[nodiscard]] constexpr auto end() const noexcept {
+        [[nodiscard]] constexpr auto end() const {
             return MultiDimensionalIndexIterator<reversed_indices>{max_vals, true};
         }
     };
-- 
2.43.0


From 89b44d8e5d50e7e6336cdf56c38ce44e66778133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 11/73] fix: take read lock before counting word lists in
 dictionary

---
 cpp/lib_moment/dictionary/dictionary.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.h b/cpp/lib_moment/dictionary/dictionary.h
index fc5cbd5..700a09b 100644
--- a/cpp/lib_moment/dictionary/dictionary.h
+++ b/cpp/lib_moment/dictionary/dictionary.h
@@ -71,7 +71,8 @@ namespace Moment {
         /**
          * Return number of registered OSGs
          */
-        [[nodiscard]] inline size_t size() const noexcept {
+        [[nodiscard]] inline size_t size() const {
+            auto read_lock = this->get_read_lock();
             return this->osgs.size();
         }
 
-- 
2.43.0


From 5ab6e1427fa3162af33e77a973b9f17e4f23cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 12/73] fix: wrapped duplication over lattices that are not
 square

---
 .../scenarios/pauli/symmetry/lattice_duplicator.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 5affa3e..391cf9d 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -97,7 +97,7 @@ namespace Moment::Pauli {
 
             // Lattice
             for (size_t col = 0; col < hasher.row_width; ++col) {
-                for (size_t row = (col != 0) ? 0 : 1; row < hasher.row_width; ++row) {
+                for (size_t row = (col != 0) ? 0 : 1; row < hasher.column_height; ++row) {
                     for (const auto& base_hash : base_hashes) {
                         output.emplace_back(OperatorSequence::ConstructPresortedFlag{},
                                             hasher.unhash(hasher.lattice_shift(base_hash, row, col)),
@@ -145,8 +145,8 @@ namespace Moment::Pauli {
             // Reason from indices if aliasing is completely impossible
             MomentSimplifierNoWrappingLattice nowrap{duplicator.context};
             auto [max_row, max_col] = nowrap.lattice_supremum(lattice_indices);
-            const bool no_horz_alias = (max_row <= hasher.row_width/2);
-            const bool no_vert_alias = (max_col <= hasher.column_height/2);
+            const bool no_horz_alias = (max_col <= hasher.row_width/2);
+            const bool no_vert_alias = (max_row <= hasher.column_height/2);
             if (no_horz_alias && no_vert_alias) {
                 return do_unaliased_lattice_symmetric_fill(duplicator, output, hasher, lattice_indices);
             }
-- 
2.43.0


From 96510d1a9458de3adf83a1716bcd7953e04c900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 13/73] fix: neighbours on wrapped lattice without
 translational symmetry

---
 .../pauli/symmetry/lattice_duplicator.cpp     | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 391cf9d..bc3a3a4 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -22,6 +22,7 @@
 
 #include <algorithm>
 #include <map>
+#include <memory>
 
 namespace Moment::Pauli {
     namespace {
@@ -207,16 +208,17 @@ namespace Moment::Pauli {
          * @tparam num_slides Number of slides in the hasher
          * @param duplicator LatticeDuplicator object
          * @param output MUST match duplicator.output. Exposed only due to privacy.
+         * @param simplifier The wrapping simplifier, whose hasher is used.
          * @param lattice_sites
          */
         template<size_t num_slides>
         std::pair<size_t, size_t> do_symmetric_fill(LatticeDuplicator& duplicator,
                                                     std::vector<OperatorSequence>& output,
+                                                    const MomentSimplifier& simplifier,
                                                     const std::span<const size_t> lattice_indices,
                                                     const bool check_for_aliases) {
             // Convert hasher to implementation:~
-            const auto& moment_simplifier =
-                    dynamic_cast<const MomentSimplifierWrapping<num_slides>&>(duplicator.context.moment_simplifier());
+            const auto& moment_simplifier = dynamic_cast<const MomentSimplifierWrapping<num_slides>&>(simplifier);
             const auto& hasher = moment_simplifier.site_hasher;
 
             // Invoke appropriate duplicator
@@ -321,23 +323,30 @@ namespace Moment::Pauli {
         }
 
         // Otherwise, we use cyclic hasher to facilitate our duplications
-        switch(this->context.moment_simplifier().impl_label) {
+        // (a wrapped context only has its own simplifier if it is also translationally symmetric)
+        std::unique_ptr<MomentSimplifier> local_simplifier;
+        if (this->context.translational_symmetry == SymmetryType::None) {
+            local_simplifier = MomentSimplifier::make(this->context);
+        }
+        const MomentSimplifier& simplifier = local_simplifier ? *local_simplifier : this->context.moment_simplifier();
+
+        switch(simplifier.impl_label) {
             case 1:
-                return do_symmetric_fill<1>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<1>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 2:
-                return do_symmetric_fill<2>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<2>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 3:
-                return do_symmetric_fill<3>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<3>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 4:
-                return do_symmetric_fill<4>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<4>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 5:
-                return do_symmetric_fill<5>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<5>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 6:
-                return do_symmetric_fill<6>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<6>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 7:
-                return do_symmetric_fill<7>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<7>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 8:
-                return do_symmetric_fill<8>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<8>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             default:
                 throw std::runtime_error{"Cannot invoke symmetrical duplication for this specialization."};
         }
-- 
2.43.0


From 2d397c98c32b3c7f6575e82c1880b16289cf1107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 14/73] fix: fourth corner of lattice triplets

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index d207cfd..f3b87aa 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -205,7 +205,7 @@ namespace Moment::Pauli {
                 // Bottom left corner
                 ld.symmetrical_fill(std::array<size_t, 3>{0, 1, context.col_height+1}, false);
                 // Bottom right corner
-                ld.symmetrical_fill(std::array<size_t, 3>{0, context.col_height, context.col_height+1}, false);
+                ld.symmetrical_fill(std::array<size_t, 3>{1, context.col_height, context.col_height+1}, false);
             }
 
             return sequences.size() - initial_count;
-- 
2.43.0


From df16bc667f906dcba8e79e7a46be087ea5ef1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 15/73] fix: no repeated neighbours on small wrapped systems

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 14 ++++++++++++++
 cpp/lib_moment/scenarios/pauli/pauli_osg.h   |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index f3b87aa..da8f43c 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -12,6 +12,8 @@
 #include "utilities/combinations.h"
 #include "dictionary/multi_operator_iterator.h"
 
+#include <set>
+
 namespace Moment::Pauli {
     namespace {
         /**
@@ -386,6 +388,18 @@ namespace Moment::Pauli {
                                                word_length, this->nearest_neighbour_index.neighbours);
             }
         }
+
+        // On small wrapped systems, different selections of neighbours can alias to the same qubits
+        if (wrap) {
+            this->remove_duplicate_sequences();
+        }
+    }
+
+    void PauliSequenceGenerator::remove_duplicate_sequences() {
+        std::set<uint64_t> known_hashes;
+        std::erase_if(this->unique_sequences, [&known_hashes](const OperatorSequence& seq) {
+            return !known_hashes.insert(seq.hash()).second;
+        });
     }
 
 
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.h b/cpp/lib_moment/scenarios/pauli/pauli_osg.h
index c1c7c9a..e0139e5 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.h
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.h
@@ -54,6 +54,9 @@ namespace Moment::Pauli {
         /** Calculates nearest-neighbours for OSG */
         void compute_nearest_neighbour_sequences();
 
+        /** Removes repeated sequences, keeping the first of each. */
+        void remove_duplicate_sequences();
+
         /** Adds identity. */
         void add_length_zero_sequence();
 
-- 
2.43.0


From c8fa7f9a50749d74c3deb46857122dbead7ba595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 16/73] fix: multiply matrices by monomial symbols with the
 stated conjugation

---
 cpp/lib_moment/matrix/symbolic_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/symbolic_matrix.cpp b/cpp/lib_moment/matrix/symbolic_matrix.cpp
index 320de12..ca75e00 100644
--- a/cpp/lib_moment/matrix/symbolic_matrix.cpp
+++ b/cpp/lib_moment/matrix/symbolic_matrix.cpp
@@ -156,8 +156,8 @@ namespace Moment {
             // Resolve monomial into operator sequence using symbol table
             assert(mono.id >= 0 && mono.id < symbol_registry.size());
             assert(symbol_registry[mono.id].has_sequence());
-            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence()
-                                                      : symbol_registry[mono.id].sequence_conj();
+            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence_conj()
+                                                      : symbol_registry[mono.id].sequence();
 
             // Invoke operator sequence multiplication
             if constexpr (premultiply) {
-- 
2.43.0


From e155eb9af0659e23cf7c5811f84d6df99b7f2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 17/73] fix: matrix with complex prefactor is not Hermitian

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 5 +++++
 cpp/lib_moment/matrix/value_matrix.cpp    | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 9bd2d78..3e22198 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -67,6 +67,11 @@ namespace Moment {
         } else if (this->unaliased_op_mat) { // Otherwise, properties from unaliased matrix
             this->unaliased_op_mat->set_properties(*this);
         }
+
+        // A complex prefactor spoils the hermicity of the operator matrix.
+        if (!approximately_real(prefactor)) {
+            this->hermitian = false;
+        }
     }
 
     MonomialMatrix::~MonomialMatrix() noexcept = default;
diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 783fef0..6a3732d 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -206,7 +206,9 @@ namespace Moment {
 
             // Deduce if Hermitian
             const bool new_matrix_hermitian = [&]() {
-                if (this->hermitian) {
+                if (!approximately_real(weight, poly_factory.zero_tolerance)) {
+                    return false;
+                } else if (this->hermitian) {
                     auto lhs_ht = lhs.hermitian_type();
                     return (lhs_ht == HermitianType::Hermitian);
                 } else if (this->antihermitian) {
-- 
2.43.0


From d0618120ddbda775652e775d0305fcfb9469585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 18/73] fix: copy monomial matrices that have no operator
 matrix

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 3e22198..9a5f86a 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -172,13 +172,20 @@ namespace Moment {
         auto cloned_symbol_matrix =  std::make_unique<SquareMatrix<Monomial>>(this->dimension,
                                                                               std::move(cloned_symbol_data));
 
+        // Matrices without operators are copied by symbol alone
+        if (!this->has_unaliased_operator_matrix()) {
+            auto copied_matrix = std::make_unique<MonomialMatrix>(this->context, this->symbol_table, 1.0,
+                                                                  std::move(cloned_symbol_matrix),
+                                                                  this->hermitian, this->global_prefactor);
+            this->copy_properties_onto_clone(*copied_matrix);
+            return copied_matrix;
+        }
+
         // Make copy of the matrix
         std::unique_ptr<MonomialMatrix> copied_matrix =
                 std::make_unique<MonomialMatrix>(symbol_table,
-                                                this->has_unaliased_operator_matrix()
-                                                    ? this->unaliased_operator_matrix().clone(policy)
-                                                    : nullptr,
-                                                context.can_have_aliases() && this->has_aliased_operator_matrix()
+                                                 this->unaliased_operator_matrix().clone(policy),
+                                                 context.can_have_aliases() && this->has_aliased_operator_matrix()
                                                      ? this->aliased_operator_matrix().clone(policy)
                                                      : nullptr,
                                                  std::move(cloned_symbol_matrix));
-- 
2.43.0


From 52ed3da739cb262f7997650778776c12702a5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 19/73] fix: allow polynomial matrices to be copied

---
 cpp/lib_moment/matrix/polynomial_matrix.cpp | 11 +++++++++++
 cpp/lib_moment/matrix/polynomial_matrix.h   |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 364ad3b..ceb484b 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -144,6 +144,17 @@ namespace Moment {
         this->identify_symbols_and_basis_indices(factory.zero_tolerance);
     }
 
+    std::unique_ptr<SymbolicMatrix> PolynomialMatrix::clone(Multithreading::MultiThreadPolicy policy) const {
+        std::vector<Polynomial> cloned_data(this->sym_exp_matrix->begin(), this->sym_exp_matrix->end());
+        auto copied_matrix = std::make_unique<PolynomialMatrix>(
+                this->context, this->symbol_table, 1.0,
+                std::make_unique<MatrixData>(this->dimension, std::move(cloned_data))
+            );
+
+        this->copy_properties_onto_clone(*copied_matrix);
+        return copied_matrix;
+    }
+
     /**
      * Force renumbering of matrix bases keys
      */
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.h b/cpp/lib_moment/matrix/polynomial_matrix.h
index d8ab5ff..2f27837 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.h
+++ b/cpp/lib_moment/matrix/polynomial_matrix.h
@@ -122,6 +122,8 @@ namespace Moment {
         std::unique_ptr<PolynomialMatrix> add(const Polynomial& rhs, const PolynomialFactory& poly_factory,
                                               Multithreading::MultiThreadPolicy policy) const override;
 
+        [[nodiscard]] std::unique_ptr<SymbolicMatrix> clone(Multithreading::MultiThreadPolicy policy) const override;
+
     protected:
         /**
          * Create dense basis.
-- 
2.43.0


From 8ce2851a4f9e827b9d0985da6ef77b0a77d3401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 20/73] fix: check every stored element when testing hermicity
 of sparse matrices

---
 cpp/lib_moment/utilities/eigen_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 69e994b..6c9d9c5 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -78,7 +78,7 @@ namespace Moment {
 
         for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
             for  (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
-                if (inner_iter.row() > outer) {
+                if (inner_iter.row() != outer) {
                     if (!approximately_equal(data.coeff(inner_iter.col(), inner_iter.row()),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -103,7 +103,7 @@ namespace Moment {
                     if (!approximately_real(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else if (inner_iter.row() != outer) {
                     if (!approximately_equal(std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -145,7 +145,7 @@ namespace Moment {
                     if (!approximately_imaginary(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else if (inner_iter.row() != outer) {
                     if (!approximately_equal(-std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
-- 
2.43.0


From 7f59bcc52814df9657ad82ef7dcb2e37657790c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 21/73] fix: compare general symbols when testing polynomials
 for conjugacy

---
 cpp/lib_moment/symbolic/polynomial.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a4191f2..a776f1c 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -403,6 +403,23 @@ namespace Moment {
                 } else {
                     return false;
                 }
+            } else if ((index + 1 < iMax) && (this->data[index+1].id == lhs_elem.id)) {
+                // Both X and X* appear on LHS, so both must appear on RHS with factors exchanged
+                const auto& lhs_next = this->data[index+1];
+                const auto& rhs_next = other.data[index+1];
+                if ((rhs_next.id != lhs_elem.id)
+                    || (lhs_elem.conjugated != rhs_elem.conjugated)
+                    || !approximately_equal(lhs_elem.factor, std::conj(rhs_next.factor))
+                    || !approximately_equal(lhs_next.factor, std::conj(rhs_elem.factor))) {
+                    return false;
+                }
+                ++index;
+            } else {
+                // X on one side must be X* on the other.
+                if ((lhs_elem.conjugated == rhs_elem.conjugated)
+                    || !approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
+                    return false;
+                }
             }
         }
 
-- 
2.43.0


From 71b1107ac8f656f78b897438351919cbdebe29c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 22/73] fix: register products whose factors begin those of a
 longer product

---
 .../multithreading/temporary_symbols_and_factors.cpp        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
index 7be6692..91ff60e 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
@@ -43,8 +43,10 @@ namespace Moment::Multithreading {
         // Can we directly find node?
         auto [hint_tree, hint_factors] = this->index_tree.find_node_or_return_hint(joint_factors);
         if (hint_factors.empty()) {
-            assert (hint_tree->value().has_value());
-            return hint_tree->value().value();
+            // Node might only exist as the beginning of a longer list of factors, in which case it has no value yet.
+            if (auto maybe_symbol_index = hint_tree->value(); maybe_symbol_index.has_value()) {
+                return maybe_symbol_index.value();
+            }
         }
 
         // Did not find, so we have to upgrade our lock
-- 
2.43.0


From 714c77a5b92f442f9d4c28632bc3bf015068d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 23/73] fix: product of factors that include zero is zero alone

---
 cpp/lib_moment/scenarios/inflation/factor_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 6212088..efea45d 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -368,7 +368,7 @@ namespace Moment::Inflation {
         // If "0" is somehow a factor of either left or right, the product is zero
         assert(!output.empty());
         if (output[0] == 0) [[unlikely]] {
-            output.emplace_back(0);
+            output.assign(1, 0);
             return;
         }
 
-- 
2.43.0


From fc40e86b6b943478f991a0fca9291e6267166a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 24/73] fix: refuse unknown extension symbols also when
 multithreaded

---
 .../scenarios/inflation/extended_matrix.cpp    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index a4055a5..2a6d39d 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -61,15 +61,6 @@ namespace Moment::Inflation {
                                            const MomentMatrix& moment_matrix,
                                            const std::span<const symbol_name_t> extension_scalars) {
 
-            // Check scalars are in range
-            for (const auto scalar : extension_scalars) {
-                if ((scalar >= symbols.size()) || (scalar < 0)) {
-                    std::stringstream errSS;
-                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
-                    throw std::logic_error{errSS.str()};
-                }
-            }
-
             // Create matrix, with source matrix as upper block
             const size_t padding = extension_scalars.size();
             auto extended_matrix = source.SymbolMatrix().pad(padding, Monomial{0});
@@ -163,6 +154,15 @@ namespace Moment::Inflation {
                 throw std::invalid_argument{"Scalar extension of non-Hermitian matrices is not supported."};
             }
 
+            // Check scalars are in range
+            for (const auto scalar : extension_scalars) {
+                if ((scalar >= symbols.size()) || (scalar < 0)) {
+                    std::stringstream errSS;
+                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
+                    throw std::logic_error{errSS.str()};
+                }
+            }
+
             // Get target dimension
             const size_t target_dimension = source.Dimension() + extension_scalars.size();
             const bool should_multithread
-- 
2.43.0


From d460625997ea2f005f8790c68c47ff20a2cc42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 25/73] fix: do not hold references into the factor table while
 it grows

---
 cpp/lib_moment/scenarios/inflation/extended_matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index 2a6d39d..bc8e56f 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -103,7 +103,8 @@ namespace Moment::Inflation {
 
             // Make bottom-right block
             for (size_t i = 0, iMax = extension_scalars.size(); i < iMax; ++i) {
-                const auto& row_factors = factors[extension_scalars[i]].canonical.symbols;
+                // Copy, because of possible re-allocation within factor table!
+                const auto row_factors = factors[extension_scalars[i]].canonical.symbols;
                 auto diag_fac_id = combine_and_register_factors(symbols, factors, row_factors, row_factors);
                 const std::array<size_t,2> diag_index{old_dimension+i, old_dimension+i};
                 extended_matrix(diag_index) = Monomial{diag_fac_id};
-- 
2.43.0


From a033835f553468a2bc67827f31db4c35392c8830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 26/73] fix: leave rulebook expansion mode, and undo a failed
 expansion, when expand_rulebook returns

---
 .../inflation/inflation_matrix_system.cpp     | 20 ++++++++++------
 .../symbolic/rules/moment_rulebook.cpp        | 13 +++++++++++
 .../symbolic/rules/moment_rulebook.h          | 23 +++++++++++++++++++
 3 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 814272c..08bf00f 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -113,7 +113,7 @@ namespace Moment::Inflation {
         assert(&rulebook.factory == &this->polynomial_factory());
 
         // Do not expand rulebook if it does not permit it, or if it is empty
-        if (!rulebook.enable_expansion() || rulebook.empty()) {
+        if (!rulebook.allows_expansion() || rulebook.empty()) {
             return 0;
         }
 
@@ -173,12 +173,18 @@ namespace Moment::Inflation {
 
         }
 
-        rulebook.add_raw_rules(std::move(new_rules));
-
-        // Compile rules
-        ptrdiff_t final_rule_count = rulebook.complete();
-
-        // Turn off rulebook's expansion mode
+        // Add and compile rules; whether or not this succeeds, rulebook's expansion mode must be over afterwards.
+        auto original_rules = rulebook.snapshot();
+        ptrdiff_t final_rule_count = 0;
+        rulebook.enable_expansion();
+        try {
+            rulebook.add_raw_rules(std::move(new_rules));
+            final_rule_count = rulebook.complete();
+        } catch (...) {
+            rulebook.disable_expansion();
+            rulebook.restore(std::move(original_rules));
+            throw;
+        }
         rulebook.disable_expansion();
 
         // How many rules?
diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 9f6999e..dacb74f 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -453,6 +453,19 @@ namespace Moment {
         }
     }
 
+    MomentRulebook::Snapshot MomentRulebook::snapshot() const {
+        return Snapshot{this->human_readable_name, this->rules, this->monomial_rules, this->hermitian_rules};
+    }
+
+    void MomentRulebook::restore(Snapshot&& snapshot) {
+        this->human_readable_name = std::move(snapshot.human_readable_name);
+        this->rules = std::move(snapshot.rules);
+        this->monomial_rules = snapshot.monomial_rules;
+        this->hermitian_rules = snapshot.hermitian_rules;
+        this->raw_rules.clear();
+        this->remake_keys();
+    }
+
     void MomentRulebook::remake_keys() {
         this->rules_in_order.clear();
         for (auto iter = rules.begin(); iter != rules.end(); ++iter) {
diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.h b/cpp/lib_moment/symbolic/rules/moment_rulebook.h
index b87133a..372f358 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.h
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.h
@@ -329,6 +329,29 @@ namespace Moment {
              this->in_expansion_mode = false;
          }
 
+         /**
+          * True if rulebook may be expanded when in use.
+          */
+         [[nodiscard]] bool allows_expansion() const noexcept { return this->allow_safe_updates; }
+
+         /** Completed rules of a rulebook, at a moment in time. */
+         struct Snapshot {
+             std::string human_readable_name;
+             rule_map_t rules;
+             bool monomial_rules;
+             bool hermitian_rules;
+         };
+
+         /**
+          * Copy completed rules, so that they may be restored if a later change to the rulebook fails.
+          */
+         [[nodiscard]] Snapshot snapshot() const;
+
+         /**
+          * Put rulebook back to a previous state, discarding any pending rules.
+          */
+         void restore(Snapshot&& snapshot);
+
          /**
           * Finds pointer to the first rule in RHS rulebook that is not implied by this rulebook, or nullptr otherwise.
           */
-- 
2.43.0


From d4fec697aea1407fb6e64b4ac95e0aa674310d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 27/73] fix: a merge whose rules cannot be expanded leaves the
 rulebook as it was

---
 cpp/lib_moment/matrix_system/rulebook_storage.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/rulebook_storage.cpp b/cpp/lib_moment/matrix_system/rulebook_storage.cpp
index 21c75d0..ccb4cec 100644
--- a/cpp/lib_moment/matrix_system/rulebook_storage.cpp
+++ b/cpp/lib_moment/matrix_system/rulebook_storage.cpp
@@ -68,12 +68,19 @@ namespace Moment {
         assert(write_lock.owns_lock());
         auto& existing_rulebook = this->find(existing_rulebook_id);
 
+        auto original_rulebook = existing_rulebook.snapshot();
         existing_rulebook.combine_and_complete(std::move(input_rulebook));
 
         // NB: Name should be handled already, either from existing name, or newly-merged-in name.
 
         // Dispatch notification of merge-in to derived classes
-        this->system.on_rulebook_added(write_lock, existing_rulebook_id, existing_rulebook, false);
+        try {
+            this->system.on_rulebook_added(write_lock, existing_rulebook_id, existing_rulebook, false);
+        } catch (...) {
+            // Derived class cannot accept the merged rulebook: put it back as it was
+            existing_rulebook.restore(std::move(original_rulebook));
+            throw;
+        }
 
         // Return merged book
         return {existing_rulebook_id, existing_rulebook};
-- 
2.43.0


From fa3abb212111c4e210a4a93d73d87efd389b1789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 28/73] fix: expand rulebooks to the products of moments
 registered by an extended matrix

---
 .../inflation/inflation_matrix_system.cpp       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 08bf00f..14805ed 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -59,10 +59,19 @@ namespace Moment::Inflation {
         }
         auto& monomial_source = dynamic_cast<MonomialMatrix&>(source);
 
-        return std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
-                                                this->polynomial_factory().zero_tolerance,
-                                                monomial_source, index.extension_list,
-                                                mt_policy);
+        const size_t prev_symbol_count = this->Symbols().size();
+        auto extended_matrix = std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
+                                                                this->polynomial_factory().zero_tolerance,
+                                                                monomial_source, index.extension_list,
+                                                                mt_policy);
+
+        // Extension can register new products of moments, to which the rulebooks must also apply
+        const size_t new_symbol_count = this->Symbols().size();
+        if (new_symbol_count > prev_symbol_count) {
+            this->on_new_symbols_registered(lock, prev_symbol_count, new_symbol_count);
+        }
+
+        return extended_matrix;
     }
 
     std::set<symbol_name_t> InflationMatrixSystem::suggest_extensions(const class MonomialMatrix& matrix) const {
-- 
2.43.0


From 3722dea03862b46b55be9da81f44690eb69d0266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 29/73] fix: report exceptions thrown by matrix transformation
 workers

---
 .../matrix_transformation_worker.h            | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cpp/lib_moment/multithreading/matrix_transformation_worker.h b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
index 67c4ea7..c797296 100644
--- a/cpp/lib_moment/multithreading/matrix_transformation_worker.h
+++ b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
@@ -91,19 +91,28 @@ namespace Moment::Multithreading {
         // Create and start workers
         std::vector<worker_t> workers;
         workers.reserve(num_threads);
-        for (size_t index = 0; index < num_threads; ++index) {
-            // Once created, worker will immediately begin computing (perhaps before other workers are even initiated).
-            workers.emplace_back(dimension, input_data, output_data, index, num_threads, the_functor);
+        try {
+            for (size_t index = 0; index < num_threads; ++index) {
+                // Once created, worker will immediately begin computing (perhaps before other workers are even initiated).
+                workers.emplace_back(dimension, input_data, output_data, index, num_threads, the_functor);
+            }
+        } catch (...) {
+            // Could not start every worker: wait for those that did start, before passing on exception
+            for (auto &worker: workers) {
+                worker.join();
+            }
+            throw;
         }
 
         // Wait for all threads to finish...
         for (auto &worker: workers) {
             worker.join();
-            // If worker had an exception, propagate it to main thread:
-            if constexpr(!noexcept(the_functor)) {
-                if (worker.exception) {
-                    std::rethrow_exception(worker.exception);
-                }
+        }
+
+        // If worker had an exception, propagate it to main thread (but only once no worker is running):
+        for (auto &worker: workers) {
+            if (worker.exception) {
+                std::rethrow_exception(worker.exception);
             }
         }
     }
-- 
2.43.0


From 56928150b8969aa8a35a60f6354291c47faa62d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 30/73] fix: imaginary part of a polynomial uses its own
 coefficients of real basis elements

---
 cpp/lib_moment/symbolic/polynomial_to_basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
index fdd2ab2..feb8450 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
@@ -230,7 +230,7 @@ namespace Moment {
                     // Im(Z) can be non-zero
                     if constexpr(export_imaginary) {
                         if (!approximately_zero(bz_factor_ax, zero_tolerance)) {
-                            imaginary_output.real.insert(basis_X_real) = az_factor_ax;
+                            imaginary_output.real.insert(basis_X_real) = bz_factor_ax;
                         }
                     }
 
-- 
2.43.0


From 4aa090190e07d815820a6be2d34bff5e646446df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 31/73] fix: ByHashPolynomialFactory::maximum_degree steps past
 symbols without operator sequences

---
 cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
index de4df98..0b3a76d 100644
--- a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
+++ b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
@@ -48,6 +48,7 @@ namespace Moment {
             if (symbol.has_sequence()) {
                 return symbol.sequence().size();
             }
+            ++rev_iter;
         }
 
         // Nothing found; 0 degree
-- 
2.43.0


From 1203f6300a4c9ef10cabf70d34d33b03bd2cd05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 32/73] fix: exported rulebook matrices rewrite constrained
 basis elements referred to by other rules

---
 .../rules/moment_rulebook_to_basis.cpp        | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
index a82aa51..b003470 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
@@ -15,6 +15,9 @@
 
 #include "../symbol_table.h"
 
+#include <algorithm>
+#include <set>
+
 namespace Moment {
 
     MomentRulebookToBasis::MomentRulebookToBasis(const PolynomialFactory& factory,
@@ -101,6 +104,43 @@ namespace Moment {
             }
         }
 
+        // The free part of a partially-constrained symbol can appear in other rules. If this part is not aligned with the
+        // real or imaginary axis, these rules refer to a constrained basis element; which needs itself to be rewritten.
+        std::set<Index> constrained;
+        for (auto index: mask_real) {
+            constrained.emplace(static_cast<Index>(index));
+        }
+        for (auto index: mask_imaginary) {
+            constrained.emplace(num_real_elems + static_cast<Index>(index));
+        }
+        auto refers_to_constrained = [&constrained](const auto& trips) {
+            return std::any_of(trips.begin(), trips.end(), [&constrained](const auto& trip) {
+                return constrained.contains(trip.col());
+            });
+        };
+        while (refers_to_constrained(triplets)) {
+            // NB: Terminates, because rules only refer to elements of lower symbols, and to unconstrained elements.
+            output_t rules{num_elems, num_elems};
+            rules.setFromTriplets(triplets.begin(), triplets.end());
+            output_t rules_and_free{num_elems, num_elems};
+            {
+                std::vector<Eigen::Triplet<double>> with_identity{triplets};
+                for (Index index = 0; index < num_elems; ++index) {
+                    if (!constrained.contains(index)) {
+                        with_identity.emplace_back(index, index, 1.0);
+                    }
+                }
+                rules_and_free.setFromTriplets(with_identity.begin(), with_identity.end());
+            }
+            output_t composed = (rules * rules_and_free).pruned();
+            triplets.clear();
+            for (Index outer = 0; outer < composed.outerSize(); ++outer) {
+                for (output_t::InnerIterator iter{composed, outer}; iter; ++iter) {
+                    triplets.emplace_back(iter.row(), iter.col(), iter.value());
+                }
+            }
+        }
+
         if (export_mode == ExportMode::Rewrite) {
             // Insert ID for non-mentioned elements
             mask_real.invert_in_place();
-- 
2.43.0


From 6151744fca57fcd4899f0a85baa992c285c73d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 33/73] fix: off-diagonal elements are compared with the
 matrix's zero tolerance when testing if a polynomial matrix is Hermitian

---
 cpp/lib_moment/matrix/polynomial_matrix.cpp |  2 +-
 cpp/lib_moment/symbolic/polynomial.cpp      | 15 ++++++++-------
 cpp/lib_moment/symbolic/polynomial.h        |  4 +++-
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index ceb484b..2123093 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -31,7 +31,7 @@ namespace Moment {
                 for (size_t col = row + 1; col < matrix.dimension; ++col) {
                     const auto &upper = matrix(std::array<size_t,2>{row, col});
                     const auto &lower = matrix(std::array<size_t,2>{col, row});
-                    if (!upper.is_conjugate(table, lower)) {
+                    if (!upper.is_conjugate(table, lower, tolerance)) {
                         return false;
                     }
                 }
diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a776f1c..b9e8a72 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -364,7 +364,8 @@ namespace Moment {
         return true;
     }
 
-    bool Polynomial::is_conjugate(const SymbolTable& symbols, const Polynomial &other) const noexcept {
+    bool Polynomial::is_conjugate(const SymbolTable& symbols, const Polynomial &other,
+                                  const double tolerance) const noexcept {
         if (this->data.size() != other.data.size()) {
             return false;
         }
@@ -386,17 +387,17 @@ namespace Moment {
             assert(!(symbolInfo.is_antihermitian() && symbolInfo.is_hermitian()));
 
             if (symbolInfo.is_hermitian()) {
-                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
+                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor), tolerance)) {
                     return false;
                 }
                 // no need to compare conjugation, symbol is real.
             } else if (symbolInfo.is_antihermitian()) {
                 // Symbol is purely imaginary; so either A = -A, or A = A*.
-                if (lhs_elem.factor == std::conj(rhs_elem.factor)) {
+                if (approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor), tolerance)) {
                     if (lhs_elem.conjugated == rhs_elem.conjugated) {
                         return false;
                     }
-                } else if (lhs_elem.factor == -std::conj(rhs_elem.factor)) {
+                } else if (approximately_equal(lhs_elem.factor, -std::conj(rhs_elem.factor), tolerance)) {
                     if (lhs_elem.conjugated != rhs_elem.conjugated) {
                         return false;
                     }
@@ -409,15 +410,15 @@ namespace Moment {
                 const auto& rhs_next = other.data[index+1];
                 if ((rhs_next.id != lhs_elem.id)
                     || (lhs_elem.conjugated != rhs_elem.conjugated)
-                    || !approximately_equal(lhs_elem.factor, std::conj(rhs_next.factor))
-                    || !approximately_equal(lhs_next.factor, std::conj(rhs_elem.factor))) {
+                    || !approximately_equal(lhs_elem.factor, std::conj(rhs_next.factor), tolerance)
+                    || !approximately_equal(lhs_next.factor, std::conj(rhs_elem.factor), tolerance)) {
                     return false;
                 }
                 ++index;
             } else {
                 // X on one side must be X* on the other.
                 if ((lhs_elem.conjugated == rhs_elem.conjugated)
-                    || !approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
+                    || !approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor), tolerance)) {
                     return false;
                 }
             }
diff --git a/cpp/lib_moment/symbolic/polynomial.h b/cpp/lib_moment/symbolic/polynomial.h
index 1b72364..06190b0 100644
--- a/cpp/lib_moment/symbolic/polynomial.h
+++ b/cpp/lib_moment/symbolic/polynomial.h
@@ -352,9 +352,11 @@ namespace Moment {
          * True if other is conjugate of this symbol combo.
          * @param symbols Symbol table (needed to know which symbols are purely real).
          * @param other Polynomial to compare against.
+         * @param tolerance How different may coefficients be?
          * @return True if this and other are Hermitian conjugates of each other.
          */
-        [[nodiscard]] bool is_conjugate(const SymbolTable& symbols, const Polynomial& other) const noexcept;
+        [[nodiscard]] bool is_conjugate(const SymbolTable& symbols, const Polynomial& other,
+                                        double tolerance = 1.0) const noexcept;
 
         /**
          * Named constructor for polynomial zero.
-- 
2.43.0


From 0b270626a7ab5e68672794d8dbdfbec029819c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 34/73] fix: do not conjugate the factor of a conjugated
 monomial when mapping it to or from a derived system

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 5a4371c..dbecce8 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -213,11 +213,11 @@ namespace Moment::Derived {
         // Get raw combo, or throw range error
         Polynomial output = (*this)(symbol.id);
 
-        // Apply transformations (using target symbol table)
-        output *= symbol.factor;
+        // Apply transformations (using target symbol table); the factor itself is not conjugated.
         if (symbol.conjugated) {
             output.conjugate_in_place(this->target_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
@@ -283,11 +283,11 @@ namespace Moment::Derived {
         // Get raw combo, or throw range error
         Polynomial output = this->inverse(symbol.id);
 
-        // Apply transformations (using origin symbol table)
-        output *= symbol.factor;
+        // Apply transformations (using origin symbol table); the factor itself is not conjugated.
         if (symbol.conjugated) {
             output.conjugate_in_place(this->origin_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
-- 
2.43.0


From 01ae4a69c15e092272d557b25e5f4897d85502ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 35/73] fix: refuse to map a symbol the map does not act on,
 instead of mapping it to zero

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 7 ++++++-
 cpp/lib_moment/scenarios/derived/symbol_table_map.h   | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index dbecce8..792199d 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -102,14 +102,18 @@ namespace Moment::Derived {
 
         // First, build fixed constants.
         this->map.assign(origin_symbols.size(), Polynomial{}); // 0 -> 0 always
+        this->mapped.assign(origin_symbols.size(), false);
         this->map[0] = Polynomial{};      // 0 -> 0 always.
+        this->mapped[0] = true;
         this->map[1] = Polynomial::Scalar(1.0); // 1 -> 1 always.
+        this->mapped[1] = true;
 
         // Create scalars remap:
         for (auto [row_id, scalar] : this->core->constants) {
             auto [symbol_id, conjugated] = origin_symbols.OSGIndex(row_id);
             assert(!conjugated);
             this->map[symbol_id] = Polynomial::Scalar(scalar);
+            this->mapped[symbol_id] = true;
         }
 
         const auto& raw_map = this->core_solution->dense_map;
@@ -141,6 +145,7 @@ namespace Moment::Derived {
 
             // Create mapping
             this->map[source_symbol] = Polynomial{std::move(from_x_to_y)};
+            this->mapped[source_symbol] = true;
             ++core_col_id;
         }
 
@@ -199,7 +204,7 @@ namespace Moment::Derived {
 
     const Polynomial& SymbolTableMap::operator()(symbol_name_t symbol_id) const {
         // Bounds check
-        if ((symbol_id < 0) || (symbol_id >= this->map.size())) {
+        if ((symbol_id < 0) || (symbol_id >= this->map.size()) || !this->mapped[symbol_id]) {
             std::stringstream ss;
             ss << "Symbol " << symbol_id << " not defined in implied map.";
             throw errors::bad_map{ss.str()};
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.h b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
index 6a8fdd0..391d325 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.h
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
@@ -43,6 +43,8 @@ namespace Moment {
             SymbolTable& target_symbols;
 
             std::vector<Polynomial> map;
+            /** True, for the origin symbols the map acts on (cf. symbols that were registered, but are not mapped). */
+            std::vector<bool> mapped;
             std::vector<Polynomial> inverse_map;
             bool _is_monomial_map = false;
 
-- 
2.43.0


From d7c8886ed9806aafe8e884141975aa0aaeddc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 36/73] fix: prune rounding error from the averaged group
 action

---
 .../scenarios/symmetrized/symmetrized_matrix_system.cpp      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/symmetrized_matrix_system.cpp b/cpp/lib_moment/scenarios/symmetrized/symmetrized_matrix_system.cpp
index 50cbe8c..7831728 100644
--- a/cpp/lib_moment/scenarios/symmetrized/symmetrized_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/symmetrized_matrix_system.cpp
@@ -35,7 +35,10 @@ namespace Moment::Symmetrized {
         const auto& group_rep = this->group.create_representation(max_word_length, mt_policy);
 
         // Next, get average of group action in this representation
-        const repmat_t average = group_rep.sum_of() / static_cast<double>(group.size);
+        repmat_t average = group_rep.sum_of() / static_cast<double>(group.size);
+
+        // Rounding error in what should have cancelled must not be mistaken for a free symbol
+        average.prune(1.0);
 
         // Do processing
         return std::make_unique<Derived::SymbolTableMap>(origin_symbols, target_symbols, *this->processor, average);
-- 
2.43.0


From 86c1cb556c71a58bd9a77a9cc5e792ea68bcb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 37/73] fix: hold the base system's read lock while a derived
 system looks up its matrices and symbols

---
 .../derived/derived_matrix_system.cpp         | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
index 2a6f7b2..535b2a8 100644
--- a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
@@ -184,7 +184,10 @@ namespace Moment::Derived {
                                                              Multithreading::MultiThreadPolicy mt_policy) {
         // Check if we can convert this matrix
         const auto lsw = this->longest_supported_word();
-        const auto max_degree = this->base_system().polynomial_factory().maximum_degree(lmi.Polynomial);
+        const auto max_degree = [&]() {
+            auto read_source_lock = this->base_system().get_read_lock(); // degree is looked up in base symbol table
+            return this->base_system().polynomial_factory().maximum_degree(lmi.Polynomial);
+        }();
         const size_t size_req = 2 * lmi.Level + max_degree;
         if (size_req > lsw) {
             std::stringstream badNameSS;
@@ -243,29 +246,37 @@ namespace Moment::Derived {
     void DerivedMatrixSystem::on_new_moment_matrix(const WriteLock& write_lock, size_t level,
                                                    ptrdiff_t sym_offset, const SymbolicMatrix& mm) {
 
-        auto base_offset = this->base_system().MomentMatrix.find_index(level);
+        const auto base_offset = [&]() {
+            auto read_source_lock = this->base_system().get_read_lock();
+            return this->base_system().MomentMatrix.find_index(level);
+        }();
         assert(base_offset >= 0);
-        auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
-        assert(actual_offset == sym_offset);
-
+        // NB: Matrix could have already been derived by its offset, in which case that matrix keeps its index.
+        std::ignore = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
     }
 
     void DerivedMatrixSystem::on_new_localizing_matrix(const WriteLock& write_lock,
                                                        const LocalizingMatrixIndex& lmi, ptrdiff_t sym_offset,
                                                        const SymbolicMatrix& lm) {
-        auto base_offset = this->base_system().LocalizingMatrix.find_index(lmi);
+        const auto base_offset = [&]() {
+            auto read_source_lock = this->base_system().get_read_lock();
+            return this->base_system().LocalizingMatrix.find_index(lmi);
+        }();
         assert(base_offset >= 0);
-        auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
-        assert(actual_offset == sym_offset);
+        // NB: Matrix could have already been derived by its offset, in which case that matrix keeps its index.
+        std::ignore = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
     }
 
     void DerivedMatrixSystem::on_new_polynomial_localizing_matrix(const WriteLock& write_lock,
                                                                   const PolynomialLocalizingMatrixIndex& lmi, ptrdiff_t sym_offset,
                                                                   const PolynomialMatrix& plm) {
-        auto base_offset = this->base_system().PolynomialLocalizingMatrix.find_index(lmi);
+        const auto base_offset = [&]() {
+            auto read_source_lock = this->base_system().get_read_lock();
+            return this->base_system().PolynomialLocalizingMatrix.find_index(lmi);
+        }();
         assert(base_offset >= 0);
-        auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
-        assert(actual_offset == sym_offset);
+        // NB: Matrix could have already been derived by its offset, in which case that matrix keeps its index.
+        std::ignore = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
     }
 
     void DerivedMatrixSystem::on_new_derived_matrix(const WriteLock& write_lock,
-- 
2.43.0


From 902cc01fcf30987127acc4969568c11316fee2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 38/73] fix: report an operator sequence without symbol when
 mapping the dictionary, instead of reading past the table

---
 cpp/lib_moment/dictionary/dictionary_map.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/dictionary_map.cpp b/cpp/lib_moment/dictionary/dictionary_map.cpp
index ed282a7..069de92 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.cpp
+++ b/cpp/lib_moment/dictionary/dictionary_map.cpp
@@ -43,7 +43,11 @@ namespace Moment {
         for (auto iter = promised_osg.begin() + static_cast<ptrdiff_t>(start_index); iter != promised_osg.end(); ++iter) {
             const auto& seq = *iter;
             const auto datum = symbols.where(seq);
-            assert(datum.found());
+            if (!datum.found()) {
+                std::stringstream errSS;
+                errSS << "No symbol is defined for operator sequence \"" << seq << "\".";
+                throw std::range_error{errSS.str()};
+            }
             const bool isConjugated = (seq != datum->sequence());
             this->symbol_map.emplace_back((isConjugated ? -1 : 1) * datum->Id());
         }
-- 
2.43.0


From 039bead16aa5d763a61def7f90347c7b3e902903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 39/73] fix: take the sign of operator products into account in
 group representations

---
 .../symmetrized/representation_mapper.cpp     | 67 ++++++++++++++-----
 .../symmetrized/representation_mapper.h       |  7 ++
 2 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
index 763e65d..d3adc2e 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
@@ -5,6 +5,7 @@
  * @author Andrew J. P. Garner
  */
 #include "representation_mapper.h"
+#include "group.h"
 
 #include "integer_types.h"
 
@@ -19,7 +20,10 @@
 
 #include <unsupported/Eigen/KroneckerProduct>
 
+#include <algorithm>
+#include <numeric>
 #include <stdexcept>
+#include <tuple>
 
 namespace Moment::Symmetrized {
 
@@ -30,10 +34,11 @@ namespace Moment::Symmetrized {
             return osg.size();
         }
 
-        std::vector<size_t> vector_remap(const Context& context,
-                                         const size_t lhs_word_length,
-                                         const size_t rhs_word_length,
-                                         const size_t target_word_length) {
+        std::pair<std::vector<size_t>, std::vector<SequenceSignType>>
+        vector_remap(const Context& context,
+                     const size_t lhs_word_length,
+                     const size_t rhs_word_length,
+                     const size_t target_word_length) {
             assert(lhs_word_length + rhs_word_length == target_word_length);
             assert(lhs_word_length >= rhs_word_length);
 
@@ -50,7 +55,7 @@ namespace Moment::Symmetrized {
                 ++osg_index;
             }
 
-            std::vector<size_t> output;
+            std::pair<std::vector<size_t>, std::vector<SequenceSignType>> output;
 
             // Now, get parents OSGs.
             const auto& lhs_osg = context.operator_sequence_generator(lhs_word_length);
@@ -61,7 +66,8 @@ namespace Moment::Symmetrized {
                     const auto combined = lhs * rhs;
                     const auto remap_iter = hash_to_index.find(combined.hash());
                     assert(remap_iter != hash_to_index.cend());
-                    output.emplace_back(remap_iter->second);
+                    output.first.emplace_back(remap_iter->second);
+                    output.second.emplace_back(combined.get_sign());
                 }
             }
 
@@ -70,19 +76,25 @@ namespace Moment::Symmetrized {
 
 
         /**
-         * Matrix to sum rows
+         * Matrix to sum rows: its real part, or its imaginary part.
          */
-        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap,
+                                                 const std::vector<SequenceSignType>& remap_sign,
+                                                 size_t raw_dim, size_t remapped_dim, bool imaginary_part) {
             assert(raw_dim == remap.size());
+            assert(raw_dim == remap_sign.size());
             RepresentationMapper::lhs_mat_t output(static_cast<int>(remapped_dim), static_cast<int>(raw_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
 
             size_t raw_index = 0;
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                const auto sign = remap_sign[raw_index];
+                if ((mapped_index > 0) && (is_imaginary(sign) == imaginary_part)) {
+                    const bool negative = (sign == SequenceSignType::Negative)
+                                            || (sign == SequenceSignType::NegativeImaginary);
                     triplets.emplace_back(static_cast<int>(mapped_index - 1),   // row
                                           static_cast<int>(raw_index), // col
-                                          1.0);
+                                          negative ? -1.0 : 1.0);
                 }
                 ++raw_index;
             }
@@ -96,8 +108,11 @@ namespace Moment::Symmetrized {
         /**
          * Matrix to skip columns
          */
-        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap,
+                                                 const std::vector<SequenceSignType>& remap_sign,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
+            assert(raw_dim == remap_sign.size());
             RepresentationMapper::rhs_mat_t output(static_cast<int>(raw_dim), static_cast<int>(remapped_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
 
@@ -106,7 +121,8 @@ namespace Moment::Symmetrized {
             size_t true_index = 0;
 
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                // Every sequence is, without sign, the product of its own first and second halves.
+                if ((mapped_index > 0) && (remap_sign[true_index] == SequenceSignType::Positive)) {
                     if (!done_map.test(mapped_index-1)) {
                         triplets.emplace_back(static_cast<int>(true_index),   // row
                                               static_cast<int>(mapped_index-1), // col
@@ -137,6 +153,7 @@ namespace Moment::Symmetrized {
         // Remap is identity
         this->remap.resize(this->raw_dim);
         std::iota(this->remap.begin(), this->remap.end(), 1);
+        this->remap_sign.assign(this->raw_dim, SequenceSignType::Positive);
     }
 
     RepresentationMapper::RepresentationMapper(const Context &context,
@@ -158,13 +175,18 @@ namespace Moment::Symmetrized {
         this->remapped_dim = osg.size();
 
         // Make vector remap
-        this->remap = vector_remap(context,
-                                   parent_A.target_word_length,
-                                   parent_B.target_word_length,
-                                   this->target_word_length);
+        std::tie(this->remap, this->remap_sign) = vector_remap(context,
+                                                               parent_A.target_word_length,
+                                                               parent_B.target_word_length,
+                                                               this->target_word_length);
 
-        this->lhs = make_lhs(this->remap, this->raw_dim, this->remapped_dim);
-        this->rhs = make_rhs(this->remap, this->raw_dim, this->remapped_dim);
+        this->lhs = make_lhs(this->remap, this->remap_sign, this->raw_dim, this->remapped_dim, false);
+        this->rhs = make_rhs(this->remap, this->remap_sign, this->raw_dim, this->remapped_dim);
+
+        if (std::any_of(this->remap_sign.cbegin(), this->remap_sign.cend(),
+                        [](const auto sign) { return is_imaginary(sign); })) {
+            this->lhs_imaginary = make_lhs(this->remap, this->remap_sign, this->raw_dim, this->remapped_dim, true);
+        }
     }
 
     repmat_t RepresentationMapper::operator()(const repmat_t &matrix) const {
@@ -180,6 +202,15 @@ namespace Moment::Symmetrized {
         assert(elem_r2.cols() == this->right_input_dim);
         assert(elem_r2.rows() == this->right_input_dim);
 
+        // Representations are real, so any imaginary contributions must cancel out.
+        if (this->lhs_imaginary.nonZeros() > 0) {
+            repmat_t imaginary_part = this->lhs_imaginary * Eigen::kroneckerProduct(elem_r1, elem_r2) * this->rhs;
+            imaginary_part.prune(1.0);
+            if (imaginary_part.nonZeros() > 0) {
+                throw errors::bad_symmetry{"Symmetry cannot be represented by real matrices."};
+            }
+        }
+
         return this->lhs * Eigen::kroneckerProduct(elem_r1, elem_r2) * this->rhs;
     }
 
diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
index e891703..db0d73d 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
@@ -8,6 +8,8 @@
 
 #include "representation.h"
 
+#include "sequence_sign_type.h"
+
 #include <Eigen/Sparse>
 
 #include <cassert>
@@ -40,7 +42,12 @@ namespace Moment::Symmetrized {
 
         std::vector<size_t> remap;
 
+        /** Sign of each product, compared with the operator sequence it is remapped to. */
+        std::vector<SequenceSignType> remap_sign;
+
         lhs_mat_t lhs;
+        /** Imaginary part of lhs; empty, if every product has a real sign. */
+        lhs_mat_t lhs_imaginary;
         rhs_mat_t rhs;
 
     public:
-- 
2.43.0


From 548c754f8f648bb203904761d5a1906cf605f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 40/73] fix: pass on failures while generating group
 representations, instead of terminating or waiting forever

---
 .../scenarios/symmetrized/group.cpp           |  2 +-
 .../group_rep_generation_worker.cpp           | 62 +++++++++++++------
 .../symmetrized/group_rep_generation_worker.h | 12 ++++
 3 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/group.cpp b/cpp/lib_moment/scenarios/symmetrized/group.cpp
index 00f1d3d..6954860 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/group.cpp
@@ -327,7 +327,7 @@ namespace Moment::Symmetrized {
         assert(!this->mappers.empty());
         const bool should_multithread
             = Multithreading::should_multithread_group_rep_generation(mt_policy,
-                                                                      this->mappers.back()->raw_dimension(),
+                                                                      this->mappers[word_length-1]->raw_dimension(),
                                                                       this->size);
         if (should_multithread) {
             build_representations_multi_thread(this->representations, this->mappers, this->size, pruned_list);
diff --git a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
index f715aba..ede0781 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
@@ -44,24 +44,16 @@ namespace Moment::Multithreading {
                 global_index = this->bundle.global_index.load(std::memory_order_acquire);
             }
 
-            // Get parents, which are guaranteed after wait, to exist
-            assert(local_index < this->bundle.build_list.size());
-            const size_t wl = this->bundle.build_list[local_index];
-            const auto& [left_parent, right_parent] =
-                    Group::determine_parent_representations(this->bundle.representations, wl);
-
-            // Get mapper
-            assert(((wl-1) < this->bundle.mappers.size()) && this->bundle.mappers[wl-1]);
-            const auto& mapper = *this->bundle.mappers[wl-1];
-
-            // Get data pointer
-            assert(local_index < this->bundle.rep_raw_data.size());
-            assert(this->bundle.rep_raw_data[local_index].size() == this->bundle.group_size);
-            repmat_t* const data_ptr = this->bundle.rep_raw_data[local_index].data();
-
-            // Make elements for next representation
-            for (size_t elem_idx = this->worker_id; elem_idx < this->bundle.group_size; elem_idx += this->max_workers) {
-                data_ptr[elem_idx] = mapper(left_parent[elem_idx], right_parent[elem_idx]);
+            // Was generation called off?
+            if (this->bundle.aborted.load(std::memory_order_acquire)) {
+                return;
+            }
+
+            // Do work; if this fails, the bundle passes the exception on.
+            try {
+                this->generate_elements(local_index);
+            } catch (...) {
+                this->failure = std::current_exception();
             }
 
             // Signal that work is done for this level
@@ -71,6 +63,28 @@ namespace Moment::Multithreading {
         }
     }
 
+    void GroupRepGenerationWorker::generate_elements(const size_t build_index) {
+        // Get parents, which are guaranteed after wait, to exist
+        assert(build_index < this->bundle.build_list.size());
+        const size_t wl = this->bundle.build_list[build_index];
+        const auto& [left_parent, right_parent] =
+                Group::determine_parent_representations(this->bundle.representations, wl);
+
+        // Get mapper
+        assert(((wl-1) < this->bundle.mappers.size()) && this->bundle.mappers[wl-1]);
+        const auto& mapper = *this->bundle.mappers[wl-1];
+
+        // Get data pointer
+        assert(build_index < this->bundle.rep_raw_data.size());
+        assert(this->bundle.rep_raw_data[build_index].size() == this->bundle.group_size);
+        repmat_t* const data_ptr = this->bundle.rep_raw_data[build_index].data();
+
+        // Make elements for next representation
+        for (size_t elem_idx = this->worker_id; elem_idx < this->bundle.group_size; elem_idx += this->max_workers) {
+            data_ptr[elem_idx] = mapper(left_parent[elem_idx], right_parent[elem_idx]);
+        }
+    }
+
     void GroupRepGenerationWorker::join() noexcept {
         if (this->the_thread.joinable()) {
             this->the_thread.join();
@@ -85,7 +99,7 @@ namespace Moment::Multithreading {
             : max_workers{std::min(Multithreading::get_max_worker_threads(), group_size)},
               group_size{group_size}, build_list(std::move(build_list)),
               representations{representations}, mappers{mappers},
-              global_index{0} {
+              global_index{0}, aborted{false} {
 
         // Create output data
         this->prepare_blank_data();
@@ -120,6 +134,9 @@ namespace Moment::Multithreading {
                     worker_ptr->last_generated_index.wait(l_idx, std::memory_order_relaxed);
                     l_idx = worker_ptr->last_generated_index.load(std::memory_order_acquire);
                 }
+                if (worker_ptr->failure) {
+                    std::rethrow_exception(worker_ptr->failure); // ~ calls off remaining work
+                }
             }
 
             // Make representation from raw data
@@ -137,9 +154,16 @@ namespace Moment::Multithreading {
 
 
     GroupRepGenerationBundle::~GroupRepGenerationBundle() noexcept {
+        this->abort();
         this->join_all();
     }
 
+    void GroupRepGenerationBundle::abort() noexcept {
+        this->aborted.store(true, std::memory_order_release);
+        this->global_index.store(this->build_list.size(), std::memory_order_release);
+        this->global_index.notify_all();
+    }
+
     void GroupRepGenerationBundle::prepare_blank_data() {
         this->rep_raw_data.reserve(this->build_list.size());
         for (auto w : this->build_list) {
diff --git a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
index 970befb..7410da7 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
+++ b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
@@ -11,6 +11,7 @@
 #include "group.h"
 
 #include <atomic>
+#include <exception>
 #include <thread>
 
 namespace Moment::Multithreading {
@@ -25,6 +26,8 @@ namespace Moment::Multithreading {
     private:
         std::atomic<size_t> last_generated_index;
         std::thread the_thread;
+        /** Set, if worker failed (only to be read after a change in last_generated_index, or after join). */
+        std::exception_ptr failure;
 
     public:
         GroupRepGenerationWorker(GroupRepGenerationBundle& bundle,
@@ -38,6 +41,9 @@ namespace Moment::Multithreading {
         void execute();
 
         friend class GroupRepGenerationBundle;
+
+    private:
+        void generate_elements(size_t build_index);
     };
 
     class GroupRepGenerationBundle {
@@ -58,6 +64,9 @@ namespace Moment::Multithreading {
 
         std::atomic<size_t> global_index;
 
+        /** True, if workers should stop early. */
+        std::atomic<bool> aborted;
+
     public:
         GroupRepGenerationBundle(std::vector<std::unique_ptr<Symmetrized::Representation>>& representations,
                                  std::vector<std::unique_ptr<Symmetrized::RepresentationMapper>>& mappers,
@@ -75,6 +84,9 @@ namespace Moment::Multithreading {
 
         void join_all() noexcept;
 
+        /** Tell workers, including those waiting for the next representation, to stop. */
+        void abort() noexcept;
+
     };
 
 }
\ No newline at end of file
-- 
2.43.0


From 67a85961984fa7a64c97c9429ecad810060f1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 41/73] fix: pass on failures while generating operator
 matrices, instead of waiting forever or freeing memory in use

---
 .../operator_matrix_factory_multithreaded.h   | 75 +++++++++++++------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
index 1deab54..0546c38 100644
--- a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
+++ b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
@@ -87,6 +87,9 @@ namespace Moment {
         void execute() {
             // OSM generation
             this->bundle.ready_to_begin_osm_generation.wait(false, std::memory_order_acquire);
+            if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+                return; // exit thread, the matrix is no longer wanted.
+            }
             try {
                 this->generate_operator_sequence_matrix();
                 this->done_os_generation.set_value(true);
@@ -98,6 +101,9 @@ namespace Moment {
             // Alias generation (if applicable)
             if (this->bundle.factory.context.can_have_aliases()) {
                 this->bundle.ready_to_begin_alias_generation.wait(false, std::memory_order_acquire);
+                if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+                    return; // exit thread, the matrix is no longer wanted.
+                }
                 try {
                     this->generate_aliased_operator_sequence_matrix();
                     this->done_alias_generation.set_value(true);
@@ -288,9 +294,11 @@ namespace Moment {
             }
         }
 
-        void join() {
-            assert(this->the_thread.joinable());
-            this->the_thread.join();
+        void join() noexcept {
+            // Thread might never have been launched, if launching another thread failed.
+            if (this->the_thread.joinable()) {
+                this->the_thread.join();
+            }
         }
     };
 
@@ -311,6 +319,9 @@ namespace Moment {
         std::atomic_flag ready_to_begin_osm_generation;
         std::atomic_flag ready_to_begin_alias_generation;
 
+        /** True, if workers that have not yet begun their next step should end instead. */
+        std::atomic<bool> abandoned = false;
+
         /** Pointer to allocated memory for operator sequence matrix. */
         OperatorSequence * os_data_ptr = nullptr;
 
@@ -353,8 +364,14 @@ namespace Moment {
             }
 
             // Launch threads
-            for (auto& worker : workers) {
-                worker->launch_thread();
+            try {
+                for (auto& worker : workers) {
+                    worker->launch_thread();
+                }
+            } catch (...) {
+                // Destructor will not be called, so gather those threads that did launch.
+                this->abandon_and_join();
+                throw;
             }
         }
 
@@ -365,9 +382,7 @@ namespace Moment {
          * Destructor: gather finished threads.
          */
         ~OperatorMatrixFactoryMultithreaded() noexcept {
-            for (auto& worker : workers) {
-                worker->join();
-            }
+            this->abandon_and_join();
         }
 
         /**
@@ -436,6 +451,34 @@ namespace Moment {
         }
 
     private:
+        /**
+         * Release any worker still waiting for a step that will not happen, then wait for all threads to exit.
+         */
+        void abandon_and_join() noexcept {
+            this->abandoned.store(true, std::memory_order_release);
+            this->ready_to_begin_osm_generation.test_and_set(std::memory_order_release);
+            this->ready_to_begin_osm_generation.notify_all();
+            this->ready_to_begin_alias_generation.test_and_set(std::memory_order_release);
+            this->ready_to_begin_alias_generation.notify_all();
+
+            for (auto& worker : workers) {
+                worker->join();
+            }
+        }
+
+        /**
+         * Block until every worker has finished a step; then throw, if any of them failed.
+         * NB: No worker may be left writing to the matrix, when an exception ends the matrix's lifetime.
+         */
+        static void wait_for_all(std::vector<std::future<bool>>& signals) {
+            for (auto& signal : signals) {
+                signal.wait();
+            }
+            for (auto& signal : signals) {
+                signal.get();
+            }
+        }
+
         void generate_operator_sequence_matrix() {
 
             // Signal all workers to begin
@@ -443,13 +486,7 @@ namespace Moment {
             this->ready_to_begin_osm_generation.notify_all();
 
             // Block until all workers are done:
-            for (auto& signal : this->done_os_generation) {
-                bool done = false;
-                while (!done) {
-                    signal.wait();
-                    done = signal.get();
-                }
-            }
+            wait_for_all(this->done_os_generation);
 
             // Leading thread determines if constructed matrix is Hermitian.
             this->determine_hermitian_status();
@@ -461,13 +498,7 @@ namespace Moment {
             this->ready_to_begin_alias_generation.notify_all();
 
             // Block until all workers are done:
-            for (auto& signal : this->done_alias_generation) {
-                bool done = false;
-                while (!done) {
-                    signal.wait();
-                    done = signal.get();
-                }
-            }
+            wait_for_all(this->done_alias_generation);
         }
 
         void determine_hermitian_status() {
-- 
2.43.0


From d12671d632f28debb869d78a7f2746ed860e8714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 42/73] fix: pass on failures while registering symbols of
 matrices, instead of waiting forever or terminating

---
 .../matrix/monomial_matrix_factory.cpp        | 59 ++++++++++++-------
 .../matrix/monomial_matrix_factory.h          | 21 ++++++-
 2 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 778e50b..3686425 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -319,6 +319,9 @@ namespace Moment {
 
         // Symbol identification
         this->bundle.ready_to_begin_symbol_identification.wait(false, std::memory_order_acquire);
+        if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+            return; // exit thread, the matrix is no longer wanted.
+        }
         try {
             this->identify_unique_symbols();
             this->merge_unique_symbols();
@@ -326,16 +329,19 @@ namespace Moment {
             this->done_symbol_identification.set_value(true);
         } catch(...) {
             this->done_symbol_identification.set_exception(std::current_exception());
-            if (0 != this->worker_id) {
-                // Divide & conquer may be waiting on this...
-                this->bundle.workers[0]->done_symbol_identification.set_exception(std::current_exception());
-            }
+
+            // Divide & conquer may be waiting on this worker: there will be no more elements from it.
+            this->merge_level.store(this->final_merge_level(), std::memory_order_release);
+            this->merge_level.notify_all();
             return; // exit thread
         }
 
 
         // Symbol matrix generation
         this->bundle.ready_to_begin_sm_generation.wait(false, std::memory_order_acquire);
+        if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+            return; // exit thread, the matrix is no longer wanted.
+        }
         try {
             this->generate_symbol_matrix();
             this->done_sm_generation.set_value(true);
@@ -652,17 +658,42 @@ namespace Moment {
         }
 
         // Launch threads
-        for (auto& worker : workers) {
-            worker->launch_thread();
+        try {
+            for (auto& worker : workers) {
+                worker->launch_thread();
+            }
+        } catch (...) {
+            // Destructor will not be called, so gather those threads that did launch.
+            this->abandon_and_join();
+            throw;
         }
     }
 
     MonomialMatrixFactoryMultithreaded::~MonomialMatrixFactoryMultithreaded() noexcept {
+        this->abandon_and_join();
+    }
+
+    void MonomialMatrixFactoryMultithreaded::abandon_and_join() noexcept {
+        this->abandoned.store(true, std::memory_order_release);
+        this->ready_to_begin_symbol_identification.test_and_set(std::memory_order_release);
+        this->ready_to_begin_symbol_identification.notify_all();
+        this->ready_to_begin_sm_generation.test_and_set(std::memory_order_release);
+        this->ready_to_begin_sm_generation.notify_all();
+
         for (auto& worker : workers) {
             worker->join();
         }
     }
 
+    void MonomialMatrixFactoryMultithreaded::wait_for_all(std::vector<std::future<bool>>& signals) {
+        for (auto& signal : signals) {
+            signal.wait();
+        }
+        for (auto& signal : signals) {
+            signal.get();
+        }
+    }
+
     std::unique_ptr<SquareMatrix<Monomial>> MonomialMatrixFactoryMultithreaded::execute() {
         // What new symbols are there?
         this->identify_unique_symbols();
@@ -690,13 +721,7 @@ namespace Moment {
         this->ready_to_begin_symbol_identification.notify_all();
 
         // Block until all workers are done:
-        for (auto& signal : this->done_symbol_identification) {
-            bool done = false;
-            while (!done) {
-                signal.wait();
-                done = signal.get();
-            }
-        }
+        wait_for_all(this->done_symbol_identification);
     }
 
     void MonomialMatrixFactoryMultithreaded::register_unique_symbols() {
@@ -711,13 +736,7 @@ namespace Moment {
         this->ready_to_begin_sm_generation.notify_all();
 
         // Block until all workers are done:
-        for (auto& signal : this->done_sm_generation) {
-            bool done = false;
-            while (!done) {
-                signal.wait();
-                done = signal.get();
-            }
-        }
+        wait_for_all(this->done_sm_generation);
     }
 
     namespace {
diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.h b/cpp/lib_moment/matrix/monomial_matrix_factory.h
index 113b8cc..95d71ac 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.h
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.h
@@ -90,9 +90,11 @@ namespace Moment {
         void generate_symbol_matrix_hermitian();
 
     public:
-        void join() {
-            assert(this->the_thread.joinable());
-            this->the_thread.join();
+        void join() noexcept {
+            // Thread might never have been launched, if launching another thread failed.
+            if (this->the_thread.joinable()) {
+                this->the_thread.join();
+            }
         }
     };
 
@@ -126,6 +128,8 @@ namespace Moment {
         std::atomic_flag ready_to_begin_symbol_identification;
         std::atomic_flag ready_to_begin_sm_generation;
 
+        /** True, if workers that have not yet begun their next step should end instead. */
+        std::atomic<bool> abandoned = false;
 
         /** (Transient!) pointer to allocated memory for monomial matrix */
         Monomial * sm_data_ptr = nullptr;
@@ -157,6 +161,17 @@ namespace Moment {
         void register_unique_symbols();
 
         void generate_symbol_matrix();
+
+        /**
+         * Release any worker still waiting for a step that will not happen, then wait for all threads to exit.
+         */
+        void abandon_and_join() noexcept;
+
+        /**
+         * Block until every worker has finished a step; then throw, if any of them failed.
+         * NB: No worker may be left writing to the matrix, when an exception ends the matrix's lifetime.
+         */
+        static void wait_for_all(std::vector<std::future<bool>>& signals);
     };
 
 }
\ No newline at end of file
-- 
2.43.0


From 027aa6f9479404682de0bfba713dccb6ac81ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 43/73] fix: symbol table is unchanged by a symbol that could
 not be added for lack of memory

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 52 ++++++++++++++++++++----
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 818a716..f5fb188 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -18,6 +18,15 @@
 
 namespace Moment {
 
+    namespace {
+        /** Ensure that the next element can be added to a vector without allocating. */
+        template<typename elem_t>
+        void make_room_for_one(std::vector<elem_t>& vec) {
+            if (vec.size() == vec.capacity()) {
+                vec.reserve(vec.empty() ? 4 : 2 * vec.size());
+            }
+        }
+    }
 
     SymbolTable::SymbolTable(const Context& context)
         : Basis{*this}, context{context}, OSGIndex{context, *this},
@@ -41,6 +50,8 @@ namespace Moment {
         Symbol blank;
         blank.id = next_id;
 
+        // If memory cannot be allocated for symbol, neither should it be added to basis.
+        make_room_for_one(this->unique_sequences);
         auto [re_index, im_index] = this->Basis.push_back(next_id, has_real, has_imaginary);
         blank.real_index = re_index;
         blank.img_index = im_index;
@@ -172,15 +183,28 @@ namespace Moment {
         // Make element
         elem.id = next_index;
 
-        // Add to basis
-        const auto [re_index, im_index] = this->Basis.push_back(next_index, !re_zero, !im_zero);
-        elem.real_index = re_index;
-        elem.img_index = im_index;
-
-        // Prepare output
-        this->hash_table.emplace(std::make_pair(elem.hash(), next_index));
-        if (!is_hermitian) {
-            this->hash_table.emplace(std::make_pair(elem.hash_conj(), -next_index));
+        // Ensure there is space in list of symbols, such that nothing fails once the hash has been recorded
+        make_room_for_one(this->unique_sequences);
+
+        // Record hashes, and add to basis (or do neither, if out of memory)
+        const auto hash_iter = this->hash_table.emplace(std::make_pair(elem.hash(), next_index)).first;
+        auto conj_hash_iter = this->hash_table.end();
+        try {
+            if (!is_hermitian) {
+                const auto [where, inserted] = this->hash_table.emplace(std::make_pair(elem.hash_conj(), -next_index));
+                if (inserted) {
+                    conj_hash_iter = where;
+                }
+            }
+            const auto [re_index, im_index] = this->Basis.push_back(next_index, !re_zero, !im_zero);
+            elem.real_index = re_index;
+            elem.img_index = im_index;
+        } catch (...) {
+            this->hash_table.erase(hash_iter);
+            if (conj_hash_iter != this->hash_table.end()) {
+                this->hash_table.erase(conj_hash_iter);
+            }
+            throw;
         }
 
         // Register element
@@ -379,6 +403,16 @@ namespace Moment {
 
     std::pair<ptrdiff_t, ptrdiff_t> SymbolTable::BasisView::push_back(const Moment::symbol_name_t symbol_id,
                                                                       const bool has_real, const bool has_im) {
+        // Allocate first, such that either all lists are added to, or none
+        if (has_real) {
+            make_room_for_one(this->real_symbols);
+            make_room_for_one(this->im_of_real);
+        }
+        if (has_im) {
+            make_room_for_one(this->imaginary_symbols);
+            make_room_for_one(this->re_of_imaginary);
+        }
+
         std::pair<ptrdiff_t, ptrdiff_t> output{-1, -1};
         if (has_real) {
             output.first = static_cast<ptrdiff_t>(this->real_symbols.size());
-- 
2.43.0


From 37a2709d4281686b444fe79301f58f18fba19a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 44/73] fix: pass on failures while extending matrices, instead
 of terminating, and leave the factor table as it was

---
 .../scenarios/inflation/extended_matrix.cpp   |  8 ++-
 .../scenarios/inflation/factor_table.cpp      | 67 ++++++++++++++-----
 .../scenarios/inflation/factor_table.h        |  3 +
 .../multithreading/extended_matrix_worker.cpp | 17 ++++-
 .../multithreading/extended_matrix_worker.h   |  8 ++-
 .../temporary_symbols_and_factors.cpp         | 10 ++-
 cpp/lib_moment/utilities/index_tree.h         | 10 +++
 7 files changed, 102 insertions(+), 21 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index bc8e56f..77b0680 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -45,8 +45,14 @@ namespace Moment::Inflation {
 
             // Push in new factors to symbol table, if not already there
             if (!maybe_symbol_index.has_value()) {
-                maybe_symbol_index = symbols.create(true, false);
+                maybe_symbol_index = static_cast<symbol_name_t>(symbols.size());
                 factors.register_new(*maybe_symbol_index, joint_factors);
+                try {
+                    symbols.create(true, false);
+                } catch (...) {
+                    factors.forget_from(*maybe_symbol_index);
+                    throw;
+                }
             }
 
             return maybe_symbol_index.value();
diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index efea45d..925bc6b 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -79,11 +79,14 @@ namespace Moment::Inflation {
             return 0;
         }
 
+        // Entries are prepared aside, so that the table remains as it was should preparation fail.
+        std::vector<FactorEntry> new_entries;
+
         // Check for factors of new symbols
         for (symbol_name_t symbol_index = next_id; symbol_index < up_to_id; ++symbol_index) {
             const auto& symbol = this->symbols[symbol_index];
-            this->entries.emplace_back(symbol.Id());
-            auto& entry = this->entries.back();
+            new_entries.emplace_back(symbol.Id());
+            auto& entry = new_entries.back();
 
             // Check for factors
             entry.raw.sequences = this->context.factorize(symbol.sequence());
@@ -111,21 +114,35 @@ namespace Moment::Inflation {
 
             // Canonical symbols should be sorted in factor entry
             std::sort(entry.canonical.symbols.begin(), entry.canonical.symbols.end());
-            // Add to index tree
-            this->index_tree.add(entry.canonical.symbols, entry.id);
         }
 
         // Newly added symbols automatically should not factorize, and will be canonical
         const auto extra_symbols = static_cast<symbol_name_t>(this->symbols.size());
         for (symbol_name_t symbol_index = up_to_id; symbol_index < extra_symbols; ++symbol_index) {
             const auto& symbol = this->symbols[symbol_index];
-            this->entries.emplace_back(symbol.Id());
-            auto& entry = this->entries.back();
+            new_entries.emplace_back(symbol.Id());
+            auto& entry = new_entries.back();
             entry.id = symbol.Id();
             entry.raw.sequences = std::vector<OperatorSequence>{symbol.sequence()};
             entry.canonical.sequences = std::vector<OperatorSequence>{symbol.sequence()};
             entry.canonical.symbols = std::vector<symbol_name_t>{entry.id};
-            this->index_tree.add(entry.canonical.symbols, entry.id);
+        }
+
+        // Add to index tree and table
+        std::vector<std::optional<symbol_name_t>> replaced_indices;
+        replaced_indices.reserve(new_entries.size());
+        try {
+            for (const auto& entry : new_entries) {
+                replaced_indices.emplace_back(this->index_tree.find(entry.canonical.symbols));
+                this->index_tree.add(entry.canonical.symbols, entry.id);
+            }
+            this->entries.insert(this->entries.end(), std::make_move_iterator(new_entries.begin()),
+                                                      std::make_move_iterator(new_entries.end()));
+        } catch (...) {
+            for (size_t undo = replaced_indices.size(); undo > 0; --undo) {
+                this->index_tree.overwrite(new_entries[undo-1].canonical.symbols, replaced_indices[undo-1]);
+            }
+            throw;
         }
 
         // Count factors
@@ -144,9 +161,8 @@ namespace Moment::Inflation {
     }
 
     void FactorTable::register_new(symbol_name_t id, std::vector<symbol_name_t> factors) {
-        this->entries.emplace_back(id);
-        assert(this->entries.size() == id+1);
-        auto& new_entry = this->entries.back();
+        assert(this->entries.size() == id);
+        FactorEntry new_entry{id};
         new_entry.canonical.symbols.swap(factors);
 
         // Look up associated sequences
@@ -155,8 +171,14 @@ namespace Moment::Inflation {
             new_entry.canonical.sequences.push_back(symbols[sym_id].sequence());
         }
 
-        // Create index
-        index_tree.add(new_entry.canonical.symbols, new_entry.id);
+        // Add entry, and create index
+        this->entries.emplace_back(std::move(new_entry));
+        try {
+            index_tree.add(this->entries.back().canonical.symbols, id);
+        } catch (...) {
+            this->entries.pop_back();
+            throw;
+        }
     }
 
     void FactorTable::register_new(std::vector<std::unique_ptr<std::vector<symbol_name_t>>>&& definitions,
@@ -164,7 +186,9 @@ namespace Moment::Inflation {
                                    IndexTree<symbol_name_t, symbol_name_t>&& indices) {
         assert(definitions.size() == op_seqs.size());
 
-        symbol_name_t next_symbol_id = this->entries.size();
+        const symbol_name_t first_symbol_id = this->entries.size();
+        symbol_name_t next_symbol_id = first_symbol_id;
+        this->entries.reserve(this->entries.size() + definitions.size());
         for (size_t index = 0; index < definitions.size(); ++index) {
             auto& def_ptr = definitions[index];
             auto& op_seq_ptr = op_seqs[index];
@@ -178,9 +202,22 @@ namespace Moment::Inflation {
             ++next_symbol_id;
         }
 
-        index_tree.merge_in(std::move(indices));
-
+        try {
+            index_tree.merge_in(std::move(indices));
+        } catch (...) {
+            this->forget_from(first_symbol_id);
+            throw;
+        }
+    }
 
+    void FactorTable::forget_from(const symbol_name_t first_id) noexcept {
+        while (this->entries.size() > first_id) {
+            const auto& entry = this->entries.back();
+            if (this->index_tree.find(entry.canonical.symbols) == entry.id) {
+                this->index_tree.overwrite(entry.canonical.symbols, std::nullopt);
+            }
+            this->entries.pop_back();
+        }
     }
 
 
diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.h b/cpp/lib_moment/scenarios/inflation/factor_table.h
index 11d175a..767cd0b 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.h
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.h
@@ -179,6 +179,9 @@ namespace Moment {
                 return this->index_tree;
             }
 
+            /** Remove entries, including their indices, from supplied id onwards. */
+            void forget_from(symbol_name_t first_id) noexcept;
+
         private:
             size_t check_for_new_factors();
 
diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
index d38d3ba..3b3163c 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
@@ -38,7 +38,15 @@ namespace Moment::Multithreading {
         this->the_thread = std::thread{&ExtendedMatrixWorker::execute, this};
     }
 
-    void ExtendedMatrixWorker::execute() {
+    void ExtendedMatrixWorker::execute() noexcept {
+        try {
+            this->do_execute();
+        } catch (...) {
+            this->failure = std::current_exception();
+        }
+    }
+
+    void ExtendedMatrixWorker::do_execute() {
         const auto * const src_data = this->bundle.source_symbols.raw_data();
         const size_t src_dimension = this->bundle.source_symbols.Dimension();
         const size_t full_dimension = this->bundle.output_dimension;
@@ -149,6 +157,13 @@ namespace Moment::Multithreading {
 
         this->join_all();
 
+        // If any worker failed, matrix is incomplete, and nothing should be registered.
+        for (auto& worker_ptr : this->workers) {
+            if (worker_ptr->failure) {
+                std::rethrow_exception(worker_ptr->failure);
+            }
+        }
+
         this->symbols_and_factors.register_new_symbols_and_factors();
 
         // Move output data
diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
index 81f164e..d171f41 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
@@ -15,6 +15,7 @@
 #include "tensor/square_matrix.h"
 
 #include <atomic>
+#include <exception>
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
@@ -47,6 +48,9 @@ namespace Moment {
             std::thread the_thread;
             Monomial * const output_data;
 
+            /** Failure of worker, to be passed on by bundle. */
+            std::exception_ptr failure;
+
             /** Thread-local scratch data for combined factors */
             std::vector<symbol_name_t> scratch_combined;
 
@@ -58,11 +62,13 @@ namespace Moment {
 
             void launch();
 
-            void execute();
+            void execute() noexcept;
 
             friend class ExtendedMatrixBundle;
 
         private:
+            void do_execute();
+
             symbol_name_t combine_and_register_factors(const std::vector<symbol_name_t>& source_factors,
                                                        const std::vector<symbol_name_t>& extended_factors);
 
diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
index 91ff60e..90668a1 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
@@ -95,14 +95,18 @@ namespace Moment::Multithreading {
         assert(new_symbol_count > 0);
         assert(this->symbols.size() == this->first_symbol_id);
 
-        // Register new symbols in table
-        this->symbols.create(new_symbol_count, true, false);
-
         // Register new factors
         this->factors.register_new(std::move(this->new_factors),
                                    std::move(this->new_op_seqs),
                                    std::move(this->index_tree));
 
+        // Register new symbols in table
+        try {
+            this->symbols.create(new_symbol_count, true, false);
+        } catch (...) {
+            this->factors.forget_from(this->first_symbol_id);
+            throw;
+        }
     }
 
 
diff --git a/cpp/lib_moment/utilities/index_tree.h b/cpp/lib_moment/utilities/index_tree.h
index baf749f..303ba07 100644
--- a/cpp/lib_moment/utilities/index_tree.h
+++ b/cpp/lib_moment/utilities/index_tree.h
@@ -272,6 +272,16 @@ namespace Moment {
             return (*iter_to_child).get();
         }
 
+        /**
+         * Overwrite (or clear) the value of a node, if that node is in the tree. Never allocates.
+         */
+        void overwrite(std::span<const look_up_t> look_up_str, std::optional<value_t> new_value) noexcept {
+            auto * node = const_cast<IndexTree*>(this->find_node(look_up_str));
+            if (node != nullptr) {
+                node->_value = std::move(new_value);
+            }
+        }
+
         /**
          * Attempt to read an entry from the tree
          */
-- 
2.43.0


From b9a9482c96c558aa26325e811be621d290128080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 45/73] fix: rulebooks and factors take up symbols left over
 from a request that failed for lack of memory

---
 .../matrix_system/matrix_system.cpp           | 38 +++++++++++--------
 cpp/lib_moment/matrix_system/matrix_system.h  |  9 +++++
 .../scenarios/inflation/factor_table.cpp      | 11 ++++++
 .../inflation/inflation_matrix_system.cpp     | 10 ++---
 cpp/lib_moment/symbolic/symbol_table.cpp      |  2 +
 5 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 98b0ee9..296f4fe 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <stdexcept>
 
 namespace Moment {
@@ -43,6 +44,7 @@ namespace Moment {
           Rulebook{*this} {
         this->poly_factory = std::make_unique<ByIDPolynomialFactory>(*this->symbol_table, zero_tolerance);
         this->PolynomialLocalizingMatrix.indices.set_factory(*this->poly_factory);
+        this->reported_symbols = this->symbol_table->size();
     }
 
     MatrixSystem::~MatrixSystem() noexcept = default;
@@ -107,16 +109,29 @@ namespace Moment {
     }
 
 
+    void MatrixSystem::report_new_symbols(const MaintainsMutex::WriteLock& lock) {
+        const size_t symbol_count = this->symbol_table->size();
+        if (symbol_count <= this->reported_symbols) {
+            return;
+        }
+        try {
+            this->on_new_symbols_registered(lock, this->reported_symbols, symbol_count);
+        } catch (const std::bad_alloc&) {
+            throw; // Symbols will be reported again by next request.
+        } catch (...) {
+            this->reported_symbols = this->symbol_table->size();
+            throw;
+        }
+        this->reported_symbols = this->symbol_table->size();
+    }
+
+
     std::unique_ptr<class SymbolicMatrix>
     MatrixSystem::create_moment_matrix(const MaintainsMutex::WriteLock& lock,
                                        const size_t level, const Multithreading::MultiThreadPolicy mt_policy) {
         assert(this->is_locked_write_lock(lock));
-        const size_t prev_symbol_count = this->symbol_table->size();
         auto ptr = MomentMatrix::create_matrix(*this->context, *this->symbol_table, level, mt_policy);
-        const size_t new_symbol_count = this->symbol_table->size();
-        if (new_symbol_count > prev_symbol_count) {
-            this->on_new_symbols_registered(lock, prev_symbol_count, new_symbol_count);
-        }
+        this->report_new_symbols(lock);
         return ptr;
     }
 
@@ -126,12 +141,8 @@ namespace Moment {
                                            const LocalizingMatrixIndex& lmi,
                                            Multithreading::MultiThreadPolicy mt_policy) {
         assert(this->is_locked_write_lock(lock));
-        const size_t prev_symbol_count = this->symbol_table->size();
         auto ptr = LocalizingMatrix::create_matrix(*this->context, *this->symbol_table, lmi, mt_policy);
-        const size_t new_symbol_count = this->symbol_table->size();
-        if (new_symbol_count > prev_symbol_count) {
-            this->on_new_symbols_registered(lock, prev_symbol_count, new_symbol_count);
-        }
+        this->report_new_symbols(lock);
         return ptr;
     }
 
@@ -159,14 +170,9 @@ namespace Moment {
     bool MatrixSystem::generate_dictionary(const size_t word_length) {
         auto write_lock = this->get_write_lock();
 
-        const size_t prev_symbol_count = this->symbol_table->size();
-
         auto [osg_size, new_symbols] = this->symbol_table->fill_to_word_length(word_length);
 
-        const size_t new_symbol_count = this->symbol_table->size();
-        if (new_symbol_count > prev_symbol_count) {
-            this->on_new_symbols_registered(write_lock, prev_symbol_count, new_symbol_count);
-        }
+        this->report_new_symbols(write_lock);
 
         this->on_new_dictionary(write_lock, word_length, this->context->operator_sequence_generator(word_length));
 
diff --git a/cpp/lib_moment/matrix_system/matrix_system.h b/cpp/lib_moment/matrix_system/matrix_system.h
index 291ec73..754beb3 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.h
+++ b/cpp/lib_moment/matrix_system/matrix_system.h
@@ -51,6 +51,9 @@ namespace Moment {
         /** List of matrices in the system. */
         std::vector<std::unique_ptr<SymbolicMatrix>> matrices;
 
+        /** Number of symbols in table that have been passed on to on_new_symbols_registered. */
+        size_t reported_symbols = 0;
+
     public:
         /** Indexed moment matrices. */
         MomentMatrixIndices MomentMatrix;
@@ -241,6 +244,12 @@ namespace Moment {
                                               Multithreading::MultiThreadPolicy mt_policy);
 
     protected:
+        /**
+         * Calls on_new_symbols_registered, if there are any symbols it has not been called for yet.
+         * This includes those left over from earlier requests that failed after registering their symbols.
+         */
+        void report_new_symbols(const MaintainsMutex::WriteLock& write_lock);
+
         /**
          * Virtual method, called to expand a rulebook according to matrix system extra rules.
          * @param rulebook The rulebook to expand
diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 925bc6b..d1b1ff9 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -239,6 +239,11 @@ namespace Moment::Inflation {
             return lhs;
         }
 
+        // Symbols might be in symbol table, but not yet in this table
+        if ((lhs >= this->entries.size()) || (rhs >= this->entries.size())) [[unlikely]] {
+            throw errors::unknown_symbol{std::to_string(lhs) + " * " + std::to_string(rhs)};
+        }
+
         // Is either side non-fundamental?
         if (!this->entries[lhs].fundamental() || !this->entries[rhs].fundamental()) {;
             return this->try_multiply(std::vector<symbol_name_t>{lhs, rhs});
@@ -289,6 +294,12 @@ namespace Moment::Inflation {
             }
         }
 
+        // Symbols might be in symbol table, but not yet in this table
+        if (std::any_of(multiplicands.begin(), multiplicands.end(),
+                        [this](auto x) { return x >= this->entries.size(); })) [[unlikely]] {
+            throw errors::unknown_symbol{"(symbol without known factors)"};
+        }
+
         // Any non-fundamental variables?
         const bool any_non_fundamental = std::any_of(multiplicands.begin(), multiplicands.end(),
             [this](auto x) {
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 14805ed..6059009 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -59,17 +59,16 @@ namespace Moment::Inflation {
         }
         auto& monomial_source = dynamic_cast<MonomialMatrix&>(source);
 
-        const size_t prev_symbol_count = this->Symbols().size();
+        // Factors must be known for every symbol, including those left over from a request that failed
+        this->report_new_symbols(lock);
+
         auto extended_matrix = std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
                                                                 this->polynomial_factory().zero_tolerance,
                                                                 monomial_source, index.extension_list,
                                                                 mt_policy);
 
         // Extension can register new products of moments, to which the rulebooks must also apply
-        const size_t new_symbol_count = this->Symbols().size();
-        if (new_symbol_count > prev_symbol_count) {
-            this->on_new_symbols_registered(lock, prev_symbol_count, new_symbol_count);
-        }
+        this->report_new_symbols(lock);
 
         return extended_matrix;
     }
@@ -112,6 +111,7 @@ namespace Moment::Inflation {
         // Add additional rules to factor rulebook
         auto& write_rb = this->Rulebook(index);
         assert(&write_rb == &rb);
+        this->factors->on_new_symbols_added();
         this->expand_rulebook(write_rb, 0);
     }
 
diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index f5fb188..b81539b 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -75,9 +75,11 @@ namespace Moment {
         this->unique_sequences.reserve(range_end);
         if (has_real) {
             this->Basis.real_symbols.reserve(this->Basis.real_symbols.size() + count);
+            this->Basis.im_of_real.reserve(this->Basis.im_of_real.size() + count);
         }
         if (has_imaginary) {
             this->Basis.imaginary_symbols.reserve(this->Basis.imaginary_symbols.size() + count);
+            this->Basis.re_of_imaginary.reserve(this->Basis.re_of_imaginary.size() + count);
         }
 
         for (size_t next_id = first_id; next_id < range_end; ++next_id) {
-- 
2.43.0


From c527af2af3be3bc427169dcc3abc1a20a5790c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 46/73] fix: numeric bases of a matrix are made anew when its
 basis elements are renumbered

---
 cpp/lib_moment/matrix/matrix_basis.cpp      | 12 ++++++++++++
 cpp/lib_moment/matrix/matrix_basis.h        | 13 +++++++++++++
 cpp/lib_moment/matrix/monomial_matrix.cpp   |  1 +
 cpp/lib_moment/matrix/polynomial_matrix.cpp |  1 +
 4 files changed, 27 insertions(+)

diff --git a/cpp/lib_moment/matrix/matrix_basis.cpp b/cpp/lib_moment/matrix/matrix_basis.cpp
index 16d7911..09adf25 100644
--- a/cpp/lib_moment/matrix/matrix_basis.cpp
+++ b/cpp/lib_moment/matrix/matrix_basis.cpp
@@ -239,4 +239,16 @@ namespace Moment {
         return do_infer_sparse_monolithic<SparseMonolithicComplexBasisInfo>(*this);
     }
 
+    void MatrixBasis::reset() noexcept {
+        std::unique_lock lock{this->mutex};
+        this->Dense.reset();
+        this->DenseComplex.reset();
+        this->Sparse.reset();
+        this->SparseComplex.reset();
+        this->DenseMonolithic.reset();
+        this->DenseMonolithicComplex.reset();
+        this->SparseMonolithic.reset();
+        this->SparseMonolithicComplex.reset();
+    }
+
 }
\ No newline at end of file
diff --git a/cpp/lib_moment/matrix/matrix_basis.h b/cpp/lib_moment/matrix/matrix_basis.h
index f3c8a6b..8062efb 100644
--- a/cpp/lib_moment/matrix/matrix_basis.h
+++ b/cpp/lib_moment/matrix/matrix_basis.h
@@ -78,6 +78,13 @@ namespace Moment {
 
             /** Constructs the basis from scratch */
             [[nodiscard]] typename MBTInfo::MakeStorageType create_basis() const;
+
+            /** Forgets the cached basis. */
+            void reset() noexcept {
+                this->done.store(false, std::memory_order_relaxed);
+                this->re = {};
+                this->im = {};
+            }
         };
 
     public:
@@ -135,6 +142,12 @@ namespace Moment {
 
         MatrixBasis(const SymbolicMatrix& matrix, MatrixBasis&& rhs) noexcept;
 
+        /**
+         * Forgets all cached bases, such that they are made again from the current state of matrix and symbol table.
+         * References to bases previously supplied are invalidated.
+         */
+        void reset() noexcept;
+
     private:
         DenseBasisInfo::MakeStorageType create_dense();
         SparseBasisInfo::MakeStorageType create_sparse();
diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 9a5f86a..90603ca 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -97,6 +97,7 @@ namespace Moment {
         }
 
         this->identify_symbols_and_basis_indices();
+        this->Basis.reset();
     }
 
     void MonomialMatrix::identify_symbols_and_basis_indices() {
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 2123093..96126ae 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -164,6 +164,7 @@ namespace Moment {
         }
 
         this->identify_symbols_and_basis_indices(zero_tolerance);
+        this->Basis.reset();
     }
 
     void PolynomialMatrix::identify_symbols_and_basis_indices(double zero_tolerance) {
-- 
2.43.0


From 1883975b8df121b6d76954ad0ee700db1c848a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 47/73] fix: an import refused for contradicting what is known
 of a symbol leaves the symbols as they were

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index b81539b..3912e07 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -227,9 +227,21 @@ namespace Moment {
         assert(can_be_real.bit_size == can_be_imaginary.bit_size);
         bool changes = false;
 
-        // Ensure enough elements exist
+        // Before anything is changed, ensure that no symbol would be forced to zero
         const size_t initial_elems = this->unique_sequences.size();
         const size_t elems = can_be_real.bit_size;
+        for (size_t id = 1; id < elems; ++id) {
+            const bool known = id < initial_elems;
+            const bool must_be_real = !can_be_imaginary.test(id)
+                                      || (known && this->unique_sequences[id].hermitian);
+            const bool must_be_imaginary = !can_be_real.test(id)
+                                           || (known && this->unique_sequences[id].antihermitian);
+            if (must_be_real && must_be_imaginary) {
+                throw errors::zero_symbol{static_cast<symbol_name_t>(id)};
+            }
+        }
+
+        // Ensure enough elements exist
         if (elems > initial_elems) {
             this->create(elems - initial_elems);
         }
-- 
2.43.0


From 95af1380cf522f06c0edc080faba44a53596253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:36 +0000
Subject: [PATCH 48/73] fix: moving a word along the columns of a wrapped
 lattice of over 64 qubits takes the offset modulo the number of rows

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 5231d2f..8a81122 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -240,7 +240,7 @@ namespace Moment::Pauli {
         [[nodiscard]] Datum row_cyclic_shift(const Datum& input, size_t offset) const noexcept {
 
             // Normalize rotation, and get within-column offsets
-            offset = offset % this->row_width;
+            offset = offset % this->column_height;
             const storage_t bit_offset = 2ULL * offset;
             const storage_t bit_anti_offset = (this->column_height * 2ULL) - bit_offset;
 
-- 
2.43.0


From 78d4a48be931cde06c2353935d8d588c9f8f6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:36 +0000
Subject: [PATCH 49/73] fix: negative offsets move words the other way around
 wrapped chains and lattices

---
 .../symmetry/moment_simplifier_wrapping.h     | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
index 764e85d..519f46f 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
@@ -68,13 +68,10 @@ namespace Moment::Pauli {
         [[nodiscard]] sequence_storage_t chain_offset(const std::span<const oper_name_t> input,
                                                       ptrdiff_t offset) const final {
             // Translate offsets to positive range:
-            offset = offset % this->context.qubit_size;
-            if (offset < 0) {
-                offset = this->site_hasher.qubits - offset;
-            }
+            const size_t shift = positive_offset(offset, this->site_hasher.qubits);
 
             // Via hash, shift:
-            return this->site_hasher.unhash(this->site_hasher.cyclic_shift(this->site_hasher.hash(input), offset));
+            return this->site_hasher.unhash(this->site_hasher.cyclic_shift(this->site_hasher.hash(input), shift));
         }
 
         using MomentSimplifier::lattice_offset;
@@ -84,19 +81,19 @@ namespace Moment::Pauli {
                                           ptrdiff_t row_offset,
                                           ptrdiff_t col_offset) const final {
             // Translate offsets to positive range:
-            row_offset = row_offset % this->context.qubit_size;
-            if (row_offset < 0) {
-                row_offset = this->site_hasher.qubits - row_offset;
-            }
-
-            col_offset = col_offset % this->context.qubit_size;
-            if (col_offset < 0) {
-                col_offset = this->site_hasher.qubits - col_offset;
-            }
+            const size_t row_shift = positive_offset(row_offset, this->site_hasher.column_height);
+            const size_t col_shift = positive_offset(col_offset, this->site_hasher.row_width);
 
             // Via hash, shift:
             return this->site_hasher.unhash(this->site_hasher.lattice_shift(this->site_hasher.hash(input),
-                                                                            row_offset, col_offset));
+                                                                            row_shift, col_shift));
+        }
+
+    private:
+        /** Offset in range [0, period) that is equivalent to supplied (possibly negative) offset. */
+        [[nodiscard]] constexpr static size_t positive_offset(const ptrdiff_t offset, const size_t period) noexcept {
+            const ptrdiff_t remainder = offset % static_cast<ptrdiff_t>(period);
+            return static_cast<size_t>(remainder < 0 ? remainder + static_cast<ptrdiff_t>(period) : remainder);
         }
     };
 
-- 
2.43.0


From cd3fb84f01bdccbdf554c6f9882454bacf66380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 50/73] fix: wrapped lattices whose columns hold over 32 qubits
 can be moved along their columns

---
 .../scenarios/pauli/symmetry/site_hasher.h    | 41 ++++++++++++++++++-
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 8a81122..60a8db9 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -76,7 +76,7 @@ namespace Moment::Pauli {
         */
         [[nodiscard]] constexpr static storage_t
         calculate_mask_from_bits(const size_t num_bits) noexcept {
-            if ((2 * qubits_per_slide == num_bits) || (0 == num_bits)) {
+            if ((2 * qubits_per_slide <= num_bits) || (0 == num_bits)) {
                 return ~static_cast<storage_t>(0); // 0xff...ff
             }
 
@@ -93,11 +93,38 @@ namespace Moment::Pauli {
         calculate_mask_from_qubits(const size_t num_qubits) noexcept {
             return calculate_mask_from_bits(num_qubits*2);
         }
+
+        /**
+         * Offset along minor axis, site by site. For columns too tall to be rotated as a single word.
+         */
+        template<size_t num_slides>
+        [[nodiscard]] std::array<storage_t, num_slides>
+        row_cyclic_shift_by_site(const std::array<storage_t, num_slides>& input, const size_t offset) const noexcept {
+            std::array<storage_t, num_slides> output;
+            output.fill(0);
+            for (size_t slide = 0; slide < num_slides; ++slide) {
+                storage_t cursor = input[slide];
+                while (0 != cursor) {
+                    // Consume first non-trivial site
+                    const size_t slide_offset = std::countr_zero(cursor) / 2;
+                    const storage_t pauli_op = (cursor >> (2 * slide_offset)) & 0x3;
+                    cursor ^= (pauli_op << (2 * slide_offset));
+
+                    // Rotate within column
+                    const size_t site = (slide * qubits_per_slide) + slide_offset;
+                    const size_t row = site % this->column_height;
+                    const size_t new_site = (site - row) + ((row + offset) % this->column_height);
+
+                    output[new_site / qubits_per_slide] |= pauli_op << (2 * (new_site % qubits_per_slide));
+                }
+            }
+            return output;
+        }
     };
     
     
     /**
-      * General hasher implementation, for arbitrary number of qubits, but maximum column size of 16.
+      * General hasher implementation, for arbitrary number of qubits.
       * @tparam num_slides
       */
     template<size_t num_slides>
@@ -249,6 +276,11 @@ namespace Moment::Pauli {
                 return input;
             }
 
+            // Columns taller than one slide cannot be rotated as a single word
+            if (this->column_height > qubits_per_slide) [[unlikely]] {
+                return this->row_cyclic_shift_by_site(input, offset);
+            }
+
             Datum output;
             output.fill(0);
 
@@ -632,6 +664,11 @@ namespace Moment::Pauli {
                 return input;
             }
 
+            // Columns taller than one slide cannot be rotated as a single word
+            if (this->column_height > qubits_per_slide) [[unlikely]] {
+                return this->row_cyclic_shift_by_site(input, offset);
+            }
+
             const storage_t bit_offset = 2 * offset;
             const storage_t bit_anti_offset = (this->column_height * 2) - bit_offset;
 
-- 
2.43.0


From 3c0598ba968350cadbd2e05c0e2dc96a33a03d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 51/73] fix: reducing a multiple of the identity keeps its sign

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 52f50f8..acb7591 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -191,9 +191,7 @@ namespace Moment::Algebraic {
 
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
-        if (input.empty()) {
-            return HashedSequence{input.zero()};
-        } else if (this->monomialRules.empty()) {
+        if (input.empty() || this->monomialRules.empty()) {
             return input;
         }
 
-- 
2.43.0


From 83cfeae48d6a68fb739339ce2cf64df430bcd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 52/73] fix: a signed sequence reduced in place to zero loses
 its sign

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index acb7591..7378d5e 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -239,8 +239,7 @@ namespace Moment::Algebraic {
                 input.set_sign(sign_type);
                 break;
             case RawReductionResult::SetToZero:
-                input.raw().clear();
-                input.rehash(0);
+                input.set_to_zero();
                 break;
         }
         return result;
-- 
2.43.0


From a08b72c37599d5f12af2afd8e14292b1eec2fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 53/73] fix: the conjugate of a signed sequence keeps its sign
 where operators are not self-adjoint

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 522f266..742c8b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -159,7 +159,7 @@ namespace Moment::Algebraic {
             return OperatorSequence::Zero(*this);
         }
 
-        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this};
+        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this, Moment::conjugate(seq.get_sign())};
     }
 
 
-- 
2.43.0


From c295ab9cb4df636ea28560850ab1568e16714f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 54/73] fix: a rule that equates a sequence with an imaginary
 multiple of itself makes it zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rule.cpp     | 3 ++-
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index cd31409..2a62592 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -78,7 +78,8 @@ namespace Moment::Algebraic {
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
         // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash()) && !this->rawRHS.negated();
+        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash())
+                           && (this->rawRHS.zero() || (this->rawRHS.get_sign() == SequenceSignType::Positive));
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 7378d5e..c7983d5 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -374,7 +374,7 @@ namespace Moment::Algebraic {
         const SequenceSignType relative_sign = difference(lhs.get_sign(), rhs.get_sign());
 
         // Special reduction if rule implies something is zero:
-        if ((lhs.hash() == rhs.hash()) && (relative_sign == SequenceSignType::Negative)) {
+        if ((lhs.hash() == rhs.hash()) && (relative_sign != SequenceSignType::Positive)) {
             lhs.set_sign(SequenceSignType::Positive);
             return OperatorRule{std::move(lhs), HashedSequence(true)};
         }
-- 
2.43.0


From 87dd47d335e87f36de0b81a3324903363b8cba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 55/73] fix: conjugating a rule set restarts at its first rule,
 not its second, once a rule was added

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index c7983d5..eb23f2a 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -577,9 +577,10 @@ namespace Moment::Algebraic {
                 // A new rule was added, iter is de facto invalidated, so restart at beginning of set...
                 rule_iter = this->rules().begin();
                 ++added;
+            } else {
+                // No new rule, try next rule in set...
+                ++rule_iter;
             }
-            // No new rule, try next rule in set...
-            ++rule_iter;
         }
 
         return added;
-- 
2.43.0


From 371cebe969078e1812ff4191fabc186efc51d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 56/73] fix: reducing a rule set goes on until no rule reduces
 another

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 9 +++++++++
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.h   | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index eb23f2a..1d15df2 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -421,6 +421,15 @@ namespace Moment::Algebraic {
 
 
     size_t OperatorRulebook::reduce_ruleset(RuleLogger * logger) {
+        // A reduced rule can reduce rules looked at before it, so repeat until no rule changes
+        size_t number_reduced = 0;
+        for (size_t changed = 1; changed != 0; number_reduced += changed) {
+            changed = this->reduce_ruleset_once(logger);
+        }
+        return number_reduced;
+    }
+
+    size_t OperatorRulebook::reduce_ruleset_once(RuleLogger * logger) {
         size_t number_reduced = 0;
 
         auto rule_iter = this->monomialRules.begin();
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
index 95c709c..52f0a01 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
@@ -267,6 +267,11 @@ namespace Moment::Algebraic {
          */
         void recalculate_magnitude() noexcept;
 
+        /**
+         * Pass once through the set, simplifying each rule that can be reduced by other rules.
+         */
+        size_t reduce_ruleset_once(RuleLogger * logger);
+
         /**
          * Register a new rule.
          */
-- 
2.43.0


From bbebf0cab76217c114e9cb151771bb94af815dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 57/73] fix: completing rules considers every overlap of two
 rules, and rules that overlap or contain one another

---
 cpp/lib_moment/hashed_sequence.cpp            |  9 ++-
 cpp/lib_moment/hashed_sequence.h              |  8 ++
 .../scenarios/algebraic/operator_rule.cpp     |  6 +-
 .../scenarios/algebraic/operator_rule.h       | 10 +++
 .../scenarios/algebraic/operator_rulebook.cpp | 80 ++++++++++---------
 .../scenarios/algebraic/operator_rulebook.h   | 12 +++
 6 files changed, 86 insertions(+), 39 deletions(-)

diff --git a/cpp/lib_moment/hashed_sequence.cpp b/cpp/lib_moment/hashed_sequence.cpp
index 18dd207..f6ceea2 100644
--- a/cpp/lib_moment/hashed_sequence.cpp
+++ b/cpp/lib_moment/hashed_sequence.cpp
@@ -36,11 +36,16 @@ namespace Moment {
     }
 
     [[nodiscard]] ptrdiff_t HashedSequence::suffix_prefix_overlap(const HashedSequence& rhs) const noexcept {
+        return this->suffix_prefix_overlap(rhs, static_cast<ptrdiff_t>(std::min(this->size(), rhs.size())));
+    }
+
+    [[nodiscard]] ptrdiff_t HashedSequence::suffix_prefix_overlap(const HashedSequence& rhs,
+                                                                  const ptrdiff_t max_overlap) const noexcept {
         const auto& lhs = *this;
 
-        ptrdiff_t match_count = static_cast<ptrdiff_t>(std::min(lhs.size(), rhs.size()));
+        ptrdiff_t match_count = std::min(max_overlap, static_cast<ptrdiff_t>(std::min(lhs.size(), rhs.size())));
         // Early exit, if one string is null.
-        if (0 == match_count) {
+        if (match_count <= 0) {
             return 0;
         }
 
diff --git a/cpp/lib_moment/hashed_sequence.h b/cpp/lib_moment/hashed_sequence.h
index 53e832a..1fcd0ea 100644
--- a/cpp/lib_moment/hashed_sequence.h
+++ b/cpp/lib_moment/hashed_sequence.h
@@ -156,6 +156,14 @@ namespace Moment {
          */
         [[nodiscard]] ptrdiff_t suffix_prefix_overlap(const HashedSequence& rhs) const noexcept;
 
+        /**
+         * Returns the longest suffix of this sequence, no longer than supplied limit, that is also a prefix of rhs
+         * @param rhs The sequence, whose prefixes we consider
+         * @param max_overlap The largest number of characters to consider.
+         * @return The number of characters overlapping (if any).
+         */
+        [[nodiscard]] ptrdiff_t suffix_prefix_overlap(const HashedSequence& rhs, ptrdiff_t max_overlap) const noexcept;
+
         /** Begin iterator over operators */
         [[nodiscard]] constexpr auto begin() const noexcept  { return this->operators.cbegin(); }
 
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index 2a62592..ad6703f 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -163,8 +163,12 @@ namespace Moment::Algebraic {
         if (overlap_size <= 0) {
             return std::nullopt;
         }
+        return this->combine(other, overlap_size, pc);
+    }
 
-        // Next, make merged string from both rules' LHS
+    OperatorRule OperatorRule::combine(const OperatorRule &other, const ptrdiff_t overlap_size,
+                                       const AlgebraicPrecontext& pc) const {
+        // Make merged string from both rules' LHS
         sequence_storage_t joined_string;
         joined_string.reserve(static_cast<ptrdiff_t>(this->rawLHS.size() + other.rawLHS.size())
                               - overlap_size);
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.h b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
index 740b8b2..83c6e7d 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
@@ -78,6 +78,16 @@ namespace Moment::Algebraic {
         [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
                                                           const AlgebraicPrecontext& precontext) const;
 
+        /**
+         * Forms a new rule by overlapping the left-hand-sides of rules (suffix of this w/ prefix of other) by the given
+         * number of operators, and applying both rules to the joint string.
+         * @param other The rule to combine this with.
+         * @param overlap_size The number of overlapping operators; suffix of this and prefix of other must match.
+         * @param precontext The precontext, for generating new rule.
+         */
+        [[nodiscard]] OperatorRule combine(const OperatorRule& other, ptrdiff_t overlap_size,
+                                           const AlgebraicPrecontext& precontext) const;
+
         /**
          * True, if this rule directly implies the supplied other rule.
          */
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 1d15df2..a223a2f 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -472,6 +472,38 @@ namespace Moment::Algebraic {
         return number_reduced;
     }
 
+    std::optional<OperatorRule>
+    OperatorRulebook::combine_and_reduce(const OperatorRule& ruleA, const OperatorRule& ruleB) const {
+        // Consider every way the rules overlap, except for a rule entirely overlapping with itself
+        auto max_overlap = static_cast<ptrdiff_t>(std::min(ruleA.LHS().size(), ruleB.LHS().size()));
+        if (&ruleA == &ruleB) {
+            --max_overlap;
+        }
+        for (ptrdiff_t overlap = ruleA.LHS().suffix_prefix_overlap(ruleB.LHS(), max_overlap); overlap > 0;
+             overlap = ruleA.LHS().suffix_prefix_overlap(ruleB.LHS(), overlap - 1)) {
+            auto combined_reduced_rule = this->reduce(ruleA.combine(ruleB, overlap, this->precontext));
+            if (!combined_reduced_rule.trivial()) {
+                return combined_reduced_rule;
+            }
+        }
+        return std::nullopt;
+    }
+
+    bool OperatorRulebook::rules_agree(const OperatorRule& outer, const OperatorRule& inner) const {
+        const auto hint = inner.matches_anywhere(outer.LHS().begin(), outer.LHS().end());
+        if (hint == outer.LHS().end()) {
+            return true;
+        }
+
+        // Reduce via inner rule, and via outer rule
+        const auto via_inner = inner.implies_zero()
+                ? HashedSequence{true}
+                : this->reduce(HashedSequence{inner.apply_match_with_hint(outer.LHS().raw(), hint),
+                                              this->precontext.hasher, inner.rule_sign()});
+        const auto via_outer = this->reduce(outer.RHS());
+        return (via_inner.zero() && via_outer.zero()) || (via_inner == via_outer);
+    }
+
     bool OperatorRulebook::is_complete(const bool test_cc) const {
         // Look for CC rules
         if (test_cc && this->mock_conjugate()) {
@@ -483,26 +515,15 @@ namespace Moment::Algebraic {
             auto &ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto &ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
+                // Does rule contain other rule, without agreeing with it?
+                if ((iterB != iterA) && !this->rules_agree(ruleA, ruleB)) {
+                    return false;
                 }
 
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
+                // Can a non-trivial rule be formed by combining?
+                if (this->combine_and_reduce(ruleA, ruleB).has_value()) {
+                    return false;
                 }
-
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
-
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
-                // Not complete: a non-trivial rule was found
-                return false;
             }
         }
         // Complete: no non-trivial rules were found.
@@ -519,31 +540,18 @@ namespace Moment::Algebraic {
             auto& ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto& ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
-
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
-
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
-
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
+                // Can we form a non-trivial rule by combining?
+                auto combined_reduced_rule = this->combine_and_reduce(ruleA, ruleB);
+                if (!combined_reduced_rule.has_value()) {
                     continue;
                 }
 
                 // Non-trivial, add it to rule set
                 if (logger) {
-                    logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
+                    logger->rule_introduced(ruleA, ruleB, combined_reduced_rule.value());
                 }
-                size_t rule_hash = combined_reduced_rule.LHS().hash();
-                this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
+                size_t rule_hash = combined_reduced_rule->LHS().hash();
+                this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule.value())));
 
                 // Reduce ruleset
                 this->reduce_ruleset(logger);
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
index 52f0a01..2747887 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
@@ -13,6 +13,7 @@
 
 #include <iosfwd>
 #include <map>
+#include <optional>
 #include <span>
 #include <vector>
 
@@ -267,6 +268,17 @@ namespace Moment::Algebraic {
          */
         void recalculate_magnitude() noexcept;
 
+        /**
+         * Attempt to deduce a non-trivial reduced rule from the ways in which two rules overlap.
+         */
+        [[nodiscard]] std::optional<OperatorRule> combine_and_reduce(const OperatorRule& ruleA,
+                                                                     const OperatorRule& ruleB) const;
+
+        /**
+         * True, unless outer rule's left-hand side contains that of inner rule, and reduces differently with each rule.
+         */
+        [[nodiscard]] bool rules_agree(const OperatorRule& outer, const OperatorRule& inner) const;
+
         /**
          * Pass once through the set, simplifying each rule that can be reduced by other rules.
          */
-- 
2.43.0


From 7031d908b99f3766566962fccf34e0a65a8945b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 58/73] fix: conjugating rules before completion stops at the
 given number of iterations

---
 .../scenarios/algebraic/operator_rulebook.cpp      |  8 ++++----
 .../scenarios/algebraic/operator_rulebook.h        | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index a223a2f..ff5be91 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -161,7 +161,7 @@ namespace Moment::Algebraic {
                 return false;
             }
         } else {
-            iteration += this->conjugate_ruleset( logger);
+            iteration += this->conjugate_ruleset(max_iterations, logger);
         }
 
         // Now, standard Knuth-Bendix loop
@@ -177,7 +177,7 @@ namespace Moment::Algebraic {
         }
 
         // Maximum iterations reached: see if we're complete (i.e. did final rule introduced complete the set?)
-        bool is_complete = this->is_complete(false);
+        bool is_complete = this->is_complete(!mock_mode);
         if (logger) {
             if (is_complete) {
                 logger->success(*this, iteration);
@@ -583,12 +583,12 @@ namespace Moment::Algebraic {
         return false;
     }
 
-    size_t OperatorRulebook::conjugate_ruleset(RuleLogger * logger) {
+    size_t OperatorRulebook::conjugate_ruleset(const size_t max_rules, RuleLogger * logger) {
         size_t added = 0;
 
         auto rule_iter = this->rules().begin();
 
-        while (rule_iter != this->rules().end()) {
+        while ((rule_iter != this->rules().end()) && (added < max_rules)) {
             if (this->try_conjugation(rule_iter->second, logger)) {
 
                 // A new rule was added, iter is de facto invalidated, so restart at beginning of set...
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
index 2747887..9464b18 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
@@ -12,6 +12,7 @@
 #include "shortlex_hasher.h"
 
 #include <iosfwd>
+#include <limits>
 #include <map>
 #include <optional>
 #include <span>
@@ -240,11 +241,20 @@ namespace Moment::Algebraic {
         bool mock_conjugate() const;
         /**
          * Attempt to conjugate all rules in the set, reducing after each non-trivial conjugation.
-         * @param mock Set to true to not alter rule set, but just indicate existence of non-trivial conjugate.
          * @param logger Pointer (may be null) to class logging which new rules are introduced.
          * @return Number of introduced rules.
          */
-        size_t conjugate_ruleset(RuleLogger * logger = nullptr);
+        inline size_t conjugate_ruleset(RuleLogger * logger = nullptr) {
+            return this->conjugate_ruleset(std::numeric_limits<size_t>::max(), logger);
+        }
+
+        /**
+         * Attempt to conjugate all rules in the set, reducing after each non-trivial conjugation.
+         * @param max_rules The maximum number of rules to introduce before giving up.
+         * @param logger Pointer (may be null) to class logging which new rules are introduced.
+         * @return Number of introduced rules.
+         */
+        size_t conjugate_ruleset(size_t max_rules, RuleLogger * logger);
 
         /**
          * Attempts to introduce a rule by conjugating the supplied input rule.
-- 
2.43.0


From f51d83ed54e37292fcf321b52fad203aa712b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:31 +0000
Subject: [PATCH 59/73] fix: real part of a complex basis vector was multiplied
 by i when made from separate parts

---
 cpp/lib_moment/symbolic/polynomial_to_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.h b/cpp/lib_moment/symbolic/polynomial_to_basis.h
index 58877b6..f268fd8 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.h
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.h
@@ -54,7 +54,7 @@ namespace Moment {
 
         ComplexBasisVector() = default;
         explicit ComplexBasisVector(const RealAndImaginaryBasisVector& expr) {
-            this->real = (std::complex<double>{0.0, 1.0} * expr.real_part.real)
+            this->real = (std::complex<double>{1.0, 0.0} * expr.real_part.real)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.real;
             this->imaginary = (std::complex<double>{1.0, 0.0} * expr.real_part.imaginary)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.imaginary;
-- 
2.43.0


From 81919e83ce4054b5bf8a5e7109c090c6d333df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:31 +0000
Subject: [PATCH 60/73] fix: mask of a monomial left out the first real and
 imaginary basis elements

---
 cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
index cc0a373..2f19e21 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
@@ -99,10 +99,10 @@ namespace Moment {
         }
         auto& symbol_info = this->symbols[monomial.id];
         auto [re_basis_index, im_basis_index] = symbol_info.basis_key();
-        if (re_basis_index > 0) {
+        if (re_basis_index >= 0) {
             real_mask.set(re_basis_index);
         }
-        if (im_basis_index > 0) {
+        if (im_basis_index >= 0) {
             imaginary_mask.set(im_basis_index);
         }
     }
-- 
2.43.0


From 29e64c4a66c71450a82662c2eaea7735bc869020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:49 +0000
Subject: [PATCH 61/73] fix: unwrapping an outcome number accepted the first
 observable past the end

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 72a0bf8..f697b47 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -474,7 +474,7 @@ namespace Moment::Inflation {
         output.reserve(input.size());
         size_t index = 0;
         for (const auto& ov : input) {
-            if (ov.observable > this->inflated_observables.size()) {
+            if (ov.observable >= this->inflated_observables.size()) {
                 std::stringstream errSS;
                 errSS << "Observable \"" << ov.observable << "\" at index " << index << " out of range.";
                 throw errors::bad_observable{index, errSS.str()};
-- 
2.43.0


From b116e1b2392c3f5b079942e0d32f905d850ab05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:49 +0000
Subject: [PATCH 62/73] fix: cleaning a polynomial's factors ignored the
 tolerance given

---
 cpp/lib_moment/symbolic/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index b9e8a72..169686d 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -101,7 +101,7 @@ namespace Moment {
 
     void Polynomial::real_or_imaginary_if_close(double zero_tolerance) noexcept {
         for (auto& elem : this->data) {
-            Moment::real_or_imaginary_if_close(elem.factor);
+            Moment::real_or_imaginary_if_close(elem.factor, zero_tolerance);
         }
     }
 
-- 
2.43.0


From 24167690ea7177d1ab61777b46eec84005520a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:49 +0000
Subject: [PATCH 63/73] fix: deleting the matrix one past the last read out of
 bounds

---
 cpp/lib_moment/matrix_system/matrix_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 296f4fe..0277d17 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -95,7 +95,7 @@ namespace Moment {
     bool MatrixSystem::delete_matrix(const MaintainsMutex::WriteLock& lock, ptrdiff_t index) noexcept {
         assert(this->is_locked_write_lock(lock));
         // No deletion for bad index
-        if ((index < 0) || (index > this->matrices.size())) {
+        if ((index < 0) || (index >= this->matrices.size())) {
             return false;
         }
         // No deletion for missing matrix
-- 
2.43.0


From 8b3b4461297ddb39e2bdd583854e6faa2747abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 64/73] fix: zero times a signed identity was a zero with a
 sign in Pauli contexts

---
 cpp/lib_moment/scenarios/pauli/pauli_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
index c20ff0e..8bcac4e 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
@@ -194,8 +194,8 @@ namespace Moment::Pauli {
 
         // First, if RHS has no operators:
         if (rhs.empty()) {
-            if (rhs.zero()) {
-                // RHS is zero, so product is zero
+            if (rhs.zero() || lhs.zero()) {
+                // Either side is zero, so product is zero
                 return OperatorSequence::Zero(*this);
             } else {
                 // RHS is +1, +i, -1, or -i, so copy LHS with sign change.
-- 
2.43.0


From 6314d91133c246992d7e9a90bcc71cd3beed65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 65/73] fix: appending operators to zero gave the operators

---
 cpp/lib_moment/dictionary/operator_sequence.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.h b/cpp/lib_moment/dictionary/operator_sequence.h
index 4edd911..cb425eb 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.h
+++ b/cpp/lib_moment/dictionary/operator_sequence.h
@@ -130,6 +130,9 @@ namespace Moment {
          */
         template<std::input_iterator iter_t>
         inline OperatorSequence& append(iter_t begin, iter_t end) {
+            if (this->zero()) {
+                return *this; // Zero, whatever is appended.
+            }
             this->operators.insert(this->operators.end(), begin, end);
             this->to_canonical_form();
             return *this;
-- 
2.43.0


From c46e552d46bbc44348fdc28941a4dff1ce25fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 66/73] fix: longest hashable word was overestimated

---
 cpp/lib_moment/shortlex_hasher.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/shortlex_hasher.h b/cpp/lib_moment/shortlex_hasher.h
index e650b0d..6bf73e6 100644
--- a/cpp/lib_moment/shortlex_hasher.h
+++ b/cpp/lib_moment/shortlex_hasher.h
@@ -68,9 +68,20 @@ namespace Moment {
                 // Hash is basically just string length for radix 1.
                 return std::numeric_limits<size_t>::max() - this->offset;
             }
-            return static_cast<size_t>(
-                    static_cast<double>(std::numeric_limits<size_t>::digits) / std::log2(this->radix)
-            );
+            // Find longest length L, such that largest hash (offset + radix + radix^2 + ... + radix^L) does not overflow.
+            constexpr hash_t max_hash = std::numeric_limits<hash_t>::max();
+            hash_t largest_hash = this->offset;
+            hash_t stride = 1;
+            size_t length = 0;
+            while (stride <= (max_hash / this->radix)) {
+                stride *= this->radix;
+                if (stride > (max_hash - largest_hash)) {
+                    break;
+                }
+                largest_hash += stride;
+                ++length;
+            }
+            return length;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From b452e10497087901acb5c70b2d357bea562cf9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 67/73] fix: operators of a party outside any context were
 given

---
 cpp/lib_moment/scenarios/locality/party.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/lib_moment/scenarios/locality/party.cpp b/cpp/lib_moment/scenarios/locality/party.cpp
index 1d909f2..8f56e65 100644
--- a/cpp/lib_moment/scenarios/locality/party.cpp
+++ b/cpp/lib_moment/scenarios/locality/party.cpp
@@ -190,6 +190,9 @@ namespace Moment::Locality {
     }
 
     oper_name_t Party::operator[](size_t index) const {
+        if (!context) {
+            throw std::logic_error{"Cannot access operators of party until party has been attached to a context."};
+        }
         if (index >= this->party_operator_count) {
             throw std::range_error{"Operator index out of range."};
         }
-- 
2.43.0


From 33112d20e482a10e48935e2c805216689c45f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 68/73] fix: moment form of a signed word lost its sign in
 inflation contexts

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index f697b47..3965857 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -417,10 +417,11 @@ namespace Moment::Inflation {
 
         // If source-relabelling causes change in operator order, there could be further simplifications:
         if (!std::is_sorted(permuted_operators.cbegin(), permuted_operators.cend())) {
-            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this}); // recurse..!
+            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this,
+                                                             input.get_sign()}); // recurse..!
         }
 
-        return OperatorSequence{std::move(permuted_operators), *this};
+        return OperatorSequence{std::move(permuted_operators), *this, input.get_sign()};
     }
 
 
-- 
2.43.0


From 5ef26b9177f7a04ba8bd5c11ee49b90933394dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:10 +0000
Subject: [PATCH 69/73] fix: product of polynomials was declared for Pauli
 contexts but never defined

---
 cpp/lib_moment/scenarios/pauli/pauli_context.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_context.h b/cpp/lib_moment/scenarios/pauli/pauli_context.h
index 9d49b26..405238e 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_context.h
+++ b/cpp/lib_moment/scenarios/pauli/pauli_context.h
@@ -151,8 +151,7 @@ namespace Moment {
             multiply(const OperatorSequence &lhs, const OperatorSequence &rhs) const final;
 
 
-            [[nodiscard]] RawPolynomial
-            multiply(const RawPolynomial &lhs, const RawPolynomial &rhs, double zero_tolerance = 1.0) const;
+            using Context::multiply; // Also allow products of RawPolynomials.
 
             /**
              * 1/2 [lhs, rhs] = (lhs * rhs - rhs * lhs)
-- 
2.43.0


From 8431ef94163da7c652008471b89c3d5404c89e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:10 +0000
Subject: [PATCH 70/73] fix: running out of memory while looking a word up in
 the symbol table ended the program

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 4 ++--
 cpp/lib_moment/symbolic/symbol_table.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 3912e07..efffd72 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -287,7 +287,7 @@ namespace Moment {
 
 
     SymbolLookupResult
-    SymbolTable::where(const OperatorSequence &seq) const noexcept {
+    SymbolTable::where(const OperatorSequence &seq) const {
         const size_t hash = this->context.hash(seq);
         auto [id, conj] = this->hash_to_index(hash);
         // Found normal.
@@ -317,7 +317,7 @@ namespace Moment {
     }
 
 
-    Monomial SymbolTable::to_symbol(const OperatorSequence &seq) const noexcept {
+    Monomial SymbolTable::to_symbol(const OperatorSequence &seq) const {
         size_t hash = this->context.hash(seq);
         auto [id, conj] = this->hash_to_index(hash);
         if (id == std::numeric_limits<ptrdiff_t>::max()) {
diff --git a/cpp/lib_moment/symbolic/symbol_table.h b/cpp/lib_moment/symbolic/symbol_table.h
index 10b7e0e..325915d 100644
--- a/cpp/lib_moment/symbolic/symbol_table.h
+++ b/cpp/lib_moment/symbolic/symbol_table.h
@@ -257,14 +257,14 @@ namespace Moment {
         * @param seq The sequence to match
         * @return Pointer to unique sequence element if matched, nullptr otherwise.
         */
-        [[nodiscard]] SymbolLookupResult where(const OperatorSequence& seq) const noexcept;
+        [[nodiscard]] SymbolLookupResult where(const OperatorSequence& seq) const;
 
         /**
          * Find symbol expression matching supplied operator sequence.
          * @param seq The sequence to match
          * @return The Monomial matching the sequence, or zero if not found.
          */
-        [[nodiscard]] Monomial to_symbol(const OperatorSequence& seq) const noexcept;
+        [[nodiscard]] Monomial to_symbol(const OperatorSequence& seq) const;
 
 
         /**
-- 
2.43.0


From 2aad491d9782071c61e35952e7ec02bd6fb894fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 71/73] fix: words that could not be made (operator out of
 range, or out of memory) ended the program

---
 cpp/lib_moment/dictionary/operator_sequence.cpp | 4 ++--
 cpp/lib_moment/dictionary/operator_sequence.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.cpp b/cpp/lib_moment/dictionary/operator_sequence.cpp
index c51557b..c55b6c2 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.cpp
+++ b/cpp/lib_moment/dictionary/operator_sequence.cpp
@@ -32,7 +32,7 @@ namespace Moment {
 
     OperatorSequence::OperatorSequence(sequence_storage_t operators,
                                        const Context &context,
-                                       const SequenceSignType sign_type) noexcept
+                                       const SequenceSignType sign_type)
         : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
         this->to_canonical_form();
     }
@@ -46,7 +46,7 @@ namespace Moment {
     }
 
 
-    void OperatorSequence::to_canonical_form() noexcept {
+    void OperatorSequence::to_canonical_form() {
         // Contextual simplifications
         bool simplify_to_zero = this->context->additional_simplification(this->operators, this->sign);
         if (simplify_to_zero) {
diff --git a/cpp/lib_moment/dictionary/operator_sequence.h b/cpp/lib_moment/dictionary/operator_sequence.h
index cb425eb..93e9d78 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.h
+++ b/cpp/lib_moment/dictionary/operator_sequence.h
@@ -56,7 +56,7 @@ namespace Moment {
          * @param sign_type Whether to interpret the sequence with +1, +i, -1, -i in front of it.
          */
         OperatorSequence(sequence_storage_t operators, const Context& context,
-                         SequenceSignType sign_type = SequenceSignType::Positive) noexcept;
+                         SequenceSignType sign_type = SequenceSignType::Positive);
 
         /**
          * Constructs a sequence of operators, with no further simplifications or rehashing.
@@ -233,7 +233,7 @@ namespace Moment {
         /**
          * Perform simplifications on the raw operator sequence, calling context if supplied.
          */
-        void to_canonical_form() noexcept;
+        void to_canonical_form();
 
 
 
-- 
2.43.0


From 14e2b3cf0aaf2d4a89ff8780d1e5969fb6a7f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:04 +0000
Subject: [PATCH 72/73] fix: sum with a monomial kept terms that are zero, and
 conjugates of Hermitian symbols as terms of their own

---
 .../symbolic/polynomial_factory.cpp           | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 1dd0772..47aa882 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -94,25 +94,18 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Monomial& lhs, const Monomial& rhs) const {
-        // "Monomial"-like sum
-        if ((lhs.id == rhs.id) && (lhs.conjugated == rhs.conjugated)) {
-            std::complex<double> factor = lhs.factor + rhs.factor;
-            if (approximately_zero(factor, this->zero_tolerance)) {
-                return Polynomial::Zero();
-            } else {
-                return Polynomial{Monomial{lhs.id, factor, lhs.conjugated}};
-            }
-        }
+        // Construct as (at most) two element sum, without zeros:
+        return (*this)(Polynomial::storage_t{lhs, rhs});
+    }
 
-        // Otherwise, construct as two element sum:
-        if (this->less(lhs, rhs)) {
-            return Polynomial{Polynomial::init_raw_tag{}, Polynomial::storage_t{lhs, rhs}};
-        } else {
-            return Polynomial{Polynomial::init_raw_tag{}, Polynomial::storage_t{rhs, lhs}};
+    Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& input_rhs) const {
+        // Put monomial into canonical form; if it is zero, then there is nothing to add.
+        const Polynomial canonical_rhs = (*this)(Polynomial::storage_t{input_rhs});
+        if (canonical_rhs.empty()) {
+            return lhs;
         }
-    }
+        const Monomial& rhs = canonical_rhs.back();
 
-    Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& rhs) const {
         Polynomial output;
         output.data.reserve(lhs.size()+1);
 
-- 
2.43.0


From 99f59ada8daf9888b96648646a43c7a1f6ee765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:17 +0000
Subject: [PATCH 73/73] fix: rule equating a sequence with another multiple of
 itself was kept, and rewrote the sequence for ever

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index ff5be91..b1e812d 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -61,6 +61,11 @@ namespace Moment::Algebraic {
             return 0;
         }
 
+        // If a sequence is equated with a different multiple of itself, then it is zero
+        if (rule.LHS().hash() == rule.RHS().hash()) {
+            return this->do_add_rule(OperatorRule{rule.LHS(), HashedSequence(true)}, logger);
+        }
+
         // Check if rule LHS already exists
         auto hashLHS = rule.rawLHS.hash();
         auto preexistingIter = this->monomialRules.find(hashLHS);
-- 
2.43.0

