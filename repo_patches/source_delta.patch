From baf075ed814a0ed12feff3737dfdebe5437e56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:17 +0000
Subject: [PATCH 01/53] fix: pad search results when fewer than the requested
 neighbors are found

The search buffer may hold fewer entries than the number of neighbors
requested (small or disconnected graphs, deleted entries). The remaining
result slots were filled with whatever the buffer's storage held before:
value-initialized entries (ID 0 at distance 0) or leftovers of a previous
query. Fill them with sentinel neighbors instead, as the flat index does.
---
 include/svs/extensions/vamana/leanvec.h   |  5 +----
 include/svs/index/inverted/clustering.h   |  4 ++++
 include/svs/index/inverted/memory_based.h |  4 +---
 include/svs/index/vamana/dynamic_index.h  |  4 ++++
 include/svs/index/vamana/extensions.h     | 27 +++++++++++++++++++----
 5 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/include/svs/extensions/vamana/leanvec.h b/include/svs/extensions/vamana/leanvec.h
index cb59d1e..4496198 100644
--- a/include/svs/extensions/vamana/leanvec.h
+++ b/include/svs/extensions/vamana/leanvec.h
@@ -152,7 +152,6 @@ void svs_invoke(
     threads::UnitRange<size_t> thread_indices,
     const Search& search
 ) {
-    size_t num_neighbors = result.n_neighbors();
     size_t batch_start = thread_indices.start();
 
     auto& [distance, distance_primary, distance_secondary] = scratch;
@@ -188,9 +187,7 @@ void svs_invoke(
         search_buffer.sort();
 
         // Copy back results.
-        for (size_t j = 0; j < num_neighbors; ++j) {
-            result.set(search_buffer[j], i, j);
-        }
+        svs::index::vamana::extensions::store_results(result, search_buffer, i);
     }
 }
 
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index d8b9018..32af497 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -706,6 +706,10 @@ void post_process_neighbors(
                     break;
                 }
                 auto centroid_local_id = indices.at(i, j);
+                // Fewer than the requested number of centroids were found.
+                if (centroid_local_id == std::numeric_limits<J>::max()) {
+                    break;
+                }
                 auto centroid_global_id = centroid_translator(centroid_local_id);
                 neighbor_buffer.push_back(
                     {centroid_global_id, distance, detail::LocalID{centroid_local_id}}
diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 6e5cf39..9814692 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -437,9 +437,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
                     }
 
                     // Store results
-                    for (size_t j = 0; j < num_neighbors; ++j) {
-                        results.set(buffer[j], i, j);
-                    }
+                    vamana::extensions::store_results(results, buffer, i);
                 }
             }
         );
diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e8b288e..44a8e9a 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -381,6 +381,10 @@ class MutableVamanaIndex {
             [&](const auto is, uint64_t /*tid*/) {
                 for (auto i : is) {
                     for (size_t j = 0, jmax = getsize<1>(ids); j < jmax; ++j) {
+                        // Entries for which no neighbor was found have no translation.
+                        if (ids.at(i, j) == std::numeric_limits<size_t>::max()) {
+                            continue;
+                        }
                         auto internal = lib::narrow_cast<Idx>(ids.at(i, j));
                         ids.at(i, j) = translate_internal_id(internal);
                     }
diff --git a/include/svs/index/vamana/extensions.h b/include/svs/index/vamana/extensions.h
index 647458e..4e343a5 100644
--- a/include/svs/index/vamana/extensions.h
+++ b/include/svs/index/vamana/extensions.h
@@ -493,6 +493,28 @@ struct VamanaPerThreadBatchSearchType {
 /// @brief Customization point object for batch search.
 inline constexpr VamanaPerThreadBatchSearchType per_thread_batch_search{};
 
+///
+/// @brief Copy the best neighbors held by ``search_buffer`` to the results for a query.
+///
+/// If the search found fewer than the number of neighbors requested, the remaining entries
+/// are filled with sentinel neighbors: the maximum value of the index type for the ID and
+/// the worst possible distance.
+///
+template <typename SearchBuffer, std::integral I>
+void store_results(
+    QueryResultView<I>& result, const SearchBuffer& search_buffer, size_t query_index
+) {
+    using compare_type = typename SearchBuffer::compare_type;
+    size_t num_neighbors = result.n_neighbors();
+    size_t num_found = std::min(num_neighbors, search_buffer.size());
+    for (size_t j = 0; j < num_found; ++j) {
+        result.set(search_buffer[j], query_index, j);
+    }
+    for (size_t j = num_found; j < num_neighbors; ++j) {
+        result.set(type_traits::sentinel_v<Neighbor<I>, compare_type>, query_index, j);
+    }
+}
+
 // Default Implementation
 template <
     typename Data,
@@ -512,15 +534,12 @@ void svs_invoke(
     const Search& search
 ) {
     // Fallback implementation
-    size_t num_neighbors = result.n_neighbors();
     for (auto i : thread_indices) {
         // Perform search - results will be queued in the search buffer.
         single_search(dataset, search_buffer, distance, queries.get_datum(i), search);
 
         // Copy back results.
-        for (size_t j = 0; j < num_neighbors; ++j) {
-            result.set(search_buffer[j], i, j);
-        }
+        store_results(result, search_buffer, i);
     }
 }
 
-- 
2.43.0


From fb57b176f40778fa3ebcc6729424449e196793d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 02/53] fix: clear the result of heuristic_prune_neighbors for
 an empty pool

An empty candidate pool returned before the output container was cleared,
so callers that reuse it (clustering, consolidation) saw the previous
vertex's neighbors.
---
 include/svs/index/vamana/prune.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index ee6b13d..0c6dee8 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -112,11 +112,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     if (poolsize == 0) {
@@ -188,11 +188,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<float> pruned(poolsize, type_traits::tombstone_v<float, decltype(cmp)>);
@@ -262,11 +262,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<bool> pruned(poolsize, false);
-- 
2.43.0


From 04766b37b4b5f55c0026bfd4b9f3871446ea5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 03/53] fix: keep the visited filter from reporting unseen IDs
 above 0xFFFF0000

The upper half of such an ID equals the sentinel for an empty slot, so an
empty filter claimed that they had been visited.
---
 include/svs/index/vamana/filter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/svs/index/vamana/filter.h b/include/svs/index/vamana/filter.h
index c947072..f822b15 100644
--- a/include/svs/index/vamana/filter.h
+++ b/include/svs/index/vamana/filter.h
@@ -79,7 +79,13 @@ template <size_t N> class VisitedFilter<uint32_t, N> {
     constexpr static size_t hash(integer_type key) { return key & hash_mask; }
 
     /// @brief Return ``true`` if the stored value original cam from the provided key.
+    ///
+    /// Keys whose stored value coincides with the sentinel are never reported as present.
     constexpr static bool check(integer_type key, value_type value) {
+        if (value == sentinel) {
+            return false;
+        }
+
         if constexpr (N >= 16) {
             // Make sure the upper-bits match.
             return (key >> 16) == value;
-- 
2.43.0


From eea65ecfd9be4b9d7d251b026f680dc47d5d1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 04/53] fix: use full-width positions in the mutable search
 buffer

Skipped (deleted) candidates do not count towards the capacity, so a
traversal of a large deleted region can hold more than 65535 entries. The
16-bit positions wrapped around, handing out wrong candidates or looping.
---
 include/svs/index/vamana/dynamic_search_buffer.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_search_buffer.h b/include/svs/index/vamana/dynamic_search_buffer.h
index 9b179bb..47185e0 100644
--- a/include/svs/index/vamana/dynamic_search_buffer.h
+++ b/include/svs/index/vamana/dynamic_search_buffer.h
@@ -75,9 +75,12 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
     // Equivalent to the `search_buffer_capacity_` in the traditional search buffer.
     uint16_t valid_capacity_ = 0;
     // Index of the best unvisited candidate.
-    uint16_t best_unvisited_ = 0;
+    //
+    // The number of skipped candidates is not limited by the configured capacity. Hence,
+    // positions in the buffer need a wider type than the number of valid candidates.
+    size_t best_unvisited_ = 0;
     // One past the "target_valid_"th entry.
-    uint16_t roi_end_ = 0;
+    size_t roi_end_ = 0;
     // number of valid neighbors.
     uint16_t valid_ = 0;
     // A buffer of candidates.
@@ -426,7 +429,7 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
         size_t i = pos - start;
         valid_ += static_cast<size_t>(neighbor.valid());
         unsafe_insert(neighbor, pos, i);
-        best_unvisited_ = std::min(best_unvisited_, lib::narrow_cast<uint16_t>(i));
+        best_unvisited_ = std::min(best_unvisited_, i);
         return i;
     }
 
-- 
2.43.0


From 94cbbec48b179e56ba44123cd523c18442163309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 05/53] fix: do not read before the start of an empty search
 buffer

SearchBuffer::can_skip looked at the last candidate before checking that
the buffer is full. Inserting into an empty buffer (as the cluster search
of the inverted index does) read the memory before its storage.
---
 include/svs/index/vamana/search_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 3a9b6cf..50f0bd7 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -296,7 +296,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
     /// returns ``true``.
     ///
     bool can_skip(float distance) const {
-        return compare_(back().distance(), distance) && full();
+        return full() && compare_(back().distance(), distance);
     }
 
     ///
-- 
2.43.0


From 236324e42b9dd425abc211febc33f6a800c3c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 06/53] fix: compare graphs with graphs_equal

graphs_equal called a member that no graph has, so it and the equality
operator of SimpleGraph could not be instantiated. It also compared an
adjacency list only with a prefix of the other one.
---
 include/svs/concepts/graph.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/concepts/graph.h b/include/svs/concepts/graph.h
index a139ce3..bcc7a1c 100644
--- a/include/svs/concepts/graph.h
+++ b/include/svs/concepts/graph.h
@@ -190,14 +190,14 @@ concept MemoryGraph = requires(T& g, const T& const_g) {
 ///
 template <ImmutableMemoryGraph Graph1, ImmutableMemoryGraph Graph2>
 bool graphs_equal(const Graph1& x, const Graph2& y) {
-    if (x.num_nodes() != y.num_nodes()) {
+    if (x.n_nodes() != y.n_nodes()) {
         return false;
     }
 
-    for (size_t i = 0, imax = x.num_nodes(); i < imax; ++i) {
+    for (size_t i = 0, imax = x.n_nodes(); i < imax; ++i) {
         const auto& xa = x.get_node(i);
         const auto& ya = y.get_node(i);
-        if (!std::equal(xa.begin(), xa.end(), ya.begin())) {
+        if (!std::equal(xa.begin(), xa.end(), ya.begin(), ya.end())) {
             return false;
         }
     }
-- 
2.43.0


From 0da5ca6ff7741cfa45d83f50cd54b6d638bdaa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 07/53] fix: portable half-precision conversions round like the
 hardware ones

---
 include/svs/lib/float16.h | 61 ++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/include/svs/lib/float16.h b/include/svs/lib/float16.h
index 31bfd9a..ae3e864 100644
--- a/include/svs/lib/float16.h
+++ b/include/svs/lib/float16.h
@@ -43,28 +43,55 @@ inline float bitcast_uint32_to_float(const uint32_t x) {
     return f;
 }
 
-// reference:
-// https://stackoverflow.com/questions/1659440/32-bit-to-16-bit-floating-point-conversion
+// Bit-level conversions for processors without hardware support.
+// These return exactly what the hardware instructions return.
 inline float float16_to_float_untyped_slow(const uint16_t x) {
-    // without norm/denorm (it makes code slow)
+    const uint32_t sign = static_cast<uint32_t>(x & 0x8000) << 16;
     const uint32_t e = (x & 0x7C00) >> 10; // exponent
-    const uint32_t m = (x & 0x03FF) << 13; // mantissa
-    return bitcast_uint32_to_float(
-        (x & 0x8000) << 16 | static_cast<uint32_t>(e != 0) * ((e + 112) << 23 | m)
-    );
+    const uint32_t m = (x & 0x03FF);       // mantissa
+    if (e == 0) {
+        // Zero and denormalized numbers: an exact multiple of 2^-24
+        const float magnitude = static_cast<float>(m) * (1.0f / 16777216.0f);
+        return bitcast_uint32_to_float(sign | bitcast_float_to_uint32(magnitude));
+    }
+    if (e == 31) {
+        // Infinity and (quieted) NaN
+        return bitcast_uint32_to_float(
+            sign | 0x7F800000 | (m << 13) | (static_cast<uint32_t>(m != 0) << 22)
+        );
+    }
+    return bitcast_uint32_to_float(sign | ((e + 112) << 23) | (m << 13));
 }
 
 inline uint16_t float_to_float16_untyped_slow(const float x) {
-    // round-to-nearest-even: add last bit after truncated mantissa
-    const uint32_t b = bitcast_float_to_uint32(x) + 0x00001000;
-    const uint32_t e = (b & 0x7F800000) >> 23; // exponent
-    const uint32_t m = b & 0x007FFFFF;         // mantissa
-    return (b & 0x80000000) >> 16 |
-           static_cast<uint32_t>(e > 112) * ((((e - 112) << 10) & 0x7C00) | m >> 13) |
-           static_cast<uint32_t>((e < 113) && (e > 101)) *
-               ((((0x007FF000 + m) >> (125 - e)) + 1) >> 1) |
-           static_cast<uint32_t>(e > 143) *
-               0x7FFF; // sign : normalized : denormalized : saturate
+    const uint32_t b = bitcast_float_to_uint32(x);
+    const uint32_t sign = (b & 0x80000000) >> 16;
+    const uint32_t a = b & 0x7FFFFFFF;
+    if (a > 0x7F800000) {
+        // NaN - quieted, keeping the leading bits of the payload.
+        return sign | 0x7E00 | ((a >> 13) & 0x03FF);
+    }
+    if (a >= 0x477FF000) {
+        // At least 65520: rounds to infinity
+        return sign | 0x7C00;
+    }
+    if (a >= 0x38800000) {
+        // Normalized: round to nearest, ties to even.
+        const uint32_t rebased = a - 0x38000000;
+        return sign | ((rebased + 0x0FFF + ((rebased >> 13) & 1)) >> 13);
+    }
+    if (a <= 0x33000000) {
+        // At most half of the smallest denormalized number
+        return sign;
+    }
+    // Denormalized: a multiple of 2^-24, rounded to nearest, ties to even.
+    const uint32_t shift = 126 - (a >> 23);
+    const uint32_t m = (a & 0x007FFFFF) | 0x00800000;
+    const uint32_t truncated = m >> shift;
+    const uint32_t remainder = m & ((uint32_t{1} << shift) - 1);
+    const uint32_t half = uint32_t{1} << (shift - 1);
+    const bool up = remainder > half || (remainder == half && (truncated & 1) != 0);
+    return sign | (truncated + static_cast<uint32_t>(up));
 }
 
 // If the processor is new enough, we can use hardware intrinsics to perform the conversion
-- 
2.43.0


From 44bae986b76f5461dc5a0b642aac64ab7f58d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 08/53] fix: detect out-of-range conversions between floating
 point and integers in narrow

---
 include/svs/lib/narrow.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/svs/lib/narrow.h b/include/svs/lib/narrow.h
index e0b81e0..b207fea 100644
--- a/include/svs/lib/narrow.h
+++ b/include/svs/lib/narrow.h
@@ -36,8 +36,10 @@
 
 #pragma once
 
+#include <concepts>
 #include <exception> // for std::exception
 #include <iostream>
+#include <limits>
 
 #include "svs/lib/preprocessor.h"
 #include "svs/lib/type_traits.h"
@@ -55,6 +57,14 @@ template <typename T, typename U> constexpr T narrow_cast(U&& u) noexcept {
 }
 
 namespace detail {
+// Return whether the integral part of `x` is representable in the integer type `I`.
+template <std::integral I> constexpr bool in_integral_range(double x) {
+    // One past the maximum of `I` is a power of two and thus exact.
+    constexpr double upper = 2.0 * static_cast<double>(std::numeric_limits<I>::max() / 2 + 1);
+    constexpr double lower = static_cast<double>(std::numeric_limits<I>::min());
+    return x >= lower && x < upper;
+}
+
 // Use the `SVS_CLANG_NOINLINE` attribute to avoid inlining this function if building
 // with clang in a non-debug context.
 //
@@ -70,7 +80,19 @@ template <class T, class U>
 SVS_CLANG_NOINLINE constexpr T narrow_impl(U u) noexcept(false) {
     static_assert(!std::is_same_v<T, std::remove_cv_t<U>>);
     constexpr bool is_different_signedness = (svs::is_signed_v<T> != svs::is_signed_v<U>);
+    // Converting a floating point number outside of the range of an integer is undefined
+    // (and saturates for some targets), so the comparison below cannot detect it.
+    if constexpr (std::is_integral_v<T> && !std::is_integral_v<U> && svs::is_arithmetic_v<U>) {
+        if (!in_integral_range<T>(static_cast<double>(u))) {
+            throw narrowing_error{};
+        }
+    }
     const T t = narrow_cast<T>(u);
+    if constexpr (!std::is_integral_v<T> && std::is_integral_v<U>) {
+        if (!in_integral_range<U>(static_cast<double>(t))) {
+            throw narrowing_error{};
+        }
+    }
 
     if (static_cast<U>(t) != u || (is_different_signedness && ((t < T{}) != (u < U{})))) {
         throw narrowing_error{};
-- 
2.43.0


From dddbc24a747fed084138fad0aec7ab59c4021589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 09/53] fix: refuse version strings with trailing characters

---
 include/svs/lib/version.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/version.h b/include/svs/lib/version.h
index 5da723f..e233648 100644
--- a/include/svs/lib/version.h
+++ b/include/svs/lib/version.h
@@ -52,7 +52,7 @@ namespace svs::lib {
 template <std::integral T> [[nodiscard]] T parse_int(std::string_view view) {
     auto value = T{0};
     auto result = std::from_chars(view.begin(), view.end(), value);
-    if (result.ec != std::errc()) {
+    if (result.ec != std::errc() || result.ptr != view.end()) {
         throw ANNEXCEPTION("Something went wrong with number parsing!");
     }
     return value;
-- 
2.43.0


From 6ee54470a6bbbf16a9c9f1d63224f426d85d12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 10/53] fix: draw random UUID bytes from the range of a byte

---
 include/svs/lib/uuid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/uuid.h b/include/svs/lib/uuid.h
index ff9a10a..2a076ad 100644
--- a/include/svs/lib/uuid.h
+++ b/include/svs/lib/uuid.h
@@ -103,7 +103,7 @@ class UUID {
     UUID() {
         std::random_device rd;
         std::mt19937 gen(rd());
-        std::uniform_int_distribution<> distribution(0, 256);
+        std::uniform_int_distribution<> distribution(0, 255);
         // The formatted string is always 36 characters long.
         for (size_t i = 0; i < num_bytes; i++) {
             uuid_[i] = distribution(gen);
-- 
2.43.0


From 9c00366c9971d9858ddf0b114550d1bb5349648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 11/53] fix: let narrow report values that a converting
 constructor refuses

---
 include/svs/lib/narrow.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/narrow.h b/include/svs/lib/narrow.h
index b207fea..1df9964 100644
--- a/include/svs/lib/narrow.h
+++ b/include/svs/lib/narrow.h
@@ -87,7 +87,8 @@ SVS_CLANG_NOINLINE constexpr T narrow_impl(U u) noexcept(false) {
             throw narrowing_error{};
         }
     }
-    const T t = narrow_cast<T>(u);
+    // A conversion may itself refuse the value, so do not use the `noexcept` cast.
+    const T t = static_cast<T>(u);
     if constexpr (!std::is_integral_v<T> && std::is_integral_v<U>) {
         if (!in_integral_range<U>(static_cast<double>(t))) {
             throw narrowing_error{};
-- 
2.43.0


From 6614b8c7f6b1828864434180f5494e2a8db3db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 12/53] fix: keep soft-deleted entries when compacting an
 unconsolidated index

---
 include/svs/index/vamana/dynamic_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 44a8e9a..d0f6e3a 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -666,7 +666,7 @@ class MutableVamanaIndex {
         auto indices = std::vector<Idx>();
         indices.reserve(size());
         for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
-            if (!is_deleted(i)) {
+            if (status_[i] != SlotMetadata::Empty) {
                 indices.push_back(i);
             }
         }
-- 
2.43.0


From ccc5dce43d51e82d38b4071d79a4fe39806db218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 13/53] fix: refuse points of the wrong dimensionality before
 changing a dynamic index

---
 include/svs/index/vamana/dynamic_index.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index d0f6e3a..23be545 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -550,6 +550,14 @@ class MutableVamanaIndex {
             );
         }
 
+        if (points.dimensions() != dimensions()) {
+            throw ANNEXCEPTION(
+                "Points to add have {} dimensions but the index has {}!",
+                points.dimensions(),
+                dimensions()
+            );
+        }
+
         // Gather all empty slots.
         std::vector<size_t> slots{};
         slots.reserve(num_points);
-- 
2.43.0


From 39cbbcc2ca6008bab8c356cd2a3e727cf141e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 14/53] fix: refuse to delete an id twice in one request before
 changing anything

---
 include/svs/index/vamana/dynamic_index.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 23be545..498929d 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -627,6 +627,9 @@ class MutableVamanaIndex {
     ///
     /// Pre-conditions:
     /// * All indices present in `ids` belong to valid slots.
+    /// * All indices present in `ids` are unique.
+    ///
+    /// An exception is thrown and the index is left unmodified if these do not hold.
     ///
     /// Post-conditions:
     /// * Deleted slots will not be returned in future calls `search`.
@@ -646,6 +649,9 @@ class MutableVamanaIndex {
     ///
     template <typename T> void delete_entries(const T& ids) {
         translator_.check_external_exist(ids.begin(), ids.end());
+        if (!lib::all_unique(ids.begin(), ids.end())) {
+            throw ANNEXCEPTION("External IDs to delete contain repeat elements!");
+        }
         for (auto i : ids) {
             delete_entry(translator_.get_internal(i));
         }
-- 
2.43.0


From ea2780d18ad7fa6f405b8ed7f894da22ddcca069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 15/53] fix: keep a dynamic index usable when all of its
 entries have been removed

---
 include/svs/index/vamana/dynamic_index.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 498929d..1a57157 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -410,6 +410,12 @@ class MutableVamanaIndex {
         return [&, prefetch_parameters](
                    const auto& query, auto& accessor, auto& distance, auto& buffer
                ) {
+            // There is nothing to find (and nowhere to start from) in an empty index.
+            if (size() == 0) {
+                buffer.clear();
+                return;
+            }
+
             // Perform the greedy search using the provided resources.
             greedy_search(
                 graph_,
@@ -600,6 +606,12 @@ class MutableVamanaIndex {
         copy_points(points, slots);
         clear_lists(slots);
 
+        // If all previous entries have been removed, then the entry point does not refer to
+        // an entry anymore. Begin with one of the new points.
+        if (!slots.empty() && status_.at(entry_point()) == SlotMetadata::Empty) {
+            entry_point_[0] = lib::narrow_cast<Idx>(slots.front());
+        }
+
         // Patch in the new neighbors.
         auto parameters = VamanaBuildParameters{
             alpha_,
@@ -788,8 +800,9 @@ class MutableVamanaIndex {
         status_.resize(max_index);
 
         // Update entry points.
+        // The entry point of an empty index is reassigned when points are added.
         for (auto& ep : entry_point_) {
-            ep = old_to_new_id_map.at(ep);
+            ep = old_to_new_id_map.empty() ? Idx{0} : old_to_new_id_map.at(ep);
         }
     }
 
@@ -837,7 +850,7 @@ class MutableVamanaIndex {
         // If so - we need to pick a new one.
         assert(entry_point_.size() == 1);
         auto entry_point = entry_point_[0];
-        if (status_.at(entry_point) == SlotMetadata::Deleted) {
+        if (size() != 0 && status_.at(entry_point) == SlotMetadata::Deleted) {
             auto logger = svs::logging::get();
             svs::logging::debug(logger, "Replacing entry point.");
             auto new_entry_point =
-- 
2.43.0


From bf07c80d12e5a499f7cd3d58cba35b4d361656a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 16/53] fix: reload an empty id translator

---
 include/svs/core/translation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index c1c7efb..2b79ed6 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -357,6 +357,10 @@ class IDTranslator {
         // the points.
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
+        // The file of an empty translator is empty and cannot be opened for reading.
+        if (num_points == 0) {
+            return translator;
+        }
         auto resolved = table.resolve_at("filename");
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
-- 
2.43.0


From ca8b616c7900f9d7608ee06d3be606c2174b04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 17/53] fix: refuse damaged id translation files

---
 include/svs/core/translation.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 2b79ed6..17db36e 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -366,8 +366,22 @@ class IDTranslator {
         for (size_t i = 0; i < num_points; ++i) {
             auto external_id = lib::read_binary<external_id_type>(stream);
             auto internal_id = lib::read_binary<internal_id_type>(stream);
+            if (!stream) {
+                throw ANNEXCEPTION(
+                    "ID translation file {} has fewer than {} entries!", resolved, num_points
+                );
+            }
+            if (translator.has_external(external_id) ||
+                translator.has_internal(internal_id)) {
+                throw ANNEXCEPTION("ID translation file {} repeats an ID!", resolved);
+            }
             translator.insert_translation(external_id, internal_id);
         }
+        if (stream.peek() != std::ifstream::traits_type::eof()) {
+            throw ANNEXCEPTION(
+                "ID translation file {} has more than {} entries!", resolved, num_points
+            );
+        }
         return translator;
     }
 
-- 
2.43.0


From 4c06ee0c5856626c720a615f63a3d446ad1c3b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 18/53] fix: do not claim a slot when adding no points

---
 include/svs/index/vamana/dynamic_index.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 1a57157..43e385c 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -568,15 +568,12 @@ class MutableVamanaIndex {
         std::vector<size_t> slots{};
         slots.reserve(num_points);
 
-        bool have_room = false;
-        for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
+        bool have_room = (num_points == 0);
+        for (size_t i = 0, imax = status_.size(); i < imax && !have_room; ++i) {
             if (status_[i] == SlotMetadata::Empty) {
                 slots.push_back(i);
             }
-            if (slots.size() == num_points) {
-                have_room = true;
-                break;
-            }
+            have_room = (slots.size() == num_points);
         }
 
         // Check if we have enough indices. If we don't, we need to resize the data and
-- 
2.43.0


From 773aeea8a481b97b5685f309ff649073b1e83200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 19/53] fix: train k-means on existing vectors only and refuse
 more clusters than vectors

---
 include/svs/core/kmeans.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index cfe02f5..b6b6463 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -147,11 +147,20 @@ data::SimpleData<float> train_impl(
 ) {
     size_t ndims = data.dimensions();
     auto num_clusters = parameters.clusters;
+    if (num_clusters > data.size()) {
+        throw ANNEXCEPTION(
+            "Cannot train {} clusters on a dataset with {} elements!",
+            num_clusters,
+            data.size()
+        );
+    }
 
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
     auto rng = std::mt19937_64(parameters.seed);
-    auto distribution = std::uniform_int_distribution<size_t>(0, data.size());
+    // N.B.: The bounds of the distribution are inclusive.
+    auto distribution =
+        std::uniform_int_distribution<size_t>(0, data.size() == 0 ? 0 : data.size() - 1);
     std::unordered_set<size_t> seen{};
     for (size_t i = 0; i < num_clusters; ++i) {
         // Pick a vector a random.
-- 
2.43.0


From 606308c9be814d3665a1243b5f5f1507b0e77b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 20/53] fix: always examine the clusters of the nearest
 centroids in an inverted search

---
 include/svs/index/inverted/memory_based.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 9814692..9691eb3 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -412,7 +412,8 @@ template <typename Index, typename Cluster> class InvertedIndex {
 
                     for (size_t j = 0, jmax = scratch_buffer.size(); j < jmax; ++j) {
                         auto candidate = scratch_buffer[j];
-                        if (!compare(candidate.distance(), cutoff_distance)) {
+                        // The nearest centroids lie on the cutoff if it is tight.
+                        if (compare(cutoff_distance, candidate.distance())) {
                             break;
                         }
 
-- 
2.43.0


From d9d9849f92674685f6be1db488fb0050cd229961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 21/53] fix: honour the primary search parameters given to an
 inverted search

---
 include/svs/index/inverted/memory_based.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 9691eb3..9b7aad2 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -385,7 +385,8 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 size_t num_neighbors = results.n_neighbors();
 
                 // Allocate scratch space to use the externally threaded
-                auto scratch = index_.scratchspace();
+                auto scratch =
+                    index_.scratchspace(search_parameters.primary_parameters_);
                 if (scratch.buffer.capacity() == 0) {
                     scratch.buffer.change_maxsize(1);
                 }
-- 
2.43.0


From 2c10fda318fbf5a34c97418ea7d06153a831565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 22/53] fix: compute the cutoff of an inverted search for
 negative inner products

---
 include/svs/index/inverted/common.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/inverted/common.h b/include/svs/index/inverted/common.h
index 2e64dde..5e181a3 100644
--- a/include/svs/index/inverted/common.h
+++ b/include/svs/index/inverted/common.h
@@ -35,9 +35,8 @@ template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceL2)
 }
 
 template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceIP) {
-    // TODO: What do we do if the best match is simply bad?
-    assert(nearest > 0.0f);
-    return nearest / (1 + epsilon);
+    // If even the best match is bad, dividing would tighten the bound instead.
+    return nearest < 0 ? nearest * (1 + epsilon) : nearest / (1 + epsilon);
 }
 
 } // namespace svs::index::inverted
-- 
2.43.0


From 8b66d28448857e0552f9b7273acfecf99f78593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 23/53] fix: refuse to build a graph index over an empty
 dataset

---
 include/svs/index/vamana/index.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/svs/index/vamana/index.h b/include/svs/index/vamana/index.h
index 4ef1850..7909375 100644
--- a/include/svs/index/vamana/index.h
+++ b/include/svs/index/vamana/index.h
@@ -806,6 +806,10 @@ auto auto_build(
 ) {
     auto threadpool = threads::as_threadpool(std::move(threadpool_proto));
     auto data = svs::detail::dispatch_load(std::move(data_proto), threadpool);
+    // There is no entry point to an empty graph.
+    if (data.size() == 0) {
+        throw ANNEXCEPTION("Cannot build a Vamana index over an empty dataset!");
+    }
     auto entry_point = extensions::compute_entry_point(data, threadpool);
 
     // Default graph.
-- 
2.43.0


From 714ce72068b1bf0abf232cf0e2fb7d9653f79646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 24/53] fix: let a dynamic index start empty

---
 include/svs/index/vamana/dynamic_index.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 43e385c..5157cb8 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -215,7 +215,10 @@ class MutableVamanaIndex {
         translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
 
         // Compute the entry point.
-        entry_point_.push_back(extensions::compute_entry_point(data_, threadpool_));
+        // The entry point of an empty index is reassigned when points are added.
+        entry_point_.push_back(
+            data_.size() == 0 ? 0 : extensions::compute_entry_point(data_, threadpool_)
+        );
 
         // Perform graph construction.
         auto sp = get_search_parameters();
-- 
2.43.0


From 935e1ef530c0dd992b7d541247bbf501f63b6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 25/53] fix: return a value from the copy assignment of
 ReadWriteProtected

---
 include/svs/lib/concurrency/readwrite_protected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/lib/concurrency/readwrite_protected.h b/include/svs/lib/concurrency/readwrite_protected.h
index 01c0423..5b3f56b 100644
--- a/include/svs/lib/concurrency/readwrite_protected.h
+++ b/include/svs/lib/concurrency/readwrite_protected.h
@@ -56,6 +56,7 @@ template <typename T> class ReadWriteProtected {
             return *this;
         }
         set(other.get());
+        return *this;
     }
 
     /// @brief Move construction by move-assigning the shared object.
-- 
2.43.0


From 79e01bbc73d8016905f042972ad069871f692012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 26/53] fix: let a thread pool of zero threads be the main
 thread only

---
 include/svs/lib/threads/threadpool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 05399b8..e54f0a4 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -134,8 +134,8 @@ template <typename Builder> class NativeThreadPoolBase {
     template <typename... Args>
     explicit NativeThreadPoolBase(uint64_t num_threads = 1, Args&&... args)
         : builder_{std::forward<Args>(args)...} {
-        for (size_t tid = 0; tid < num_threads - 1; ++tid) {
-            threads_.push_back(builder_.build(tid + 1));
+        for (size_t tid = 1; tid < num_threads; ++tid) {
+            threads_.push_back(builder_.build(tid));
         }
     }
 
-- 
2.43.0


From 8780cb337dddb2add10c5050d83e35721981938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 27/53] fix: wait for and restart threads after exceptions of
 any type

---
 include/svs/lib/threads/threadpool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index e54f0a4..05b5851 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -162,7 +162,9 @@ template <typename Builder> class NativeThreadPoolBase {
         // Run on the main function.
         try {
             f(0);
-        } catch (const std::exception& error) { manage_exception_during_run(error.what()); }
+        } catch (const std::exception& error) {
+            manage_exception_during_run(error.what());
+        } catch (...) { manage_exception_during_run("Unknown exception"); }
 
         // Wait until all threads are done.
         // If any thread fails, then we're throwing.
@@ -192,6 +194,8 @@ template <typename Builder> class NativeThreadPoolBase {
                     thread.unsafe_get_exception();
                 } catch (const std::exception& error) {
                     fmt::format_to(inserter, "Thread {}: {}\n", i + 1, error.what());
+                } catch (...) {
+                    fmt::format_to(inserter, "Thread {}: Unknown exception\n", i + 1);
                 }
                 // Restart the thread.
                 threads_[i].shutdown();
-- 
2.43.0


From d77701f3ccd58fd5bddd351033a6c0f1359713e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 28/53] fix: run dynamic partitions of any grain size exactly
 once

---
 include/svs/lib/threads/thunks.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/thunks.h b/include/svs/lib/threads/thunks.h
index f3b94a5..cc15c6f 100644
--- a/include/svs/lib/threads/thunks.h
+++ b/include/svs/lib/threads/thunks.h
@@ -101,8 +101,12 @@ template <typename F, typename I> struct Thunk<F, StaticPartition<I>> {
 template <typename F, typename I> struct Thunk<F, DynamicPartition<I>> {
     static auto wrap(ThreadCount SVS_UNUSED(nthreads), F& f, DynamicPartition<I> space) {
         return [&f, space, count = std::atomic<uint64_t>(0)](uint64_t tid) mutable {
-            size_t grainsize = space.grainsize;
+            // Keep the grain size between 1 and the size of the space so that the loop makes
+            // progress and the products below do not overflow.
             size_t iterator_size = space.size();
+            size_t grainsize = std::max<size_t>(
+                std::min<size_t>(space.grainsize, iterator_size), 1
+            );
             for (;;) {
                 uint64_t i = count.fetch_add(1, std::memory_order_relaxed);
                 auto start = grainsize * i;
-- 
2.43.0


From a539bc2135776493d5bc74930c273aa369a91fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 29/53] fix: empty unit ranges contain nothing

---
 include/svs/lib/threads/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/threads/types.h b/include/svs/lib/threads/types.h
index a743558..2f39dc2 100644
--- a/include/svs/lib/threads/types.h
+++ b/include/svs/lib/threads/types.h
@@ -258,9 +258,9 @@ class UnitRange {
     }
 
     ///
-    /// Return `true` if the value `i` is in `[front(), back()]`. Otherwise, return `false`.
+    /// Return `true` if the value `i` is in the range. Otherwise, return `false`.
     ///
-    bool contains(const T& i) const { return front() <= i && i <= back(); }
+    bool contains(const T& i) const { return start_ <= i && i < stop_; }
 
     ///
     /// Return a unit range over the valid indices of the current range.
-- 
2.43.0


From c9f04a70adc854536c027a83f2e2c2f74b0614fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 30/53] fix: free aligned allocations with the size they were
 made with

---
 include/svs/lib/threads/threadlocal.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/svs/lib/threads/threadlocal.h b/include/svs/lib/threads/threadlocal.h
index 5572769..66f73ac 100644
--- a/include/svs/lib/threads/threadlocal.h
+++ b/include/svs/lib/threads/threadlocal.h
@@ -72,12 +72,17 @@ template <typename T, size_t Alignment = CACHE_LINE_BYTES> struct AlignedAllocat
 
     // Methods
     value_type* allocate(size_t count) {
-        size_t bytes = alignment * lib::div_round_up(sizeof(T) * count, alignment);
-        return static_cast<value_type*>(::operator new(bytes, std::align_val_t{alignment}));
+        return static_cast<value_type*>(
+            ::operator new(allocation_size(count), std::align_val_t{alignment})
+        );
     }
 
     void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count, std::align_val_t{alignment});
+        ::operator delete(ptr, allocation_size(count), std::align_val_t{alignment});
+    }
+
+    static constexpr size_t allocation_size(size_t count) {
+        return alignment * lib::div_round_up(sizeof(T) * count, alignment);
     }
 };
 
-- 
2.43.0


From a416e9567253eaae15b51ee3ce1f64cf20a523f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:20 +0000
Subject: [PATCH 31/53] fix: free the memory of an allocator with the size and
 alignment it was made with

---
 include/svs/lib/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/memory.h b/include/svs/lib/memory.h
index 57c7348..c03a0d3 100644
--- a/include/svs/lib/memory.h
+++ b/include/svs/lib/memory.h
@@ -56,7 +56,7 @@ template <typename T> struct Allocator {
     }
 
     constexpr void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count);
+        ::operator delete(ptr, count * sizeof(T), std::align_val_t(alignof(T)));
     }
 
     // Intercept zero-argument construction to do default initialization.
-- 
2.43.0


From 53e44710a4a6fd0ab19a44cbd2c7e44f0686006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 32/53] fix: refuse to read past the end of a binary file

Short reads left the destination unspecified and were not reported. Files too
short for a magic number are of an unrecognized kind, as documented.
---
 include/svs/core/io/native.h |  5 +++++
 include/svs/lib/readwrite.h  | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 230593b..fc10c3e 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -594,6 +594,11 @@ inline std::optional<FileSchema> from_magic_number(uint64_t magic) {
 /// @returns The schema of the file if it is recognized. An empty optional otherwise.
 ///
 inline std::optional<FileSchema> classify(const std::filesystem::path& path) {
+    // Files that cannot hold a magic number are not recognized.
+    if (std::filesystem::is_regular_file(path) &&
+        std::filesystem::file_size(path) < sizeof(uint64_t)) {
+        return std::nullopt;
+    }
     return from_magic_number(get_magic_number(path));
 }
 
diff --git a/include/svs/lib/readwrite.h b/include/svs/lib/readwrite.h
index 320535c..e8c187a 100644
--- a/include/svs/lib/readwrite.h
+++ b/include/svs/lib/readwrite.h
@@ -11,6 +11,8 @@
 
 #pragma once
 
+#include "svs/lib/exception.h"
+
 #include <span>
 #include <type_traits>
 #include <vector>
@@ -22,12 +24,22 @@ namespace lib {
 ///// Reading Binary Objects
 /////
 
+namespace detail {
+// Reading past the end of a file leaves the destination in an unspecified state.
+template <typename Stream> void check_read(const Stream& stream) {
+    if (!stream) {
+        throw ANNEXCEPTION("Unexpected end of file while reading binary data!");
+    }
+}
+} // namespace detail
+
 // Partial specialization entry points.
 template <typename Stream, typename T> struct BinaryReader {
     static void call(Stream& stream, T& x) {
         static_assert(std::is_trivially_copyable_v<T>);
         using char_type = typename Stream::char_type;
         stream.read(reinterpret_cast<char_type*>(&x), sizeof(T));
+        detail::check_read(stream);
     }
 };
 
@@ -37,6 +49,7 @@ struct BinaryReader<Stream, std::vector<T, Alloc>> {
         static_assert(std::is_trivially_copyable_v<T>);
         using char_type = typename Stream::char_type;
         stream.read(reinterpret_cast<char_type*>(x.data()), sizeof(T) * x.size());
+        detail::check_read(stream);
     }
 };
 
-- 
2.43.0


From ee2aee803938e427e86084924819f2ddab4aa339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 33/53] fix: refuse binary files whose size disagrees with
 their contents

Native files checked neither the magic number nor the size, DiskANN files
without elements divided by zero, the element size of a Vecs file was not
found when an smaller size fit almost all of it, rows of another length in a
Vecs file, too many or too few clusters, and binary blobs of another length were
accepted.
---
 include/svs/core/io/binary.h            | 14 ++++++-
 include/svs/core/io/native.h            | 49 +++++++++++++++++++++++--
 include/svs/core/io/vecs.h              | 15 +++++++-
 include/svs/index/inverted/clustering.h | 20 +++++++++-
 include/svs/lib/saveload/bootstrap.h    | 15 +++++++-
 5 files changed, 104 insertions(+), 9 deletions(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index d3ea7bd..c05ac61 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -51,12 +51,24 @@ get_dims(std::ifstream& stream, std::string_view source = {}, size_t elsize_hint
     size_t filesize_minus_header = filesize - sizeof(header);
     size_t n_vec_elements =
         lib::narrow<size_t>(header.num_vectors) * lib::narrow<size_t>(header.vector_dim);
+    // A file without vectors says nothing about the size of its elements.
+    if (header.num_vectors == 0 && filesize_minus_header == 0) {
+        return std::make_pair(header.num_vectors, header.vector_dim);
+    }
+    if (n_vec_elements == 0) {
+        throw ANNEXCEPTION(
+            "Binary file {} does not hold {} vectors with {} dimensions.",
+            source.empty() ? "(unknown)"sv : source,
+            header.num_vectors,
+            header.vector_dim
+        );
+    }
     size_t remainder = filesize_minus_header % n_vec_elements;
     size_t deduced_elsize = filesize_minus_header / n_vec_elements;
 
     bool elsize_match = elsize_hint == 0 ? true : elsize_hint == deduced_elsize;
 
-    if (remainder != 0 || !elsize_match) {
+    if (remainder != 0 || deduced_elsize == 0 || !elsize_match) {
         throw ANNEXCEPTION(
             "Cannot read elements of size {} from Binary file {}.",
             elsize_hint == 0 ? deduced_elsize : elsize_hint,
diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index fc10c3e..ab21da1 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -116,11 +116,52 @@ template <typename T> inline T read_header(const std::filesystem::path& path) {
     return lib::read_binary<T>(stream);
 }
 
+/// @brief Return the number of bytes following a header of type ``T``.
+template <typename T> inline size_t payload_size(std::ifstream& stream) {
+    stream.seekg(0, std::ifstream::end);
+    size_t filesize = stream.tellg();
+    stream.seekg(0, std::ifstream::beg);
+    return filesize - std::min(filesize, sizeof(T));
+}
+
 template <typename T> inline std::pair<size_t, size_t> get_dims(std::ifstream& stream) {
     stream.seekg(0, std::ifstream::beg);
     auto header = lib::read_binary<T>(stream);
-    stream.seekg(0, std::ifstream::beg);
-    return std::make_pair(header.num_vectors_, header.dimensions_per_vector_);
+    if (header.magic_ != T().magic_) {
+        throw ANNEXCEPTION("Unexpected magic number {} in a native file!", header.magic_);
+    }
+
+    // Each element of each vector takes at least one byte.
+    size_t num_vectors = header.num_vectors_;
+    size_t dims = header.dimensions_per_vector_;
+    size_t bytes = payload_size<T>(stream);
+    bool fits = dims == 0 ? num_vectors == 0 : num_vectors <= bytes / dims;
+    if (!fits) {
+        throw ANNEXCEPTION(
+            "A native file of {} bytes cannot hold {} vectors with {} dimensions!",
+            bytes,
+            num_vectors,
+            dims
+        );
+    }
+    return std::make_pair(num_vectors, dims);
+}
+
+/// @brief Get the dimensions of a file whose elements all have the given size.
+template <typename T>
+inline std::pair<size_t, size_t> get_dims(std::ifstream& stream, size_t element_size) {
+    auto dims = get_dims<T>(stream);
+    size_t bytes = payload_size<T>(stream);
+    size_t elements = dims.first * dims.second;
+    if (bytes % element_size != 0 || bytes / element_size != elements) {
+        throw ANNEXCEPTION(
+            "A native file of {} bytes does not hold {} elements of size {}!",
+            bytes,
+            elements,
+            element_size
+        );
+    }
+    return dims;
 }
 
 template <typename T>
@@ -278,7 +319,7 @@ class NativeFile {
     template <typename T>
     Reader<T> reader(lib::Type<T> SVS_UNUSED(type), size_t max_lines = Dynamic) const {
         std::ifstream stream = lib::open_read(path_);
-        auto dims = detail::get_dims<Header>(stream);
+        auto dims = detail::get_dims<Header>(stream, sizeof(T));
         auto nvectors = std::min(dims.first, max_lines);
         auto ndims = dims.second;
         return Reader<T>(std::move(stream), nvectors, ndims, sizeof(Header));
@@ -437,7 +478,7 @@ class NativeFile {
     template <typename T>
     Reader<T> reader(lib::Type<T> SVS_UNUSED(type), size_t max_lines = Dynamic) const {
         std::ifstream stream = lib::open_read(path_);
-        auto dims = detail::get_dims<Header>(stream);
+        auto dims = detail::get_dims<Header>(stream, sizeof(T));
         auto nvectors = std::min(dims.first, max_lines);
         auto ndims = dims.second;
         return Reader<T>(std::move(stream), nvectors, ndims, sizeof(Header));
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 85a13f3..b3c509e 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -54,6 +54,10 @@ inline size_t deduce_element_size(std::ifstream& stream, size_t dims, size_t fil
     // First, find the element size that gives the correct dims of second vector,
     // and then, confirm that we get the same dimension for a few more vectors.
     for (size_t elsize : ALLOWED_ELEMENT_SIZES) {
+        // The file must consist of whole vectors.
+        if (filesize % (sizeof(length_t) + elsize * dims) != 0) {
+            continue;
+        }
         size_t offset = sizeof(length_t) + elsize * dims;
         if (is_last_vec(offset)) {
             return offset == filesize ? elsize : 0;
@@ -165,7 +169,16 @@ template <typename T> class VecsReader {
         auto value_reader = lib::ValueReader<length_t>();
         auto vector_reader = lib::VectorReader<T>(ndims());
         return lib::heterogeneous_iterator(
-            [](auto&& /*unused*/, auto&& span) { return span; },
+            [](length_t length, auto&& span) {
+                if (length != span.size()) {
+                    throw ANNEXCEPTION(
+                        "Vecs file has a vector of length {} instead of {}!",
+                        length,
+                        span.size()
+                    );
+                }
+                return span;
+            },
             stream_,
             vectors_to_read(),
             value_reader,
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index 32af497..781ae85 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -233,8 +233,14 @@ template <std::integral I> struct Cluster {
         I centroid = lib::read_binary<I>(stream);
         size_t size = lib::read_binary<size_t>(stream);
         Cluster cluster(centroid);
-        cluster.elements_.resize(size);
-        lib::read_binary(stream, cluster.elements_);
+        // Read in steps: a damaged size reaches the end of the stream before it exhausts
+        // the memory.
+        constexpr size_t step = 65536;
+        while (cluster.size() < size) {
+            auto block = std::vector<Neighbor<I>>(std::min(step, size - cluster.size()));
+            lib::read_binary(stream, block);
+            cluster.elements_.insert(cluster.end(), block.begin(), block.end());
+        }
         return cluster;
     }
 
@@ -613,10 +619,20 @@ template <std::integral I> class Clustering {
                 );
             }
 
+            // The file of an empty clustering is empty and cannot be opened for reading.
+            if (num_clusters == 0 && actual_filesize == 0) {
+                return clustering;
+            }
+
             auto io = lib::open_read(file);
             for (size_t i = 0; i < num_clusters; ++i) {
                 clustering.insert(Cluster<I>::deserialize(io));
             }
+            if (io.peek() != std::istream::traits_type::eof()) {
+                throw ANNEXCEPTION(
+                    "Cluster file {} has more than {} clusters!", file, num_clusters
+                );
+            }
         }
         return clustering;
     }
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index 5a065a1..8594268 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -310,8 +310,21 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
         auto filename =
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
+        // Check the size before allocating memory for the elements.
+        size_t filesize = std::filesystem::file_size(filename);
+        if (filesize % sizeof(T) != 0 || filesize / sizeof(T) != num_elements) {
+            throw ANNEXCEPTION(
+                "File {} of {} bytes does not hold {} elements of size {}.",
+                filename,
+                filesize,
+                num_elements,
+                sizeof(T)
+            );
+        }
+
         auto loader = BinaryBlobLoader(num_elements, allocator);
-        {
+        // The file of an empty blob is empty and cannot be opened for reading.
+        if (num_elements != 0) {
             auto istream = lib::open_read(filename);
             lib::read_binary(istream, loader.data_);
         }
-- 
2.43.0


From 268d348862c1b920e6e14764431d9302fdda92ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 34/53] fix: let save_vecs compile

---
 include/svs/core/data/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 54ee777..51f2e07 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -124,7 +124,7 @@ void save(const Dataset& data, const File& file, const lib::UUID& uuid = lib::Ze
 template <data::ImmutableMemoryDataset Dataset>
 void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     auto file = vecs::VecsFile{path};
-    auto writer = file.writer(data.dimensionsions());
+    auto writer = file.writer(data.dimensions());
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
-- 
2.43.0


From 57294d8a0813646e7512721b9fe9146355d3e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 35/53] fix: report data that could not be written when saving

A full disk or a file that cannot be opened went unnoticed until the attempt to
load what had not been saved.
---
 include/svs/core/data/io.h              |  3 +++
 include/svs/core/io/binary.h            |  2 +-
 include/svs/core/io/native.h            |  7 +++++--
 include/svs/core/io/vecs.h              |  2 +-
 include/svs/core/query_result.h         |  1 +
 include/svs/core/translation.h          |  1 +
 include/svs/index/inverted/clustering.h |  1 +
 include/svs/lib/readwrite.h             | 10 ++++++++++
 include/svs/lib/saveload/bootstrap.h    |  1 +
 include/svs/lib/saveload/save.h         |  1 +
 10 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 51f2e07..bbb848b 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -107,6 +107,8 @@ void save(
     for (size_t i = 0; i < data.size(); ++i) {
         writer << accessor.get(data, i);
     }
+    writer.writeheader();
+    writer.flush();
 }
 
 template <data::ImmutableMemoryDataset Dataset, typename File>
@@ -128,6 +130,7 @@ void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
+    writer.flush();
 }
 
 /////
diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index c05ac61..36fbcee 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -163,7 +163,7 @@ template <typename T = void> class BinaryWriter {
 
     template <typename U> BinaryWriter& operator<<(U&& v) { return append(v); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::flush_checked(stream_); }
 
   private:
     Header header_;
diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index ab21da1..24db9d9 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -417,13 +417,16 @@ template <typename T = void> class Writer {
 
     template <typename U> Writer& operator<<(U&& v) { return append(std::forward<U>(v)); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::flush_checked(stream_); }
 
     void writeheader(bool resume = true) {
+        // Failed writes are reported by `flush`.
+        if (!stream_.good()) {
+            return;
+        }
         auto position = stream_.tellp();
         // Write to the header the number of vectors actually written.
         stream_.seekp(0);
-        assert(stream_.good());
         lib::write_binary(stream_, Header(vectors_written_, dimension_, uuid_));
         if (resume) {
             stream_.seekp(position, std::ofstream::beg);
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index b3c509e..fdc32f0 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -223,7 +223,7 @@ template <typename T = void> class VecsWriter {
 
     template <typename U> VecsWriter& operator<<(U&& v) { return append(v); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::flush_checked(stream_); }
 
   private:
     size_t dimension_;
diff --git a/include/svs/core/query_result.h b/include/svs/core/query_result.h
index 745d0cf..2c3f76d 100644
--- a/include/svs/core/query_result.h
+++ b/include/svs/core/query_result.h
@@ -27,6 +27,7 @@ void save_vecs(DenseArray<I, Dims, Base>& matrix, const std::string& filename) {
     for (size_t i = 0; i < getsize<0>(matrix); ++i) {
         writer << matrix.slice(i);
     }
+    writer.flush();
 }
 } // namespace detail
 
diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 17db36e..2572edb 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -328,6 +328,7 @@ class IDTranslator {
             lib::write_binary(stream, i->first);
             lib::write_binary(stream, i->second);
         }
+        lib::flush_checked(stream);
         return lib::SaveTable(
             serialization_schema,
             save_version,
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index 781ae85..9314431 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -581,6 +581,7 @@ template <std::integral I> class Clustering {
             for (auto& cluster : *this) {
                 filesize += cluster.second.serialize(io);
             }
+            lib::flush_checked(io);
         }
 
         return lib::SaveTable(
diff --git a/include/svs/lib/readwrite.h b/include/svs/lib/readwrite.h
index e8c187a..d7b2e63 100644
--- a/include/svs/lib/readwrite.h
+++ b/include/svs/lib/readwrite.h
@@ -147,5 +147,15 @@ struct BinaryWriter<Stream, std::vector<T, Allocator>> {
 template <typename T, typename Stream> size_t write_binary(Stream& stream, const T& val) {
     return BinaryWriter<Stream, T>::call(stream, val);
 }
+
+///
+/// @brief Flush the stream and throw an exception if anything could not be written.
+///
+template <typename Stream> void flush_checked(Stream& stream) {
+    stream.flush();
+    if (!stream) {
+        throw ANNEXCEPTION("Could not write all data to a file!");
+    }
+}
 } // namespace lib
 } // namespace svs
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index 8594268..c5c810a 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -252,6 +252,7 @@ class BinaryBlobSaver : private BinaryBlobSerializer {
         {
             auto ostream = lib::open_write(path);
             bytes_written += lib::write_binary(ostream, data_);
+            lib::flush_checked(ostream);
         }
 
         return SaveTable(
diff --git a/include/svs/lib/saveload/save.h b/include/svs/lib/saveload/save.h
index ada8024..d07c935 100644
--- a/include/svs/lib/saveload/save.h
+++ b/include/svs/lib/saveload/save.h
@@ -312,6 +312,7 @@ void save_node_to_file(
     );
     auto file = svs::lib::open_write(path, std::ios_base::out);
     file << top_table << "\n";
+    lib::flush_checked(file);
 }
 } // namespace detail
 
-- 
2.43.0


From a62b8204abc89787293af6e863091f75b3495fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 36/53] fix: refuse to assemble an index from parts that do not
 fit together

Loaded adjacency lists could lead out of the graph, the graph could belong to
another dataset, and the entry point could lie outside of both.
---
 include/svs/core/graph/graph.h           | 26 +++++++++++++++++++++---
 include/svs/index/vamana/dynamic_index.h |  9 ++++++++
 include/svs/index/vamana/index.h         | 20 ++++++++++++++++--
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/include/svs/core/graph/graph.h b/include/svs/core/graph/graph.h
index d663224..a7b0162 100644
--- a/include/svs/core/graph/graph.h
+++ b/include/svs/core/graph/graph.h
@@ -305,7 +305,27 @@ template <std::unsigned_integral Idx, data::MemoryDataset Data> class SimpleGrap
         if (!binaryfile.has_value()) {
             throw ANNEXCEPTION("Could not open file with uuid {}!", uuid.str());
         }
-        return lazy(data_type::load(binaryfile.value(), std::forward<Args>(args)...));
+        return lazy(
+            check_lists(data_type::load(binaryfile.value(), std::forward<Args>(args)...))
+        );
+    }
+
+    /// Throw if loaded adjacency lists lead out of the graph.
+    static data_type check_lists(data_type data) {
+        for (size_t i = 0, imax = data.size(); i < imax; ++i) {
+            auto list = std::as_const(data).get_datum(i);
+            if (list.empty() || list.front() >= list.size()) {
+                throw ANNEXCEPTION("Vertex {} of a loaded graph has an invalid degree!", i);
+            }
+            for (size_t j = 1, jmax = list.front(); j <= jmax; ++j) {
+                if (list[j] >= imax) {
+                    throw ANNEXCEPTION(
+                        "Vertex {} of a loaded graph has an invalid neighbor {}!", i, list[j]
+                    );
+                }
+            }
+        }
+        return data;
     }
 
   protected:
@@ -362,7 +382,7 @@ class SimpleGraph : public SimpleGraphBase<Idx, data::SimpleData<Idx, Dynamic, A
         if (data::detail::is_likely_reload(path)) {
             return lib::load_from_disk<SimpleGraph>(path, allocator);
         } else {
-            return SimpleGraph(data_type::load(path, allocator));
+            return SimpleGraph(parent_type::check_lists(data_type::load(path, allocator)));
         }
     }
 };
@@ -405,7 +425,7 @@ class SimpleBlockedGraph
         if (data::detail::is_likely_reload(path)) {
             return lib::load_from_disk<SimpleBlockedGraph>(path);
         } else {
-            return SimpleBlockedGraph(data_type::load(path));
+            return SimpleBlockedGraph(parent_type::check_lists(data_type::load(path)));
         }
     }
 };
diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 5157cb8..4e44bc1 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -1233,6 +1233,15 @@ auto auto_dynamic_assemble(
         }
     }
 
+    // The entry point of an empty index is reassigned when points are added.
+    if (datasize != 0 && parameters.entry_point >= datasize) {
+        throw ANNEXCEPTION(
+            "Reloaded entry point {} is outside of an index of size {}!",
+            parameters.entry_point,
+            datasize
+        );
+    }
+
     // At this point, we should be completely validated.
     // Construct the index!
     return MutableVamanaIndex{
diff --git a/include/svs/index/vamana/index.h b/include/svs/index/vamana/index.h
index 7909375..68abfc0 100644
--- a/include/svs/index/vamana/index.h
+++ b/include/svs/index/vamana/index.h
@@ -857,12 +857,28 @@ auto auto_assemble(
     auto data = svs::detail::dispatch_load(std::move(data_proto), threadpool);
     auto graph = svs::detail::dispatch_load(std::move(graph_loader), threadpool);
 
+    auto config = lib::load_from_disk<VamanaIndexParameters>(config_path);
+
+    // Make sure that the pieces belong together.
+    if (data.size() != graph.n_nodes()) {
+        throw ANNEXCEPTION(
+            "Reloaded data has {} entries while the graph has {} nodes!",
+            data.size(),
+            graph.n_nodes()
+        );
+    }
+    if (config.entry_point >= graph.n_nodes()) {
+        throw ANNEXCEPTION(
+            "Reloaded entry point {} is outside of a graph with {} nodes!",
+            config.entry_point,
+            graph.n_nodes()
+        );
+    }
+
     // Extract the index type of the provided graph.
     using I = typename decltype(graph)::index_type;
     auto index = VamanaIndex{
         std::move(graph), std::move(data), I{}, std::move(distance), std::move(threadpool)};
-
-    auto config = lib::load_from_disk<VamanaIndexParameters>(config_path);
     index.apply(config);
     return index;
 }
-- 
2.43.0


From 553a4c72df35d5816ad4101985e18233ac7595a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 37/53] fix: compact in batches of any positive size

Batches of size zero never ended, and large batches allocated memory for entries
that do not exist.
---
 include/svs/core/compact.h               | 3 +++
 include/svs/index/vamana/dynamic_index.h | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/svs/core/compact.h b/include/svs/core/compact.h
index 1496b84..9b473d8 100644
--- a/include/svs/core/compact.h
+++ b/include/svs/core/compact.h
@@ -48,6 +48,9 @@ void compact_data(
     size_t batchsize = buffer.size();
     size_t start = 0;
     size_t end = new_to_old.size();
+    if (batchsize == 0 && end != 0) {
+        throw ANNEXCEPTION("Cannot compact data in batches of size zero!");
+    }
     while (start < end) {
         size_t stop = std::min(start + batchsize, end);
         auto batch_to_new = threads::UnitRange{start, stop};
diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 4e44bc1..d84f747 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -706,6 +706,12 @@ class MutableVamanaIndex {
     ///     improve performance but requires more working memory.
     ///
     void compact(Idx batch_size = 1'000) {
+        if (batch_size == 0) {
+            throw ANNEXCEPTION("Cannot compact an index in batches of size zero!");
+        }
+        // Larger batches only take up memory.
+        batch_size = std::min<size_t>(batch_size, std::max<size_t>(graph_.n_nodes(), 1));
+
         // Step 1: Compute a prefix-sum matching each valid internal index to its new
         // internal index.
         //
-- 
2.43.0


From 1cadde2b074658ce817cd888fba9fd91bc2416a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 38/53] fix: initialize all parameters of a dynamic index made
 from a graph

The maximum degree was read from the moved-from graph, the number of candidates and
the pruning target were left uninitialized.
---
 include/svs/index/vamana/dynamic_index.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index d84f747..f493d74 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -165,7 +165,9 @@ class MutableVamanaIndex {
         , distance_{std::move(distance_function)}
         , threadpool_{std::move(threadpool)}
         , search_parameters_{vamana::construct_default_search_parameters(data_)}
-        , construction_window_size_{2 * graph.max_degree()} {
+        , construction_window_size_{2 * graph_.max_degree()}
+        , max_candidates_{4 * graph_.max_degree()}
+        , prune_to_{graph_.max_degree()} {
         translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
     }
 
-- 
2.43.0


From 2f726379ef9113947ae6f9c42ea9e20790fd828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 39/53] fix: do not truncate the alpha given to a type-erased
 dynamic index

---
 include/svs/orchestrators/dynamic_vamana.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/orchestrators/dynamic_vamana.h b/include/svs/orchestrators/dynamic_vamana.h
index daba2a5..f69d625 100644
--- a/include/svs/orchestrators/dynamic_vamana.h
+++ b/include/svs/orchestrators/dynamic_vamana.h
@@ -156,7 +156,7 @@ class DynamicVamana : public manager::IndexManager<DynamicVamanaInterface> {
 
     // Accessors
     float get_alpha() const { return impl_->get_alpha(); }
-    void set_alpha(size_t alpha) { impl_->set_alpha(alpha); }
+    void set_alpha(float alpha) { impl_->set_alpha(alpha); }
     size_t get_construction_window_size() const {
         return impl_->get_construction_window_size();
     }
-- 
2.43.0


From 5691c7a8d9b5f6cc566e431888e196ce89c95183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 40/53] fix: use the known element size when loading vecs and
 binary files

---
 include/svs/core/data/io.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index bbb848b..56a3c88 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -137,11 +137,29 @@ void save_vecs(const Dataset& data, const std::filesystem::path& path) {
 ///// Dataset Loading
 /////
 
+namespace detail {
+// Return the dimensions of the file to be loaded into ``Data``.
+//
+// Some files do not describe the size of their elements. The default accessor reads
+// elements with the type held by the destination, so there is no need to guess.
+template <typename Data, typename WriteAccessor, typename File>
+std::pair<size_t, size_t> get_dims(const File& file) {
+    if constexpr (std::is_same_v<WriteAccessor, DefaultWriteAccessor>) {
+        constexpr size_t element_size = sizeof(typename Data::element_type);
+        if constexpr (requires { file.get_dims(element_size); }) {
+            return file.get_dims(element_size);
+        }
+    }
+    return file.get_dims();
+}
+} // namespace detail
+
 // Generic dataset loading.
 template <typename File, typename WriteAccessor, lib::LazyInvocable<size_t, size_t> F>
 lib::lazy_result_t<F, size_t, size_t>
 load_impl(const File& file, WriteAccessor& accessor, const F& lazy) {
-    auto [vectors_to_read, ndims] = file.get_dims();
+    using Data = lib::lazy_result_t<F, size_t, size_t>;
+    auto [vectors_to_read, ndims] = detail::get_dims<Data, WriteAccessor>(file);
     auto data = lazy(vectors_to_read, ndims);
     populate(data, accessor, file);
     return data;
-- 
2.43.0


From 05688d32a6ee2168fd7a29e7f3223caf6a8cd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 41/53] fix: let the writers of vecs and binary files compile

---
 include/svs/core/io/binary.h | 2 +-
 include/svs/core/io/vecs.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index 36fbcee..5770d0d 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -201,7 +201,7 @@ class BinaryFile {
     ///
     template <typename T>
     BinaryWriter<T> writer(size_t n_vectors, size_t dimensions) const {
-        return BinaryWriter<T>(path_, n_vectors, dimensions);
+        return BinaryWriter<T>(path_.string(), n_vectors, dimensions);
     }
 
     ///
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index fdc32f0..197cbb6 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -257,8 +257,8 @@ class VecsFile {
     ///
     /// @param dimensions The number of dimensions in each vector being written.
     ///
-    template <typename T> VecsWriter<T> writer(size_t dimensions) const {
-        return VecsWriter<T>(path_, dimensions);
+    template <typename T = void> VecsWriter<T> writer(size_t dimensions) const {
+        return VecsWriter<T>(path_.string(), dimensions);
     }
 
     ///
-- 
2.43.0


From dfd3623394dfd1f6bb5aa09501bbc33c0ba82927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 42/53] fix: check the dimensions given to a blocked dataset

---
 include/svs/core/data/simple.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 3ec4612..d6d2be2 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -591,9 +591,7 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
 
     ///// Constructors
     SimpleData(size_t n_elements, size_t n_dimensions, const Blocked<Alloc>& alloc)
-        : blocksize_{lib::prevpow2(
-              alloc.parameters().blocksize_bytes.value() / (sizeof(T) * n_dimensions)
-          )}
+        : blocksize_{elements_per_block(alloc.parameters(), n_dimensions)}
         , blocks_{}
         , dimensions_{n_dimensions}
         , size_{n_elements}
@@ -804,6 +802,19 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
     }
 
   private:
+    // Compute the number of vectors stored in each block.
+    static lib::PowerOfTwo
+    elements_per_block(const BlockingParameters& parameters, size_t n_dimensions) {
+        // Throws an exception if the dimensions don't match the compile-time extent.
+        lib::forward_extent<Extent>(n_dimensions);
+        if (n_dimensions == 0) {
+            throw ANNEXCEPTION("A blocked dataset must have at least one dimension!");
+        }
+        return lib::prevpow2(
+            parameters.blocksize_bytes.value() / (sizeof(T) * n_dimensions)
+        );
+    }
+
     // The blocksize in terms of number of vectors.
     lib::PowerOfTwo blocksize_;
     std::vector<array_type> blocks_;
-- 
2.43.0


From 0439606f6e16e45fbfc1c566f8aafdd232fc5d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 43/53] fix: load saved objects by bare file name and refuse
 oversized floats

---
 include/svs/lib/saveload/bootstrap.h | 9 ++++++++-
 include/svs/lib/saveload/load.h      | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index c5c810a..9e9a73f 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -23,6 +23,7 @@
 #include "svs/lib/uuid.h"
 
 // stl
+#include <cmath>
 #include <concepts>
 #include <vector>
 
@@ -59,7 +60,13 @@ template <std::floating_point F> struct Saver<F> {
 
 template <std::floating_point F> struct Loader<F> {
     using toml_type = toml::value<double>;
-    static F load(const toml_type& v) { return lib::narrow_cast<F>(v.get()); }
+    static F load(const toml_type& v) {
+        auto x = lib::narrow_cast<F>(v.get());
+        if (std::isinf(x) && !std::isinf(v.get())) {
+            throw ANNEXCEPTION("Value {} is too large for its type!", v.get());
+        }
+        return x;
+    }
 };
 
 // String-like
diff --git a/include/svs/lib/saveload/load.h b/include/svs/lib/saveload/load.h
index c672764..a40e5d9 100644
--- a/include/svs/lib/saveload/load.h
+++ b/include/svs/lib/saveload/load.h
@@ -819,8 +819,10 @@ inline SerializedObject begin_deserialization(const std::filesystem::path& fullp
     auto table = toml::parse_file(fullpath.c_str());
     auto version = get_version(table, config_version_key);
     svs::lib::detail::check_global_version(version, fullpath);
+    // The parent of a bare file name is empty and can't be used as a directory.
+    auto directory = fullpath.has_parent_path() ? fullpath.parent_path() : ".";
     return SerializedObject{
-        std::move(table), lib::LoadContext{fullpath.parent_path(), version}};
+        std::move(table), lib::LoadContext{std::move(directory), version}};
 }
 
 } // namespace detail
-- 
2.43.0


From aa6f1c9535b621dba16a8267b50b80519a7f7121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 44/53] fix: save strings with line breaks so that they can be
 loaded

---
 include/svs/lib/saveload/save.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/saveload/save.h b/include/svs/lib/saveload/save.h
index d07c935..e096b3b 100644
--- a/include/svs/lib/saveload/save.h
+++ b/include/svs/lib/saveload/save.h
@@ -311,7 +311,13 @@ void save_node_to_file(
         {{config_version_key, version.str()}, {config_object_key, SVS_FWD(node)}}
     );
     auto file = svs::lib::open_write(path, std::ios_base::out);
-    file << top_table << "\n";
+    // The multi-line form loses leading newlines and can't hold every string.
+    file << toml::toml_formatter(
+                top_table,
+                toml::toml_formatter::default_flags &
+                    ~toml::format_flags::allow_multi_line_strings
+            )
+         << "\n";
     lib::flush_checked(file);
 }
 } // namespace detail
-- 
2.43.0


From 5c6e84e9d3a2a270b1cf06a4ee744838fcffe3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 45/53] fix: refuse saved data and graphs whose file holds
 something else

The counts and dimensions saved beside a file were ignored when loading it.
---
 include/svs/core/data/simple.h | 21 ++++++++++++++++++++-
 include/svs/core/graph/graph.h | 20 +++++++++++++++++---
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index d6d2be2..1937000 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -106,7 +106,26 @@ class GenericSerializer {
         if (!binaryfile.has_value()) {
             throw ANNEXCEPTION("Could not open file with uuid {}!", uuid.str());
         }
-        return io::load_dataset(binaryfile.value(), lazy);
+        // Make sure that this is the file that was saved.
+        auto num_vectors = lib::load_at<size_t>(table, "num_vectors");
+        auto dims = lib::load_at<size_t>(table, "dims");
+        return io::load_dataset(
+            binaryfile.value(),
+            lib::Lazy([&](size_t n_elements, size_t n_dimensions) {
+                if (n_elements != num_vectors || n_dimensions != dims) {
+                    throw ANNEXCEPTION(
+                        "Expected a dataset of {} vectors with {} dimensions. Instead, {} "
+                        "holds {} vectors with {} dimensions!",
+                        num_vectors,
+                        dims,
+                        binaryfile.value(),
+                        n_elements,
+                        n_dimensions
+                    );
+                }
+                return lazy(n_elements, n_dimensions);
+            })
+        );
     }
 };
 
diff --git a/include/svs/core/graph/graph.h b/include/svs/core/graph/graph.h
index a7b0162..12576d2 100644
--- a/include/svs/core/graph/graph.h
+++ b/include/svs/core/graph/graph.h
@@ -305,9 +305,23 @@ template <std::unsigned_integral Idx, data::MemoryDataset Data> class SimpleGrap
         if (!binaryfile.has_value()) {
             throw ANNEXCEPTION("Could not open file with uuid {}!", uuid.str());
         }
-        return lazy(
-            check_lists(data_type::load(binaryfile.value(), std::forward<Args>(args)...))
-        );
+        auto data = data_type::load(binaryfile.value(), std::forward<Args>(args)...);
+
+        // Make sure that this is the file that was saved.
+        auto num_vertices = lib::load_at<size_t>(table, "num_vertices");
+        auto max_degree = lib::load_at<size_t>(table, "max_degree");
+        if (data.size() != num_vertices || data.dimensions() != max_degree + 1) {
+            throw ANNEXCEPTION(
+                "Expected a graph of {} vertices with a maximum degree of {}. Instead, {} "
+                "holds {} adjacency lists of length {}!",
+                num_vertices,
+                max_degree,
+                binaryfile.value(),
+                data.size(),
+                data.dimensions()
+            );
+        }
+        return lazy(check_lists(std::move(data)));
     }
 
     /// Throw if loaded adjacency lists lead out of the graph.
-- 
2.43.0


From 1603037ba142c47ae27ea12b91bd4d62e50b94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 46/53] fix: let huge page allocations be empty

A loaded graph or dataset without elements asserted or failed to allocate.
---
 include/svs/core/allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index d97dbbe..a0ab59b 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -33,6 +33,7 @@
 
 #include "tsl/robin_map.h"
 
+#include <algorithm>
 #include <array>
 #include <fcntl.h>
 #include <filesystem>
@@ -128,7 +129,8 @@ class GenericHugepageAllocator {
     GenericHugepageAllocator() = default;
 
     template <typename... Args> [[nodiscard]] void* allocate(size_t bytes, Args&&... args) {
-        auto [ptr, sz] = hugepage_mmap(bytes, SVS_FWD(args)...);
+        // Empty mappings do not exist: allocations of no bytes get a page of their own.
+        auto [ptr, sz] = hugepage_mmap(std::max<size_t>(bytes, 1), SVS_FWD(args)...);
         {
             std::lock_guard lock{mutex_};
             ptr_to_size_.insert({ptr, sz});
-- 
2.43.0


From 6a9ad04d5c6a6c8e15eb6a9daaafc3982ded0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 47/53] fix: find a medioid when distances exceed the range of
 float

The sentinel was returned as the entry point when no distance to the mean
was below the largest float, and searches started outside of the index.
---
 include/svs/core/medioid.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/svs/core/medioid.h b/include/svs/core/medioid.h
index 279aa29..de01614 100644
--- a/include/svs/core/medioid.h
+++ b/include/svs/core/medioid.h
@@ -297,9 +297,8 @@ size_t find_medioid(
 
     // Find the closest element to the medioid that satisfies the predicate.
     // Thread local nearest neighbors.
-    threads::SequentialTLS<Neighbor<size_t>> closest_neighbors(
-        type_traits::sentinel_v<Neighbor<size_t>, std::less<>>, threadpool.size()
-    );
+    constexpr auto none = type_traits::sentinel_v<Neighbor<size_t>, std::less<>>;
+    threads::SequentialTLS<Neighbor<size_t>> closest_neighbors(none, threadpool.size());
 
     threads::run(
         threadpool,
@@ -321,7 +320,8 @@ size_t find_medioid(
                     distance += diff * diff;
                 }
 
-                if (distance < best.distance()) {
+                // Distances may exceed the range of `float`: any element is better than none.
+                if (best.id() == none.id() || distance < best.distance()) {
                     best = {i, lib::narrow_cast<float>(distance)};
                 }
             }
@@ -329,9 +329,9 @@ size_t find_medioid(
     );
 
     // Return the minimum index.
-    auto global_min = type_traits::sentinel_v<Neighbor<size_t>, std::less<>>;
+    auto global_min = none;
     closest_neighbors.visit([&](const auto& neighbor) {
-        if (neighbor < global_min) {
+        if (global_min.id() == none.id() || neighbor < global_min) {
             global_min = neighbor;
         }
     });
-- 
2.43.0


From bd4d552988690ecfd6911c3f91b79e6c2a8b6c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 48/53] fix: refuse an empty id translation with a missing or
 non-empty file

---
 include/svs/core/translation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 2572edb..124f40c 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -358,11 +358,11 @@ class IDTranslator {
         // the points.
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
+        auto resolved = table.resolve_at("filename");
         // The file of an empty translator is empty and cannot be opened for reading.
-        if (num_points == 0) {
+        if (num_points == 0 && std::filesystem::file_size(resolved) == 0) {
             return translator;
         }
-        auto resolved = table.resolve_at("filename");
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
             auto external_id = lib::read_binary<external_id_type>(stream);
-- 
2.43.0


From cb7faef0cf703c1ff5266dc789d4016e78217000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 49/53] fix: refuse a clustering that refers to vectors outside
 of the dataset

---
 include/svs/index/inverted/memory_based.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 9b7aad2..07a6190 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -567,6 +567,23 @@ auto assemble_from_clustering(
     auto clustering = lib::load_from_disk<Clustering<uint32_t>>(clustering_path);
     auto ids = clustering.sorted_centroids();
 
+    // Make sure that the clustering belongs to the dataset.
+    auto check_id = [&](size_t id) {
+        if (id >= original.size()) {
+            throw ANNEXCEPTION(
+                "Reloaded clustering refers to vector {} of a dataset of size {}!",
+                id,
+                original.size()
+            );
+        }
+    };
+    clustering.for_each_cluster([&](const auto& cluster) {
+        check_id(cluster.centroid());
+        for (const auto& neighbor : cluster) {
+            check_id(neighbor.id());
+        }
+    });
+
     // Create the prinary dataset from the original.
     auto index = index::vamana::auto_assemble(
         index_config,
-- 
2.43.0


From 2e1a274d180773f971d5a2e535111f5cf04859c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 50/53] fix: let pruning end for any alpha

Values that are not relaxed further by multiplication (such as infinity) made
the pruning of a short candidate list loop for ever.
---
 include/svs/index/vamana/prune.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index 0c6dee8..cce600c 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -156,7 +156,9 @@ void heuristic_prune_neighbors(
             ++start;
         }
 
-        if (alpha == 1) {
+        // Stop if another round would not relax the rule further.
+        float next_alpha = current_alpha * alpha;
+        if (!cmp(current_alpha, next_alpha)) {
             break;
         }
 
@@ -164,7 +166,7 @@ void heuristic_prune_neighbors(
         for (auto& state : pruned) {
             state = reenable(state);
         }
-        current_alpha *= alpha;
+        current_alpha = next_alpha;
     }
 }
 
@@ -226,10 +228,12 @@ void heuristic_prune_neighbors(
             }
             ++start;
         }
-        if (alpha == 1) {
+        // Stop if another round would not relax the rule further.
+        float next_alpha = current_alpha * alpha;
+        if (!cmp(current_alpha, next_alpha)) {
             break;
         }
-        current_alpha *= alpha;
+        current_alpha = next_alpha;
     }
 }
 
-- 
2.43.0


From 204cd6af2fa63d77cbc2ca4ae056b62041fa2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 51/53] fix: calibrate with a capacity bound below the search
 window

---
 include/svs/index/vamana/calibrate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/calibrate.h b/include/svs/index/vamana/calibrate.h
index b4f9e32..4a21707 100644
--- a/include/svs/index/vamana/calibrate.h
+++ b/include/svs/index/vamana/calibrate.h
@@ -191,8 +191,10 @@ VamanaSearchParameters optimize_split_buffer(
     svs::logging::trace(logger, "Trying to achieve recall {}", target_recall);
 
     // Copy the current state of the search parameters so we only tweak the buffer config.
+    // Do not go below the capacity that is already known to work: a smaller one cannot hold
+    // the search windows (or the neighbors) that are about to be tried.
     size_t search_window_capacity_upper =
-        calibration_parameters.search_window_capacity_upper_;
+        std::max(calibration_parameters.search_window_capacity_upper_, sws);
     auto sp = current;
     while (sws > 1) {
         --sws;
-- 
2.43.0


From 44212be3d5cdf6875b260874ea212574d420dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 52/53] fix: assemble indexes with a given thread pool

---
 include/svs/index/flat/flat.h    | 2 +-
 include/svs/index/vamana/index.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/flat/flat.h b/include/svs/index/flat/flat.h
index aeb5d24..dfbb52f 100644
--- a/include/svs/index/flat/flat.h
+++ b/include/svs/index/flat/flat.h
@@ -444,7 +444,7 @@ template <typename DataProto, typename Distance, typename ThreadPoolProto>
 auto auto_assemble(
     DataProto&& data_proto, Distance distance, ThreadPoolProto threadpool_proto
 ) {
-    auto threadpool = threads::as_threadpool(threadpool_proto);
+    auto threadpool = threads::as_threadpool(std::move(threadpool_proto));
     auto data = svs::detail::dispatch_load(std::forward<DataProto>(data_proto), threadpool);
     return FlatIndex(std::move(data), std::move(distance), std::move(threadpool));
 }
diff --git a/include/svs/index/vamana/index.h b/include/svs/index/vamana/index.h
index 68abfc0..3401b06 100644
--- a/include/svs/index/vamana/index.h
+++ b/include/svs/index/vamana/index.h
@@ -853,7 +853,7 @@ auto auto_assemble(
     Distance distance,
     ThreadPoolProto threadpool_proto
 ) {
-    auto threadpool = threads::as_threadpool(threadpool_proto);
+    auto threadpool = threads::as_threadpool(std::move(threadpool_proto));
     auto data = svs::detail::dispatch_load(std::move(data_proto), threadpool);
     auto graph = svs::detail::dispatch_load(std::move(graph_loader), threadpool);
 
-- 
2.43.0


From 8220c232fc51dabc63896a1b2833e1b879241ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 53/53] fix: name the directories of a saved primary index in
 the order in which they are used

---
 include/svs/orchestrators/inverted.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/svs/orchestrators/inverted.h b/include/svs/orchestrators/inverted.h
index 7acc427..0b7015f 100644
--- a/include/svs/orchestrators/inverted.h
+++ b/include/svs/orchestrators/inverted.h
@@ -26,8 +26,8 @@ class InvertedInterface {
     ///// Saving
     virtual void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) = 0;
 };
 
@@ -62,10 +62,10 @@ class InvertedImpl : public manager::ManagerImpl<QueryTypes, Impl, IFace> {
     ///// Saving
     void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) override {
-        impl().save_primary_index(primary_config, primary_data, primary_graph);
+        impl().save_primary_index(primary_config, primary_graph, primary_data);
     }
 };
 
@@ -95,10 +95,10 @@ class Inverted : public manager::IndexManager<InvertedInterface> {
     ///// Saving
     void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) {
-        impl_->save_primary_index(primary_config, primary_data, primary_graph);
+        impl_->save_primary_index(primary_config, primary_graph, primary_data);
     }
 
     ///// Building
-- 
2.43.0

