From 8f2349acd53e28f1301a3b1539034c260702435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 01/19] fix: wake the waiting threads of a parallel HRG run
 when the tree is too shallow for tasks

---
 .../include/hypergirgs/HyperbolicTree.inl     | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index ebd2770..61d8533 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -99,19 +99,22 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads && first_parallel_level < m_levels) {
-            ScopedTimer timer("Gen Tasks", m_profile);
-            tasks.reserve(num_tasks);
+        if (tid + 1 == num_threads) {
+            // there are no tasks if the tree is too shallow
+            if (first_parallel_level < m_levels) {
+                ScopedTimer timer("Gen Tasks", m_profile);
+                tasks.reserve(num_tasks);
 
-            visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
+                visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
 
-            // In spirit of the LPT scheduling, we place expensive tasks to be processed first
-            std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
-                return t.cellA == t.cellB;});
+                // In spirit of the LPT scheduling, we place expensive tasks to be processed first
+                std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
+                    return t.cellA == t.cellB;});
 
-            assert(num_tasks == tasks.size());
+                assert(num_tasks == tasks.size());
+            }
 
-            // inform consumers that tasks are ready
+            // inform consumers that tasks are ready (even if there are none)
             {
                 std::lock_guard<std::mutex> lock(mutex);
                 tasks_generated = true;
-- 
2.43.0


From 339fffbdc312e034762becfb0e31f4905c132a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 02/19] fix: read tasks_generated only while holding its mutex

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 61d8533..42cb7cc 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -127,10 +127,8 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
             visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
 
             // wait until tasks are ready
-            if (!tasks_generated) {
-                std::unique_lock<std::mutex> lock(mutex);
-                cv.wait(lock, [&] {return tasks_generated;});
-            }
+            std::unique_lock<std::mutex> lock(mutex);
+            cv.wait(lock, [&] {return tasks_generated;});
         }
 
     // 2. Phase
-- 
2.43.0


From 9a465306cc0a802e086714cccbd6d976395d56fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 03/19] fix: distance filter bounds when the inverse connection
 probability is negative

---
 source/hypergirgs/include/hypergirgs/DistanceFilter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/DistanceFilter.h b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
index b0e830b..2c93a85 100644
--- a/source/hypergirgs/include/hypergirgs/DistanceFilter.h
+++ b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <limits>
@@ -33,7 +34,8 @@ public:
     , stage_width(stages/max_prob)
     {
         for(int i=1; i < stages; i++)
-            filter_stages[i] = cosh(invConnectionProb(max_connection_prob / stages * i, R, T));
+            // a negative distance means that even distance 0 has a smaller probability
+            filter_stages[i] = cosh(std::max(0.0, invConnectionProb(max_connection_prob / stages * i, R, T)));
         // TODO maybe we should not save these values
         filter_stages[0] = std::numeric_limits<double>::infinity(); // at distance inf the conn prob is 0; cosh(inf)=inf
         filter_stages[stages] = 1.0; // at distance 0 the conn prob is largest; cosh(0)=1
-- 
2.43.0


From 8b5ef247726acf641e57bbe30b3d8c0a8ccc779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 04/19] fix: data race between neighbouring chunks when
 repairing the prefix sums

---
 source/girgs/include/girgs/SpatialTree.inl | 12 +++++++-----
 source/hypergirgs/source/RadiusLayer.cpp   | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 90579ce..1d19423 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -432,11 +432,13 @@ std::vector<WeightLayer<D>> SpatialTree<D, EdgeCallback>::buildPartition(const s
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
-            auto i = std::min(max_cell_id, begin + chunk_size);
-            while (i-- > begin) {
-                m_first_in_cell[i] = std::min(
-                    m_first_in_cell[i],
-                    m_first_in_cell[i + 1]);
+            // the right-most element of the chunk is already fixed; leaving it alone also means
+            // that we do not read the first element of the next chunk while its owner writes it
+            const auto end = std::min(max_cell_id, begin + chunk_size);
+            for (auto i = end; i > begin + 1; --i) {
+                m_first_in_cell[i - 2] = std::min(
+                    m_first_in_cell[i - 2],
+                    m_first_in_cell[i - 1]);
             }
         }
 
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index c2eb30c..d0d90e6 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -155,11 +155,13 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
-            auto i = std::min(max_cell_id, begin + chunk_size);
-            while (i-- > begin) {
-                first_in_cell[i] = std::min(
-                    first_in_cell[i],
-                    first_in_cell[i + 1]);
+            // the right-most element of the chunk is already fixed; leaving it alone also means
+            // that we do not read the first element of the next chunk while its owner writes it
+            const auto end = std::min(max_cell_id, begin + chunk_size);
+            for (auto i = end; i > begin + 1; --i) {
+                first_in_cell[i - 2] = std::min(
+                    first_in_cell[i - 2],
+                    first_in_cell[i - 1]);
             }
         }
 
-- 
2.43.0


From 1dfa285e9524eb94208a34b935ec29fc5d2e3bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 05/19] fix: intsort with a maximal key that is a power of two

---
 source/girgs/include/girgs/IntSort.h          | 19 +++++--------------
 .../hypergirgs/include/hypergirgs/IntSort.h   | 19 +++++--------------
 2 files changed, 10 insertions(+), 28 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index c0df6f0..22de3a8 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -21,20 +21,11 @@
 namespace intsort {
 namespace IntSortInternal {
 
+/// number of bits needed to represent x
 template<typename T>
-uint32_t ilog2(T x) {
-    if (!x) return 0;
-
-    const typename std::make_unsigned<T>::type input = x;
-
-    int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
-
+uint32_t bit_width(T x) {
+    uint32_t i = 0;
+    for (; x; x >>= 1) i++;
     return i;
 }
 
@@ -57,7 +48,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{bit_width(max_key)},
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index c0df6f0..22de3a8 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -21,20 +21,11 @@
 namespace intsort {
 namespace IntSortInternal {
 
+/// number of bits needed to represent x
 template<typename T>
-uint32_t ilog2(T x) {
-    if (!x) return 0;
-
-    const typename std::make_unsigned<T>::type input = x;
-
-    int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
-
+uint32_t bit_width(T x) {
+    uint32_t i = 0;
+    for (; x; x >>= 1) i++;
     return i;
 }
 
@@ -57,7 +48,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{bit_width(max_key)},
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
-- 
2.43.0


From 105138e418fe68a0a994be7ad4a9fa8fbfdff3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 06/19] fix: reject NaN parameters on the command line

---
 source/cli/gengirg/main.cpp | 2 +-
 source/cli/genhrg/main.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 8dfc6b9..299649e 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -40,7 +40,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index d0eedcb..c0b2628 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -39,7 +39,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
-- 
2.43.0


From 207d65339a08686e50eae61fb13bebc9e929e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 07/19] fix: parallel sampling of zero radii or angles

---
 source/hypergirgs/source/Generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index ddf488d..2ee751c 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -89,7 +89,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     std::vector<double> angles(n * Angles);
 
     constexpr auto kMinChunkSize = 10000;
-    const auto threads = parallel ? std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize) : 1;
+    const auto threads = parallel ? std::max(1, std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize)) : 1;
 
     const auto invalpha = 1.0 / alpha;
     #pragma omp parallel num_threads(threads)
-- 
2.43.0


From 8e19fd3b6218c4ecbd2845a4e2436455c9dc8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 08/19] fix: radius layer of a point in the center of the disc

---
 source/hypergirgs/source/RadiusLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index d0d90e6..0dab18a 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -49,7 +49,7 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
     auto layer_rad_min   = [R, layer_height] (int l) {return R - l * layer_height - layer_height;};
     const auto r_min_outer = R - layer_height;
-    auto num_layers = static_cast<unsigned int>(std::ceil( R / layer_height));
+    auto num_layers = radius_to_layer(0.0) + 1; // the layer of the center has to exist even if R is a multiple of layer_height
 
     // generate look-up to get the level of a layer
     const auto level_of_layer = [&] {
-- 
2.43.0


From 184dd6892e4736cef4a8c7dbcc3bb6d5b237829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 09/19] verification hooks: performance thresholds can be
 lowered under GIRGS_VERIF

---
 source/girgs/include/girgs/IntSort.h           | 10 +++++++++-
 source/girgs/source/Generator.cpp              | 18 +++++++++++++++---
 source/hypergirgs/include/hypergirgs/IntSort.h | 10 +++++++++-
 source/hypergirgs/source/Generator.cpp         | 16 ++++++++++++++--
 4 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index 22de3a8..ab0dcda 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -18,6 +18,14 @@
 #include <numeric>
 #include <omp.h>
 
+// minimal number of elements per thread; small values only for verification
+#undef INTSORT_GRAIN
+#if defined(GIRGS_VERIF) && defined(GIRGS_VERIF_INTSORT_GRAIN)
+#define INTSORT_GRAIN GIRGS_VERIF_INTSORT_GRAIN
+#else
+#define INTSORT_GRAIN (1 << 17)
+#endif
+
 namespace intsort {
 namespace IntSortInternal {
 
@@ -66,7 +74,7 @@ public:
         if (n < 2 || max_key < 1)
             return false; // in these cases the input is trivially sorted
 
-        const auto max_threads = std::min<int>(omp_get_max_threads(), idiv_ceil(n, 1 << 17));
+        const auto max_threads = std::min<int>(omp_get_max_threads(), idiv_ceil(n, INTSORT_GRAIN));
 
         // compute how many iterations we need to sort numbers [0, ..., max_key], i.e. log(max_key, base=RADIX_WIDTH)
         std::array<size_t, no_queues + 1> splitter;
diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index f0bc66c..2a9a056 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -12,11 +12,23 @@
 #include <girgs/SpatialTree.h>
 #include <girgs/WeightScaling.h>
 
+// sizes that only matter for performance; small values only for verification
+#if defined(GIRGS_VERIF) && defined(GIRGS_VERIF_CHUNK)
+#define GIRGS_CHUNK_SIZE GIRGS_VERIF_CHUNK
+#else
+#define GIRGS_CHUNK_SIZE 10000
+#endif
+#if defined(GIRGS_VERIF) && defined(GIRGS_VERIF_BLOCK)
+#define GIRGS_BLOCK_SIZE GIRGS_VERIF_BLOCK
+#else
+#define GIRGS_BLOCK_SIZE (size_t{1} << 20)
+#endif
+
 
 namespace girgs {
 
 std::vector<double> generateWeights(int n, double ple, int weightSeed, bool parallel) {
-    const auto threads = parallel ? std::max(1, std::min(omp_get_max_threads(), n / 10000)) : 1;
+    const auto threads = parallel ? std::max(1, std::min(omp_get_max_threads(), n / GIRGS_CHUNK_SIZE)) : 1;
     auto result = std::vector<double>(n);
 
     #pragma omp parallel num_threads(threads)
@@ -35,7 +47,7 @@ std::vector<double> generateWeights(int n, double ple, int weightSeed, bool para
 }
 
 std::vector<std::vector<double>> generatePositions(int n, int dimension, int positionSeed, bool parallel) {
-    const auto threads = parallel ? std::max(1, std::min(omp_get_max_threads(), n / 10000)) : 1;
+    const auto threads = parallel ? std::max(1, std::min(omp_get_max_threads(), n / GIRGS_CHUNK_SIZE)) : 1;
     auto result = std::vector<std::vector<double>>(n, std::vector<double>(dimension));
 
     #pragma omp parallel num_threads(threads)
@@ -80,7 +92,7 @@ std::vector<std::pair<int, int>> generateEdges(const std::vector<double> &weight
             uint64_t[31] /* avoid false sharing */
     > > local_edges(omp_get_max_threads());
 
-    constexpr auto block_size = size_t{1} << 20;
+    constexpr auto block_size = GIRGS_BLOCK_SIZE;
 
     std::mutex m;
     auto flush = [&] (const edge_vector& local) {
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index 22de3a8..ab0dcda 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -18,6 +18,14 @@
 #include <numeric>
 #include <omp.h>
 
+// minimal number of elements per thread; small values only for verification
+#undef INTSORT_GRAIN
+#if defined(GIRGS_VERIF) && defined(GIRGS_VERIF_INTSORT_GRAIN)
+#define INTSORT_GRAIN GIRGS_VERIF_INTSORT_GRAIN
+#else
+#define INTSORT_GRAIN (1 << 17)
+#endif
+
 namespace intsort {
 namespace IntSortInternal {
 
@@ -66,7 +74,7 @@ public:
         if (n < 2 || max_key < 1)
             return false; // in these cases the input is trivially sorted
 
-        const auto max_threads = std::min<int>(omp_get_max_threads(), idiv_ceil(n, 1 << 17));
+        const auto max_threads = std::min<int>(omp_get_max_threads(), idiv_ceil(n, INTSORT_GRAIN));
 
         // compute how many iterations we need to sort numbers [0, ..., max_key], i.e. log(max_key, base=RADIX_WIDTH)
         std::array<size_t, no_queues + 1> splitter;
diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 2ee751c..8901a84 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -10,6 +10,18 @@
 
 #include <hypergirgs/HyperbolicTree.h>
 
+// sizes that only matter for performance; small values only for verification
+#if defined(GIRGS_VERIF) && defined(GIRGS_VERIF_CHUNK)
+#define HYPERGIRGS_CHUNK_SIZE GIRGS_VERIF_CHUNK
+#else
+#define HYPERGIRGS_CHUNK_SIZE 10000
+#endif
+#if defined(GIRGS_VERIF) && defined(GIRGS_VERIF_BLOCK)
+#define HYPERGIRGS_BLOCK_SIZE GIRGS_VERIF_BLOCK
+#else
+#define HYPERGIRGS_BLOCK_SIZE (size_t{1} << 20)
+#endif
+
 
 namespace hypergirgs {
 
@@ -88,7 +100,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     std::vector<double> radii(n * Radii);
     std::vector<double> angles(n * Angles);
 
-    constexpr auto kMinChunkSize = 10000;
+    constexpr auto kMinChunkSize = HYPERGIRGS_CHUNK_SIZE;
     const auto threads = parallel ? std::max(1, std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize)) : 1;
 
     const auto invalpha = 1.0 / alpha;
@@ -140,7 +152,7 @@ std::vector<std::pair<int, int> > generateEdges(std::vector<double>& radii, std:
             uint64_t[31] /* avoid false sharing */
     > > local_edges(omp_get_max_threads());
 
-    constexpr auto block_size = size_t{1} << 20;
+    constexpr auto block_size = HYPERGIRGS_BLOCK_SIZE;
 
     for(auto& v : local_edges)
         v.first.reserve(block_size);
-- 
2.43.0


From 58c72eb181dfa85ab7ea6186167f7e42ee842573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 10/19] fix: weight scaling subtracts self contributions that
 were never added

The rich club correction removed the contribution of the pair (u,u) also for
the node just behind the range of partners that was summed up, so that the
expected degree was underestimated and the returned scaling too large.
---
 source/girgs/source/WeightScaling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 6147096..9473877 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -136,7 +136,7 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
 
             error += w2sum * pow2c * fac - (std::distance(sweights.cbegin(), w2));
 
-            if (w2 >= w1) {
+            if (w2 > w1) {
                 // we have to subtract the self-contribution of x == y
                 error -= pow2c * fac * (*w1) - 1.0;
             }
@@ -251,7 +251,7 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
             w_terms       += sweights[i1]    * w2_sum       / W;
             w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
 
-            if (i2 >= i1) {
+            if (i2 > i1) {
                 num_terms--;
                 w_terms       -= sweights[i1]    * sweights[i1]    / W;
                 w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
-- 
2.43.0


From 4e47aa781d58dc75b0490eb295f1728062a02d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 11/19] fix: disc radius for more than 2^30 nodes

n * 2 was evaluated in int and overflowed for n > 2^30.
---
 source/hypergirgs/source/Generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 8901a84..768b571 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -27,7 +27,7 @@ namespace hypergirgs {
 
 
 double calculateRadius(int n, double alpha, double T, double deg) {
-    return 2 * log(n * 2 * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
+    return 2 * log(2.0 * n * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
                    (deg * (alpha - 0.5) * (alpha - 0.5)));
 }
 
-- 
2.43.0


From 9391456ba833c9a6e1b9630a36967708ab820bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 12/19] fix: bound the number of hyperbolic grid cells in
 sparse graphs

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 2 +-
 source/hypergirgs/source/RadiusLayer.cpp                | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 42cb7cc..df1a901 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -473,7 +473,7 @@ std::vector<default_random_engine> HyperbolicTree<EdgeCallback>::initialize_prng
 
 template <typename EdgeCallback>
 unsigned int HyperbolicTree<EdgeCallback>::partitioningBaseLevel(double r1, double r2) const {
-    return RadiusLayer::partitioningBaseLevel(r1, r2, m_R);
+    return std::min(RadiusLayer::partitioningBaseLevel(r1, r2, m_R), m_levels - 1);
 }
 
 template<typename EdgeCallback>
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index 0dab18a..92abe6e 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -1,7 +1,9 @@
 
 #include <hypergirgs/RadiusLayer.h>
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <omp.h>
 
 #include <hypergirgs/AngleHelper.h>
@@ -51,11 +53,14 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     const auto r_min_outer = R - layer_height;
     auto num_layers = radius_to_layer(0.0) + 1; // the layer of the center has to exist even if R is a multiple of layer_height
 
+    // in sparse graphs (huge R) the deepest levels would have far more cells than there are nodes; any coarser level is correct as well
+    const auto max_level = std::max(10u, static_cast<unsigned int>(std::log2(n + 1.0)) + 2u);
+
     // generate look-up to get the level of a layer
     const auto level_of_layer = [&] {
         std::vector<int> level_of_layer(num_layers);
         for (int l = 0; l < num_layers; ++l) {
-            level_of_layer[l] = partitioningBaseLevel(layer_rad_min(l), r_min_outer, R);
+            level_of_layer[l] = std::min(partitioningBaseLevel(layer_rad_min(l), r_min_outer, R), max_level);
         }
         assert(std::is_sorted(level_of_layer.crbegin(), level_of_layer.crend()));
         return level_of_layer;
-- 
2.43.0


From 61e58beb5a4e1db7f1ee9420341734c45c0ec098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 13/19] fix: genhrg rejects alpha = 0.5, which has no finite
 radius

---
 README.md                  | 2 +-
 source/cli/genhrg/main.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 5bc9c6b..29ce914 100644
--- a/README.md
+++ b/README.md
@@ -107,7 +107,7 @@ The HRG generator features the following input parameters.
 ./genhrg --help
 usage: ./genhrg
 		[-n anInt]          // number of nodes                          default 10000
-		[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75
+		[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75
 		[-t aFloat]         // temperature parameter    range [0,1)     default 0
 		[-deg aFloat]       // average degree           range [1,n)     default 10
 		[-rseed anInt]      // radii seed                               default 12
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index c0b2628..f698a69 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -55,7 +55,7 @@ int main(int argc, char* argv[]) {
     if (argc < 2 || 0 == strcmp(argv[1], "--help") || 0 == strcmp(argv[1], "-help")) {
         clog << "usage: ./genhrg\n"
             << "\t\t[-n anInt]          // number of nodes                          default 10000\n"
-            << "\t\t[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75\n"
+            << "\t\t[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75\n"
             << "\t\t[-t aFloat]         // temperature parameter    range [0,1)     default 0\n"
             << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
             << "\t\t[-rseed anInt]      // radii seed                               default 12\n"
@@ -98,7 +98,7 @@ int main(int argc, char* argv[]) {
     // log params and range checks
     cout << "using:\n";
     logParam(n, "n");
-    rangeCheck(alpha, 0.5, 1.0, "alpha");
+    rangeCheck(alpha, 0.5, 1.0, "alpha", true);
     rangeCheck(T, 0.0, 1.0, "t", false, true);
     rangeCheck(deg, 1.0, n-1.0, "deg");
     logParam(rseed, "rseed");
-- 
2.43.0


From 42d2cd4fc424cccd8f7cd2260f3f090785a837c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 14/19] fix: bound the number of grid cells of the spatial tree
 for small weights

---
 source/girgs/include/girgs/SpatialTree.h   | 1 +
 source/girgs/include/girgs/SpatialTree.inl | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.h b/source/girgs/include/girgs/SpatialTree.h
index 714c9d0..f56597b 100644
--- a/source/girgs/include/girgs/SpatialTree.h
+++ b/source/girgs/include/girgs/SpatialTree.h
@@ -194,6 +194,7 @@ private:
     double m_wn;                ///< maximum weight
     double m_W;                 ///< sum of weights
     int    m_baseLevelConstant; ///< \f$\log_2(W/w_0^2)\f$ see partitioningBaseLevel(int, int) const
+    int    m_levelBound;        ///< bound on the levels we use; deeper levels have far more cells than there are nodes
 
     unsigned int m_layers; ///< number of layers
     unsigned int m_levels; ///< number of levels
diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 1d19423..91c01f0 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -16,6 +16,7 @@ SpatialTree<D, EdgeCallback>::SpatialTree(const std::vector<double>& weights, co
 , m_wn(*std::max_element(weights.begin(), weights.end()))
 , m_W(std::accumulate(weights.begin(), weights.end(), 0.0))
 , m_baseLevelConstant(static_cast<int>(std::log2(m_W/m_w0/m_w0))) // log2(W/w0^2)
+, m_levelBound(std::max(16, static_cast<int>(std::log2(m_n)) + 3) / static_cast<int>(D))
 , m_layers(static_cast<unsigned int>(floor(std::log2(m_wn/m_w0)))+1)
 , m_levels(partitioningBaseLevel(0,0) + 1) // (log2(W/w0^2) - 2) / d
 {
@@ -299,7 +300,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
 template<unsigned int D, typename EdgeCallback>
 unsigned int SpatialTree<D, EdgeCallback>::weightLayerTargetLevel(int layer) const {
     // -1 coz w0 is the upper bound for layer 0 in paper and our layers are shifted by -1
-    auto result = std::max((m_baseLevelConstant - layer - 1) / (int)D, 0);
+    auto result = std::min(std::max((m_baseLevelConstant - layer - 1) / (int)D, 0), m_levelBound);
 #ifndef NDEBUG
     {   // a lot of assertions that we have the correct insertion level
         assert(0 <= layer && layer < m_layers);
@@ -308,7 +309,7 @@ unsigned int SpatialTree<D, EdgeCallback>::weightLayerTargetLevel(int layer) con
         auto volume_current    = std::pow(2.0, -(result+0.0)*D); // in paper \mu with v <= \mu < O(v)
         auto volume_one_deeper = std::pow(2.0, -(result+1.0)*D);
         assert(volume_requested <= volume_current || volume_requested >= 1.0); // current level has more volume than requested
-        assert(volume_requested >  volume_one_deeper);    // but is the smallest such level
+        assert(volume_requested >  volume_one_deeper || result == m_levelBound); // but is the smallest such level
     }
 #endif // NDEBUG
     return static_cast<unsigned int>(result);
@@ -320,7 +321,7 @@ unsigned int SpatialTree<D, EdgeCallback>::partitioningBaseLevel(int layer1, int
 
     // we do the computation on signed ints but cast back after the max with 0
     // m_baseLevelConstant is just log(W/w0^2)
-    auto result = std::max((m_baseLevelConstant - layer1 - layer2 - 2) / (int)D, 0);
+    auto result = std::min(std::max((m_baseLevelConstant - layer1 - layer2 - 2) / (int)D, 0), m_levelBound);
 #ifndef NDEBUG
     {   // a lot of assertions that we have the correct comparison level
         assert(0 <= layer1 && layer1 < m_layers);
@@ -329,7 +330,7 @@ unsigned int SpatialTree<D, EdgeCallback>::partitioningBaseLevel(int layer1, int
         auto volume_current    = std::pow(2.0, -(result+0.0)*D); // in paper \mu with v <= \mu < O(v)
         auto volume_one_deeper = std::pow(2.0, -(result+1.0)*D);
         assert(volume_requested <= volume_current || volume_requested >= 1.0); // current level has more volume than requested
-        assert(volume_requested >  volume_one_deeper);    // but is the smallest such level
+        assert(volume_requested >  volume_one_deeper || result == m_levelBound); // but is the smallest such level
     }
 #endif // NDEBUG
     return static_cast<unsigned int>(result);
-- 
2.43.0


From 7d5543383e959424bc5290ea9bd08f87fb768a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 15/19] fix: probability bound for weights more than 2^30 times
 the minimum weight

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 91c01f0..26922f3 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -239,7 +239,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
     const auto sizeV_j_B = std::distance(rangeB.first, rangeB.second);
 
     // get upper bound for probability
-    const auto w_upper_bound = m_w0*(1<<(i+1)) * m_w0*(1<<(j+1)) / m_W;
+    const auto w_upper_bound = std::ldexp(m_w0, i+1) * std::ldexp(m_w0, j+1) / m_W;
     const auto cell_distance = CoordinateHelper::dist(cellA, cellB, level);
     const auto dist_lower_bound = pow_to_the<D>(cell_distance);
     const auto max_connection_prob = std::min(std::pow(w_upper_bound/dist_lower_bound, m_alpha), 1.0);
-- 
2.43.0


From 9acc9730fc7bc3d76d6b60a07ed30a0b14a7d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 16/19] fix: cell numbers of very large graphs have to fit 32
 bit

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 source/hypergirgs/source/RadiusLayer.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 26922f3..1b21ec6 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -16,7 +16,7 @@ SpatialTree<D, EdgeCallback>::SpatialTree(const std::vector<double>& weights, co
 , m_wn(*std::max_element(weights.begin(), weights.end()))
 , m_W(std::accumulate(weights.begin(), weights.end(), 0.0))
 , m_baseLevelConstant(static_cast<int>(std::log2(m_W/m_w0/m_w0))) // log2(W/w0^2)
-, m_levelBound(std::max(16, static_cast<int>(std::log2(m_n)) + 3) / static_cast<int>(D))
+, m_levelBound(std::min(28, std::max(16, static_cast<int>(std::log2(m_n)) + 3)) / static_cast<int>(D))
 , m_layers(static_cast<unsigned int>(floor(std::log2(m_wn/m_w0)))+1)
 , m_levels(partitioningBaseLevel(0,0) + 1) // (log2(W/w0^2) - 2) / d
 {
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index 92abe6e..e316ae7 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -54,7 +54,7 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     auto num_layers = radius_to_layer(0.0) + 1; // the layer of the center has to exist even if R is a multiple of layer_height
 
     // in sparse graphs (huge R) the deepest levels would have far more cells than there are nodes; any coarser level is correct as well
-    const auto max_level = std::max(10u, static_cast<unsigned int>(std::log2(n + 1.0)) + 2u);
+    const auto max_level = std::min(28u, std::max(10u, static_cast<unsigned int>(std::log2(n + 1.0)) + 2u));
 
     // generate look-up to get the level of a layer
     const auto level_of_layer = [&] {
-- 
2.43.0


From 9272247bbb60726f957baf1288d1dc264d0c1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:52 +0000
Subject: [PATCH 17/19] fix: weight scaling for finite alpha lost all accuracy
 (or did not terminate) for skewed weights and large alpha

The contributions of pairs that are adjacent with certainty were added to and
subtracted from sums of w^alpha over all pairs, which are larger by many orders
of magnitude.  Sum up the remaining pairs directly instead.
---
 source/girgs/source/WeightScaling.cpp | 64 +++++++++++++++++++--------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 9473877..2e65093 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -211,59 +211,85 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
     // pow_weights[i] = std::pow(sweights[i], alpha) for all elements of the rich club
     std::vector<double> pow_weights;
 
-    auto f = [&] (double c) {
-        const auto long_and_short_with_error = pow(c, 1 / alpha) * factor1 - c * factor2;
+    // sums of w^alpha and w^(2 alpha) over all elements behind pow_weights
+    auto tail_pow = 0.0, tail_sq_pow = 0.0;
+
+    // suffix_pow[i] = sum of w^alpha over all elements from i on
+    std::vector<double> suffix_pow;
 
+    auto f = [&] (double c) {
         const auto rich_thresh = std::exp(dimension * std::log(0.5 / std::pow(c, 1.0 / alpha / dimension)) - log(max_w_W));
         const auto richclub_end = lazy_sorter.sort_downto(rich_thresh);
         const auto num_richclub = static_cast<int>(std::distance(sweights.begin(), richclub_end));
 
         if (!num_richclub)
-            return long_and_short_with_error / n;
+            return (pow(c, 1 / alpha) * factor1 - c * factor2) / n;
 
         assert(num_richclub <= n);
 
         // precompute new pows in case the richclub grew
-        pow_weights.reserve(n / num_richclub > 2 ? num_richclub : n);
-        while(pow_weights.size() < num_richclub) {
-            pow_weights.push_back(std::pow(sweights[pow_weights.size()], alpha));
+        if (pow_weights.size() < num_richclub) {
+            pow_weights.reserve(n / num_richclub > 2 ? num_richclub : n);
+            while(pow_weights.size() < num_richclub) {
+                pow_weights.push_back(std::pow(sweights[pow_weights.size()], alpha));
+            }
+
+            tail_pow = tail_sq_pow = 0.0;
+#ifndef _MSC_VER
+            #pragma omp parallel for reduction(+:tail_pow, tail_sq_pow)
+#endif
+            for (int i = num_richclub; i < n; ++i) {
+                const auto pow_each = std::pow(sweights[i], alpha);
+                tail_pow    += pow_each;
+                tail_sq_pow += pow_each * pow_each;
+            }
         }
 
+        // The powers differ by many orders of magnitude: sums over the pairs that are not adjacent with
+        // certainty have to be added up from the small ones, they are lost in the sums over all pairs.
+        auto low_sq_pow = tail_sq_pow;
+        suffix_pow.assign(pow_weights.size() + 1, tail_pow);
+        for (auto i = pow_weights.size(); i-- > 0; ) {
+            suffix_pow[i] = suffix_pow[i + 1] + pow_weights[i];
+            if (i >= num_richclub)
+                low_sq_pow += pow_weights[i] * pow_weights[i];
+        }
+
+        // pairs with at least one element outside of the rich club (first element outside)
+        auto open_alpha_terms = suffix_pow[num_richclub] * suffix_pow[0] - low_sq_pow;
+
         // get error for long and short edges
         const auto thresh = std::exp( (std::log(0.5) * dimension - std::log(c) / alpha) );
 
         int i2 = 0;
         auto w2_sum       = 0.0;
-        long double w2_alpha_sum = 0.0;
 
         auto w_terms = 0.0;
-        auto w_alpha_terms = 0.0;
         size_t num_terms = 0;
 
         for(auto i1 = num_richclub; i1-- > 0; ) {
             const auto my_thres = thresh * W / sweights[i1];
             for (; i2 < num_richclub && sweights[i2] >= my_thres; ++i2) {
                 w2_sum       += sweights[i2];
-                w2_alpha_sum += pow_weights[i2];
             }
 
-            num_terms     += i2;
-            w_terms       += sweights[i1]    * w2_sum       / W;
-            w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
+            num_terms        += i2;
+            w_terms          += sweights[i1]    * w2_sum       / W;
+            open_alpha_terms += pow_weights[i1] * suffix_pow[i2];
 
             if (i2 > i1) {
                 num_terms--;
-                w_terms       -= sweights[i1]    * sweights[i1]    / W;
-                w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
+                w_terms          -= sweights[i1]    * sweights[i1]    / W;
+            } else {
+                open_alpha_terms -= pow_weights[i1] * pow_weights[i1];
             }
         }
 
-        auto short_error = (1 << dimension) * pow(c, 1 / alpha) * w_terms - num_terms;
-        auto long_error = c * dimension * (1 << dimension) / (dimension - alpha * dimension) *
-            (std::pow(0.5, dimension - alpha * dimension) * w_alpha_terms -
-                std::pow(c, 1.0 / alpha - 1.0) * w_terms);
+        // all pairs but the ones that are adjacent with certainty, which are counted in num_terms
+        const auto open = pow(c, 1 / alpha) * (1 + 1 / (alpha - 1)) * (1 << dimension) * (W - sum_sq_w - w_terms)
+            - c * pow(2, alpha * dimension) / (alpha - 1) * (open_alpha_terms / W_alpha);
 
-        return (long_and_short_with_error - short_error - long_error) / n;
+        return (open + num_terms) / n;
     };
 
     // do exponential search on avg_degree function
-- 
2.43.0


From c6cb1e37b7ca74bf2ced62afe7cd2eac7ec14f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:15 +0000
Subject: [PATCH 18/19] fix: edge generation without nodes read the first
 element of an empty vector

---
 source/girgs/source/Generator.cpp      | 3 +++
 source/hypergirgs/source/Generator.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index 2a9a056..c8bb33e 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -87,6 +87,9 @@ std::vector<std::pair<int, int>> generateEdges(const std::vector<double> &weight
     using edge_vector = std::vector<std::pair<int, int>>;
     edge_vector result;
 
+    if (positions.empty())
+        return result;
+
     std::vector<std::pair<
             edge_vector,
             uint64_t[31] /* avoid false sharing */
diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 768b571..ef21c15 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -147,6 +147,9 @@ std::vector<std::pair<int, int> > generateEdges(std::vector<double>& radii, std:
     using edge_vector = std::vector<std::pair<int, int>>;
     edge_vector result;
 
+    if (radii.empty())
+        return result;
+
     std::vector<std::pair<
             edge_vector,
             uint64_t[31] /* avoid false sharing */
-- 
2.43.0


From 69ac3e63d00b6a9bf29b126ce9f56beefc6d8227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:50 +0000
Subject: [PATCH 19/19] fix: seeds next to the largest int overflowed when the
 thread number was added

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 source/girgs/source/Generator.cpp          | 4 ++--
 source/hypergirgs/source/Generator.cpp     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 1b21ec6..d443a4a 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -46,7 +46,7 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
     const auto num_threads = omp_get_max_threads();
     m_gens.resize(num_threads);
     for (int thread = 0; thread < num_threads; thread++) {
-        m_gens[thread].seed(seed >= 0 ? seed+thread : std::random_device()());
+        m_gens[thread].seed(seed >= 0 ? static_cast<unsigned int>(seed) + thread : std::random_device()());
     } 
 
 #ifndef NDEBUG
diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index c8bb33e..e61056d 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -34,7 +34,7 @@ std::vector<double> generateWeights(int n, double ple, int weightSeed, bool para
     #pragma omp parallel num_threads(threads)
     {
         const auto tid = omp_get_thread_num();
-        auto gen = default_random_engine{weightSeed >= 0 ? (weightSeed+tid) : std::random_device()()};
+        auto gen = default_random_engine{weightSeed >= 0 ? static_cast<unsigned int>(weightSeed) + tid : std::random_device()()};
         auto dist = std::uniform_real_distribution<>{};
 
         #pragma omp for schedule(static)
@@ -53,7 +53,7 @@ std::vector<std::vector<double>> generatePositions(int n, int dimension, int pos
     #pragma omp parallel num_threads(threads)
     {
         const auto tid = omp_get_thread_num();
-        auto gen = default_random_engine{positionSeed >= 0 ? (positionSeed+tid) : std::random_device()()};
+        auto gen = default_random_engine{positionSeed >= 0 ? static_cast<unsigned int>(positionSeed) + tid : std::random_device()()};
         auto dist = std::uniform_real_distribution<>{};
 
         #pragma omp for schedule(static)
diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index ef21c15..862e4b9 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -106,7 +106,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     const auto invalpha = 1.0 / alpha;
     #pragma omp parallel num_threads(threads)
     {
-        auto gen = hypergirgs::default_random_engine(seed >= 0 ? seed + omp_get_thread_num() : std::random_device()());
+        auto gen = hypergirgs::default_random_engine(seed >= 0 ? static_cast<unsigned int>(seed) + omp_get_thread_num() : std::random_device()());
         auto adist = std::uniform_real_distribution<>(0, 2*PI);
         auto rdist = std::uniform_real_distribution<>(std::nextafter(1.0, 2.0), std::cosh(alpha * R));
 
-- 
2.43.0

