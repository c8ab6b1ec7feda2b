From c43b786b703c1e1a738d4f3a3f92fc40e989e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:29 +0000
Subject: [PATCH 1/8] fix: compute block map byte counts and block counts in 64
 bits

Planning the tiling of a 1024x1024 product of depth 2^20 overflowed the
32-bit estimate of the bytes read per block, which made a debug check fail
(or the heuristic misbehave in release builds). The working set size, the
number of full blocks and the log2 quotient had the same problem.
---
 ruy/block_map.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ruy/block_map.cc b/ruy/block_map.cc
index e04e7af..4fc893a 100644
--- a/ruy/block_map.cc
+++ b/ruy/block_map.cc
@@ -136,9 +136,11 @@ BlockMapTraversalOrder GetTraversalOrder(
     int rhs_scalar_size, const CpuCacheParams& cpu_cache_params) {
   static constexpr bool kAnyFractal =
       RUY_OPT(FRACTAL_Z) | RUY_OPT(FRACTAL_U) | RUY_OPT(FRACTAL_HILBERT);
-  const int working_set_size =
-      (lhs_scalar_size * rows_after_rectangularness_division +
-       rhs_scalar_size * cols_after_rectangularness_division) *
+  const std::int64_t working_set_size =
+      (static_cast<std::int64_t>(lhs_scalar_size) *
+           rows_after_rectangularness_division +
+       static_cast<std::int64_t>(rhs_scalar_size) *
+           cols_after_rectangularness_division) *
       depth;
   if (kAnyFractal && (working_set_size > cpu_cache_params.local_cache_size)) {
     if (RUY_OPT(FRACTAL_HILBERT) &&
@@ -159,7 +161,7 @@ int floor_log2_quotient(int num, int denom) {
     return 0;
   }
   int log2_quotient = floor_log2(num) - ceil_log2(denom);
-  if ((denom << (log2_quotient + 1)) <= num) {
+  if ((static_cast<std::int64_t>(denom) << (log2_quotient + 1)) <= num) {
     log2_quotient++;
   }
   return log2_quotient;
@@ -218,8 +220,9 @@ int GetMultithreadingScore(int block_size_log2, int rows, int cols,
                            int tentative_thread_count) {
   const int num_full_blocks_of_rows = rows >> block_size_log2;
   const int num_full_blocks_of_cols = cols >> block_size_log2;
-  const int candidate_num_full_blocks_log2 = floor_log2(
-      std::max(1, num_full_blocks_of_rows * num_full_blocks_of_cols));
+  const int candidate_num_full_blocks_log2 = floor_log2(std::max<std::int64_t>(
+      1, static_cast<std::int64_t>(num_full_blocks_of_rows) *
+             num_full_blocks_of_cols));
 
   // The values here have been tuned on ARM Cortex-A55.
   // We expect this to have to be tuned differently for other CPUs.
@@ -258,8 +261,10 @@ int GetCacheLocalityScore(int block_size_log2, int rows, int cols, int depth,
   }
   const int block_rows = std::min(1 << block_size_log2, rows);
   const int block_cols = std::min(1 << block_size_log2, cols);
-  const int total_read_bytes =
-      (lhs_scalar_size * block_rows + rhs_scalar_size * block_cols) * depth;
+  const std::int64_t total_read_bytes =
+      static_cast<std::int64_t>(lhs_scalar_size * block_rows +
+                                rhs_scalar_size * block_cols) *
+      depth;
   const int total_read_bytes_log2 = ceil_log2(total_read_bytes);
   const int nonlocality_log2 =
       total_read_bytes_log2 - floor_log2(cpu_cache_params.local_cache_size);
-- 
2.43.0


From a7ac96ce87d127afe898d1a191f28470357902df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:29 +0000
Subject: [PATCH 2/8] fix: do not overflow when rounding up to the largest
 multiple

round_up_pot evaluated value + modulo before subtracting 1, which overflows
for values whose rounded-up result is representable.
---
 ruy/size_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruy/size_util.h b/ruy/size_util.h
index a144522..8a63846 100644
--- a/ruy/size_util.h
+++ b/ruy/size_util.h
@@ -97,7 +97,7 @@ Integer round_down_pot(Integer value, Modulo modulo) {
 
 template <typename Integer, typename Modulo>
 Integer round_up_pot(Integer value, Modulo modulo) {
-  return round_down_pot(value + modulo - 1, modulo);
+  return round_down_pot(value + (modulo - 1), modulo);
 }
 
 }  // namespace ruy
-- 
2.43.0


From 55fda685e6f2b499e71ba44fcd12644552a90e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:18 +0000
Subject: [PATCH 3/8] fix: keep the allocator usable when reallocating its
 buffer fails

FreeAll recorded the new size even if the system could not provide the
buffer. Later requests were then served from a null base pointer.
---
 ruy/allocator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruy/allocator.cc b/ruy/allocator.cc
index a8699b8..9616c18 100644
--- a/ruy/allocator.cc
+++ b/ruy/allocator.cc
@@ -125,7 +125,7 @@ void Allocator::FreeAll() {
   // of iterations.
   std::ptrdiff_t new_size = size_ + fallback_blocks_total_size_;
   ptr_ = detail::SystemAlignedAlloc(new_size);
-  size_ = new_size;
+  size_ = ptr_ ? new_size : 0;
 
   fallback_blocks_.clear();
   fallback_blocks_total_size_ = 0;
-- 
2.43.0


From 0e455c64e905d9d37dda3f4cf72f7647085cc3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:09 +0000
Subject: [PATCH 4/8] fix: keep the portable path enabled under a RUY_PATHS
 override

An override naming only paths that a multiplication was not compiled for
left no path to select and aborted, where the same restriction set through
the API falls back to the portable path.
---
 ruy/ctx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/ctx.cc b/ruy/ctx.cc
index 5d6afd4..eeeecc1 100644
--- a/ruy/ctx.cc
+++ b/ruy/ctx.cc
@@ -162,7 +162,8 @@ Path Ctx::GetRuntimeEnabledPaths() {
   // User may have set path explicitly in env var.
   Path paths_bitfield = static_cast<Path>(GetHexIntEnvVarOrZero("RUY_PATHS"));
   if (paths_bitfield != Path::kNone) {
-    *paths = paths_bitfield;
+    // Ensure that non-arch are always enabled, as in SetRuntimeEnabledPaths.
+    *paths = paths_bitfield | kNonArchPaths;
     RUY_TRACE_INFO(GET_RUNTIME_ENABLED_PATHS_USING_ENV_VAR);
     return *paths;
   }
-- 
2.43.0


From f57c88636024377b086fdb05300895257b9df486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:46:23 +0000
Subject: [PATCH 5/8] fix: account float packed matrices consistently when
 ejecting them from the cache

Inserting a float matrix counts only its data, as float matrices have no
sums buffer. Ejecting it also subtracted the bytes of sums, so the total
drifted below the memory actually held and the cache outgrew its limit.
---
 ruy/prepacked_cache.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 5080ca9..11ff75a 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -121,7 +121,11 @@ void PrepackedCache::EjectOne() {
     }
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
-  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBytes(packed_matrix);
+  buffers_bytes_ -= DataBytes(packed_matrix);
+  if (!packed_matrix.sums_type.is_floating_point) {
+    // Only integer quantized matrices have a `sums` buffer.
+    buffers_bytes_ -= SumsBytes(packed_matrix);
+  }
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
 }
-- 
2.43.0


From b1634c6e591669c304e213a134e04f5b5e1b2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:39:32 +0000
Subject: [PATCH 6/8] fix: prepacked cache: add the source layout to the key

The key had the source data pointer, the packed layout and the zero point.
The packed layout has dimensions rounded up to the kernel's and says nothing
about the storage order and stride of the source. Multiplying with the same
data in another storage order, with another stride or with another size that
rounds to the same packed size got the stale packed matrix.
---
 ruy/mat.h                      |  5 +++++
 ruy/prepacked_cache.cc         |  2 ++
 ruy/prepacked_cache.h          | 32 +++++++++++++++++++++++---------
 ruy/prepare_packed_matrices.cc |  3 ++-
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/ruy/mat.h b/ruy/mat.h
index bf02c66..13d8216 100644
--- a/ruy/mat.h
+++ b/ruy/mat.h
@@ -111,6 +111,11 @@ struct MatLayout final {
   Order order = Order::kColMajor;
 };
 
+inline bool operator==(const MatLayout& a, const MatLayout& b) {
+  return a.rows == b.rows && a.cols == b.cols && a.stride == b.stride &&
+         a.order == b.order;
+}
+
 inline MatLayout ToInternal(const Layout& src) {
   MatLayout ret;
   ret.rows = src.rows();
diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 11ff75a..e70d048 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -77,10 +77,12 @@ PrepackedCache::~PrepackedCache() {
 }
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
+                                           const MatLayout& src_layout,
                                            PEMat* packed_matrix) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
+  key.src_layout = src_layout;
   key.packed_layout = packed_matrix->layout;
   key.zero_point = packed_matrix->zero_point;
   const auto& itr = cache_.find(key);
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index c58593e..610eb60 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -52,10 +52,14 @@ class PrepackedCache final {
   // (since they are used to determine whether to allocate a new buffer).
   // So they instead use the source matrix's data pointer. On the other hand,
   // the packed matrix's layout structure is already available by the time we
-  // need to handle Keys, and that's fortunate because it is more specific
-  // than the source matrix's layout: it also encodes details about the kernel's
-  // small-scale block layout. In the past, we made the kernel function pointer
-  // part of the cache key, but all that is relevant here is the packed layout.
+  // need to handle Keys. It encodes details about the kernel's small-scale
+  // block layout. In the past, we made the kernel function pointer part of the
+  // cache key, but all that is relevant here is the packed layout.
+  //
+  // The packed layout does not determine the source layout: its dimensions are
+  // rounded up to the kernel's, and it does not depend on the source's storage
+  // order and stride. As the same source data may be used with different source
+  // layouts, giving different packed matrices, the source layout is needed too.
   //
   // The only other field that needs to be involved is the zero_point, for
   // quantized matrices, although it seems far-fetched that the same matrix
@@ -68,6 +72,8 @@ class PrepackedCache final {
   struct Key {
     // The source matrix's data pointer.
     const void* src_data;
+    // The source matrix's layout, see EMat::layout.
+    MatLayout src_layout;
     // The packed matrix's layout, see PEMat::layout.
     PMatLayout packed_layout;
     // The packed matrix's zero point (for integer-quantized matrices only).
@@ -75,8 +81,8 @@ class PrepackedCache final {
   };
 
   friend bool operator==(const Key& a, const Key& b) {
-    return a.src_data == b.src_data && a.packed_layout == b.packed_layout &&
-           a.zero_point == b.zero_point;
+    return a.src_data == b.src_data && a.src_layout == b.src_layout &&
+           a.packed_layout == b.packed_layout && a.zero_point == b.zero_point;
   }
 
   struct KeyHash {
@@ -109,13 +115,15 @@ class PrepackedCache final {
   // This is the method by which new matrices are cached, and existing cache
   // entries are queried.
   // `src_data` is the source matrix data pointer.
+  // `src_layout` is the source matrix layout.
   // `packed_matrix` is a packed matrix structure where all fields have already
   // been populated, except for the `data` and `sums` pointers which have not
   // yet been allocated.
   //
   // This method:
-  // 1. Queries the cache for an entry matching the given `src_data` pointer and
-  //    the relevant fields of `packed_matrix`, particularly its `layout`.
+  // 1. Queries the cache for an entry matching the given `src_data` pointer,
+  //    the given `src_layout` and the relevant fields of `packed_matrix`,
+  //    particularly its `layout`.
   // 2. If a matching cache entry does not exist, it is created and inserted
   //    into the cache, and its `data` and `sums` buffers are allocated.
   // 3. The `packed_matrix` has its `data` and `sums` pointers set to point
@@ -124,7 +132,13 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
-  Action Get(const void* src_data, PEMat* packed_matrix);
+  Action Get(const void* src_data, const MatLayout& src_layout,
+             PEMat* packed_matrix);
+
+  // Overload for when all uses of given source data have the same layout.
+  Action Get(const void* src_data, PEMat* packed_matrix) {
+    return Get(src_data, MatLayout(), packed_matrix);
+  }
 
  private:
   void EjectOne();
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 095b5e0..1fbb08d 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,7 +74,8 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
-      auto action = cache->Get(params->src[side].data, &packed_matrix);
+      auto action = cache->Get(params->src[side].data,
+                               params->src[side].layout, &packed_matrix);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From 4ad4e53f4931ed376a0ca9939ca1197c5b413d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:40:56 +0000
Subject: [PATCH 7/8] fix: do not eject the cached LHS to cache the RHS of the
 same multiplication

With both operands cached and together larger than the cache, obtaining the
RHS ejected the LHS just obtained, and the multiplication used its freed
buffers. The RHS then uses the scratch allocator instead.
---
 ruy/prepacked_cache.h          |  3 +++
 ruy/prepare_packed_matrices.cc | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index 610eb60..41f3de2 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -109,6 +109,9 @@ class PrepackedCache final {
   // Returns the total size in bytes of buffers held in this cache.
   std::ptrdiff_t BuffersBytes() const { return buffers_bytes_; }
 
+  // Returns the size in bytes above which entries are ejected.
+  std::ptrdiff_t MaxBuffersBytes() const { return max_buffers_bytes_; }
+
   // Returns the number of packed matrices held in this cache.
   int MatrixCount() const { return cache_.size(); }
 
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 1fbb08d..f297129 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -15,6 +15,8 @@ limitations under the License.
 
 #include "ruy/prepare_packed_matrices.h"
 
+#include <cstddef>
+
 #include "ruy/allocator.h"
 #include "ruy/check_macros.h"
 #include "ruy/ctx.h"
@@ -65,13 +67,31 @@ bool ShouldCache(const TrMulParams& params, Side side) {
   }
 }
 
+// Size in bytes of the buffers of a packed matrix held in the cache.
+std::ptrdiff_t PackedBytes(const PEMat& packed_matrix) {
+  return DataBytes(packed_matrix) + (packed_matrix.sums_type.is_floating_point
+                                         ? 0
+                                         : SumsBytes(packed_matrix));
+}
+
+// Both packed matrices are used at the same time. Returns true if the RHS may
+// be cached without ejecting the LHS, when that is a cached packed matrix.
+bool HasRoomForRhs(const TrMulParams& params, const PrepackedCache& cache) {
+  return !params.is_prepacked[Side::kLhs] ||
+         PackedBytes(params.packed_matrix[Side::kLhs]) +
+                 PackedBytes(params.packed_matrix[Side::kRhs]) <=
+             cache.MaxBuffersBytes();
+}
+
 }  // namespace
 
 void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
   RUY_TRACE_SCOPE;
   for (Side side : {Side::kLhs, Side::kRhs}) {
     PEMat& packed_matrix = params->packed_matrix[side];
-    if (ShouldCache(*params, side)) {
+    if (ShouldCache(*params, side) &&
+        (side == Side::kLhs ||
+         HasRoomForRhs(*params, *ctx->GetPrepackedCache()))) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
       auto action = cache->Get(params->src[side].data,
-- 
2.43.0


From 7116e48ff30d40d509c47d1a85f14d22e07e3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:17:38 +0000
Subject: [PATCH 8/8] fix: compute matrix offsets in 64 bits

Offsets of the form stride * index were computed in int and overflowed for
operands spanning more than 2^31 entries. Such multiplications gave wrong
results or crashed.
---
 ruy/kernel_common.h | 19 ++++++++----
 ruy/mat.h           | 16 ++++++-----
 ruy/matrix.h        |  8 ++++--
 ruy/pack_common.h   | 12 +++++---
 ruy/pack_x86.h      | 70 ++++++++++++++++++++++++++++++++-------------
 5 files changed, 85 insertions(+), 40 deletions(-)

diff --git a/ruy/kernel_common.h b/ruy/kernel_common.h
index 69e819b..3f404c8 100644
--- a/ruy/kernel_common.h
+++ b/ruy/kernel_common.h
@@ -17,6 +17,7 @@ limitations under the License.
 #define RUY_RUY_KERNEL_COMMON_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <type_traits>
 
@@ -146,9 +147,11 @@ void MakeKernelParams8bit(const PMat<std::int8_t>& lhs,
   RUY_DCHECK_EQ(end_row % LhsCols, 0);
   RUY_DCHECK_EQ(end_col % RhsCols, 0);
 
-  params->lhs_base_ptr = lhs.data + start_row * lhs.layout.stride;
+  params->lhs_base_ptr =
+      lhs.data + static_cast<std::ptrdiff_t>(lhs.layout.stride) * start_row;
   params->rhs_scalar_size = sizeof(RhsScalar);
-  params->rhs_base_ptr = rhs.data + start_col * rhs.layout.stride;
+  params->rhs_base_ptr =
+      rhs.data + static_cast<std::ptrdiff_t>(rhs.layout.stride) * start_col;
   params->flags = 0;
   params->bias = params->zero_data;
   if (mul_params.bias()) {
@@ -204,7 +207,8 @@ void MakeKernelParams8bit(const PMat<std::int8_t>& lhs,
 
   params->dst_type_id = DstTypeId<DstScalar>::kValue;
   params->dst_base_ptr =
-      dst->data.get() + start_col * dst->layout.stride + start_row;
+      dst->data.get() +
+      static_cast<std::ptrdiff_t>(dst->layout.stride) * start_col + start_row;
 
   // Temporary release-asserts to debug some crashes in an application.
   RUY_CHECK(params->multiplier_fixedpoint);
@@ -248,10 +252,13 @@ inline void MakeKernelParamsFloat(const PMat<float>& lhs,
   RUY_DCHECK_EQ(end_row % LhsCols, 0);
   RUY_DCHECK_EQ(end_col % RhsCols, 0);
 
-  params->lhs_base_ptr = lhs.data + start_row * lhs.layout.stride;
-  params->rhs_base_ptr = rhs.data + start_col * rhs.layout.stride;
+  params->lhs_base_ptr =
+      lhs.data + static_cast<std::ptrdiff_t>(lhs.layout.stride) * start_row;
+  params->rhs_base_ptr =
+      rhs.data + static_cast<std::ptrdiff_t>(rhs.layout.stride) * start_col;
   params->dst_base_ptr =
-      dst->data.get() + start_col * dst->layout.stride + start_row;
+      dst->data.get() +
+      static_cast<std::ptrdiff_t>(dst->layout.stride) * start_col + start_row;
 
   std::uint8_t flags = 0;
   params->bias = params->zero_data;
diff --git a/ruy/mat.h b/ruy/mat.h
index 13d8216..6a11d72 100644
--- a/ruy/mat.h
+++ b/ruy/mat.h
@@ -361,7 +361,7 @@ inline std::ptrdiff_t FlatSize(const PMatLayout& layout) {
 }
 
 // TODO(b/130417400) add a unit test
-inline int Offset(const MatLayout& layout, int row, int col) {
+inline std::ptrdiff_t Offset(const MatLayout& layout, int row, int col) {
   // TODO(benoitjacob)  - should check this but this make the _slow tests take
   // 5x longer.  Find a mitigation like in Eigen with an 'internal' variant
   // bypassing the check?
@@ -369,22 +369,24 @@ inline int Offset(const MatLayout& layout, int row, int col) {
   // RUY_DCHECK_GE(col, 0);
   // RUY_DCHECK_LT(row, layout.rows);
   // RUY_DCHECK_LT(col, layout.cols);
-  int row_stride = layout.order == Order::kColMajor ? 1 : layout.stride;
-  int col_stride = layout.order == Order::kRowMajor ? 1 : layout.stride;
+  const std::ptrdiff_t row_stride =
+      layout.order == Order::kColMajor ? 1 : layout.stride;
+  const std::ptrdiff_t col_stride =
+      layout.order == Order::kRowMajor ? 1 : layout.stride;
   return row * row_stride + col * col_stride;
 }
 
 // TODO(b/130417400) add a unit test
-inline int Offset(const PMatLayout& layout, int row, int col) {
+inline std::ptrdiff_t Offset(const PMatLayout& layout, int row, int col) {
   RUY_DCHECK(is_pot(layout.kernel.rows));
   RUY_DCHECK(is_pot(layout.kernel.cols));
   int row_outer = row & ~(layout.kernel.rows - 1);
   int col_outer = col & ~(layout.kernel.cols - 1);
-  int row_stride_outer =
+  const std::ptrdiff_t row_stride_outer =
       layout.order == Order::kColMajor ? layout.kernel.cols : layout.stride;
-  int col_stride_outer =
+  const std::ptrdiff_t col_stride_outer =
       layout.order == Order::kRowMajor ? layout.kernel.rows : layout.stride;
-  int offset_outer =
+  const std::ptrdiff_t offset_outer =
       row_outer * row_stride_outer + col_outer * col_stride_outer;
   int row_inner = row - row_outer;
   int col_inner = col - col_outer;
diff --git a/ruy/matrix.h b/ruy/matrix.h
index c9353e6..6906936 100644
--- a/ruy/matrix.h
+++ b/ruy/matrix.h
@@ -185,7 +185,7 @@ StreamType& operator<<(StreamType& stream, const Matrix<Scalar>& mat) {
 }
 
 // TODO(b/130417400) add a unit test
-inline int Offset(const Layout& layout, int row, int col) {
+inline std::ptrdiff_t Offset(const Layout& layout, int row, int col) {
   // TODO(benoitjacob)  - should check this but this make the _slow tests take
   // 5x longer.  Find a mitigation like in Eigen with an 'internal' variant
   // bypassing the check?
@@ -193,8 +193,10 @@ inline int Offset(const Layout& layout, int row, int col) {
   // RUY_DCHECK_GE(col, 0);
   // RUY_DCHECK_LT(row, layout.rows());
   // RUY_DCHECK_LT(col, layout.cols());
-  int row_stride = layout.order() == Order::kColMajor ? 1 : layout.stride();
-  int col_stride = layout.order() == Order::kRowMajor ? 1 : layout.stride();
+  const std::ptrdiff_t row_stride =
+      layout.order() == Order::kColMajor ? 1 : layout.stride();
+  const std::ptrdiff_t col_stride =
+      layout.order() == Order::kRowMajor ? 1 : layout.stride();
   return row * row_stride + col * col_stride;
 }
 
diff --git a/ruy/pack_common.h b/ruy/pack_common.h
index 8f07658..6e2c653 100644
--- a/ruy/pack_common.h
+++ b/ruy/pack_common.h
@@ -17,6 +17,7 @@ limitations under the License.
 #define RUY_RUY_PACK_COMMON_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <cstring>
 #include <limits>
@@ -111,10 +112,13 @@ struct MemcpyRowMajorFloatPackImpl {
     for (int block_row = 0; block_row < src_matrix.layout.rows;
          block_row += 1) {
       const float* src_ptr =
-          src_matrix.data.get() + src_stride * block_row + start_col;
-      float* packed_ptr = packed_matrix->data +
-                          packed_matrix->layout.stride * start_col +
-                          KernelCols * block_row;
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_row + start_col;
+      float* packed_ptr =
+          packed_matrix->data +
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              start_col +
+          KernelCols * block_row;
       int src_cols = std::min(end_col, src_matrix.layout.cols) - start_col;
       int col = 0;
       for (; col <= src_cols - KernelCols; col += KernelCols) {
diff --git a/ruy/pack_x86.h b/ruy/pack_x86.h
index a28bbc9..2895ee0 100644
--- a/ruy/pack_x86.h
+++ b/ruy/pack_x86.h
@@ -17,6 +17,7 @@ limitations under the License.
 #define RUY_RUY_PACK_X86_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <cstring>
 #include <type_traits>
@@ -89,13 +90,16 @@ struct PackImpl<Path::kAvx2Fma, FixedKernelLayout<Order::kColMajor, 4, 8>,
          block_col += Layout::kCols) {
       std::int32_t* sums_ptr = sums ? sums + block_col : nullptr;
       int src_stride = src_matrix.layout.stride;
-      const Scalar* src_ptr = src_matrix.data.get() + src_stride * block_col;
+      const Scalar* src_ptr =
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       std::int8_t* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       Pack8bitColMajorForAvx2(
           reinterpret_cast<const std::int8_t*>(src_ptr), kInputXor,
           reinterpret_cast<const std::int8_t*>(zerobuf), src_stride,
@@ -136,13 +140,16 @@ struct PackImpl<Path::kAvx, FixedKernelLayout<Order::kColMajor, 4, 8>, Scalar,
          block_col += Layout::kCols) {
       std::int32_t* sums_ptr = sums ? sums + block_col : nullptr;
       int src_stride = src_matrix.layout.stride;
-      const Scalar* src_ptr = src_matrix.data.get() + src_stride * block_col;
+      const Scalar* src_ptr =
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       std::int8_t* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       Pack8bitColMajorForAvx(
           reinterpret_cast<const std::int8_t*>(src_ptr), kInputXor,
           reinterpret_cast<const std::int8_t*>(zerobuf), src_stride,
@@ -172,13 +179,16 @@ struct PackImpl<Path::kAvx, FixedKernelLayout<Order::kRowMajor, 1, 8>, float,
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
       int src_stride = src_matrix.layout.stride;
-      const float* src_ptr = src_matrix.data.get() + src_stride * block_col;
+      const float* src_ptr =
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       float* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       PackFloatColMajorForAvx(src_ptr, zerobuf, src_stride, remaining_src_cols,
                               src_matrix.layout.rows, packed_ptr);
     }
@@ -206,13 +216,16 @@ struct PackImpl<Path::kAvx2Fma, FixedKernelLayout<Order::kRowMajor, 1, 8>,
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
       int src_stride = src_matrix.layout.stride;
-      const float* src_ptr = src_matrix.data.get() + src_stride * block_col;
+      const float* src_ptr =
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       float* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       PackFloatColMajorForAvx2(src_ptr, zerobuf, src_stride, remaining_src_cols,
                                src_matrix.layout.rows, packed_ptr);
     }
@@ -257,13 +270,16 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kColMajor, 4, 16>,
          block_col += Layout::kCols) {
       std::int32_t* sums_ptr = sums ? sums + block_col : nullptr;
       int src_stride = src_matrix.layout.stride;
-      const Scalar* src_ptr = src_matrix.data.get() + src_stride * block_col;
+      const Scalar* src_ptr =
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       std::int8_t* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       Pack8bitColMajorForAvx512(
           reinterpret_cast<const std::int8_t*>(src_ptr), kInputXor,
           reinterpret_cast<const std::int8_t*>(zerobuf), src_stride,
@@ -304,13 +320,15 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kColMajor, 4, 16>,
       std::int32_t* sums_ptr = sums ? sums + block_col : nullptr;
       int src_stride = src_matrix.layout.stride;
       const std::int16_t* src_ptr =
-          src_matrix.data.get() + src_stride * block_col;
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);
       std::int16_t* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       Pack16bitColMajorForAvx512(src_ptr, zerobuf, src_stride,
                                  remaining_src_cols, src_matrix.layout.rows,
                                  packed_ptr, sums_ptr);
@@ -338,13 +356,16 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kRowMajor, 1, 16>,
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
       int src_stride = src_matrix.layout.stride;
-      const float* src_ptr = src_matrix.data.get() + src_stride * block_col;
+      const float* src_ptr =
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       float* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       PackFloatColMajorForAvx512(src_ptr, zerobuf, src_stride,
                                  remaining_src_cols, src_matrix.layout.rows,
                                  packed_ptr);
@@ -375,9 +396,12 @@ struct PackImpl<Path::kAvx2Fma, FixedKernelLayout<Order::kColMajor, 4, 8>,
       int src_stride = src_matrix.layout.stride;
       int packed_stride = packed_matrix->layout.stride;
       const Scalar* src_ptr =
-          src_matrix.data.get() + block_row * src_stride + start_col;
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_row + start_col;
       std::int8_t* packed_ptr =
-          packed_matrix->data + start_col * packed_stride + block_row * 8;
+          packed_matrix->data +
+          static_cast<std::ptrdiff_t>(packed_stride) * start_col +
+          block_row * 8;
       Pack8bitRowMajorForAvx2(reinterpret_cast<const std::uint8_t*>(src_ptr),
                               src_stride, src_matrix.zero_point, packed_ptr,
                               packed_stride, start_col, end_col,
@@ -410,9 +434,12 @@ struct PackImpl<Path::kAvx, FixedKernelLayout<Order::kColMajor, 4, 8>, Scalar,
       int src_stride = src_matrix.layout.stride;
       int packed_stride = packed_matrix->layout.stride;
       const Scalar* src_ptr =
-          src_matrix.data.get() + block_row * src_stride + start_col;
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_row + start_col;
       std::int8_t* packed_ptr =
-          packed_matrix->data + start_col * packed_stride + block_row * 8;
+          packed_matrix->data +
+          static_cast<std::ptrdiff_t>(packed_stride) * start_col +
+          block_row * 8;
       Pack8bitRowMajorForAvx(reinterpret_cast<const std::uint8_t*>(src_ptr),
                              src_stride, src_matrix.zero_point, packed_ptr,
                              packed_stride, start_col, end_col,
@@ -445,9 +472,12 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kColMajor, 4, 16>,
       int src_stride = src_matrix.layout.stride;
       int packed_stride = packed_matrix->layout.stride;
       const Scalar* src_ptr =
-          src_matrix.data.get() + block_row * src_stride + start_col;
+          src_matrix.data.get() +
+          static_cast<std::ptrdiff_t>(src_stride) * block_row + start_col;
       std::int8_t* packed_ptr =
-          packed_matrix->data + start_col * packed_stride + block_row * 16;
+          packed_matrix->data +
+          static_cast<std::ptrdiff_t>(packed_stride) * start_col +
+          block_row * 16;
       Pack8bitRowMajorForAvx512(reinterpret_cast<const std::uint8_t*>(src_ptr),
                                 src_stride, src_matrix.zero_point, packed_ptr,
                                 packed_stride, start_col, end_col,
-- 
2.43.0

