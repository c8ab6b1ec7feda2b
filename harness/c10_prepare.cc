// Obtaining the packed operands of a multiplication: from the cache when asked,
// from scratch memory otherwise.
#include "ruy/allocator.h"
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/prepacked_cache.h"
#include "ruy/prepare_packed_matrices.h"
#include "ruy/trmul_params.h"
#include "sysmodel.h"
#include "verif.h"

namespace {
struct Packed {
  const void* data;
  const void* src;
};
Packed packs[8];
int num_packs;

void Pack(ruy::Tuning, const ruy::EMat& src, ruy::PEMat* packed, int start, int end) {
  verif_assert((start == 0) & (end == packed->layout.cols), "the whole operand is packed");
  packs[num_packs].data = packed->data;
  packs[num_packs].src = src.data;
  ++num_packs;
}

bool Inside(const void* p, std::int64_t n) {
  const std::uint64_t v = reinterpret_cast<std::uint64_t>(p);
  bool ok = false;
  for (int i = 0; i < num_blocks; i++) {
    ok = ok | (blocks[i].live & (v >= blocks[i].base) & (v + n <= blocks[i].base + blocks[i].size));
  }
  return ok;
}
}  // namespace

extern "C" void c10_prepare() {
  const int n = verif_cfg("calls");
  const int log2 = verif_cfg("log2cols");
  const bool floating = verif_cfg("float");
  DrawSystem(4 * n + 2);
  std::uint64_t srcs[4][2];
  int widths[4][2], policies[4][2];
  for (int i = 0; i < n; i++) {
    for (int s = 0; s < 2; s++) {
      srcs[i][s] = 4096 * (verif_range32("src", 1, 2) + 2 * s);
      widths[i][s] = verif_range32("width", 1, 1 << log2);
      policies[i][s] = verif_range32("policy", 0, 3);
    }
  }
  const int kernel[2] = {static_cast<int>(verif_cfg("kl")), static_cast<int>(verif_cfg("kr"))};
  const int depth = verif_cfg("depth");
  {
    ruy::Context context;
    ruy::Ctx* ctx = ruy::get_ctx(&context);
    for (int i = 0; i < n; i++) {
      ruy::TrMulParams params;
      for (ruy::Side side : {ruy::Side::kLhs, ruy::Side::kRhs}) {
        const int s = side == ruy::Side::kLhs ? 0 : 1;
        ruy::EMat& src = params.src[side];
        ruy::PEMat& packed = params.packed_matrix[side];
        src.data_type = floating ? ruy::Type::Create<float>() : ruy::Type::Create<std::int8_t>();
        src.data = reinterpret_cast<void*>(srcs[i][s]);
        src.layout.rows = depth;
        src.layout.cols = widths[i][s];
        src.layout.stride = depth;
        src.layout.order = ruy::Order::kColMajor;
        src.cache_policy = static_cast<ruy::CachePolicy>(policies[i][s]);
        packed.data_type = src.data_type;
        packed.sums_type = floating ? ruy::Type::Create<float>() : ruy::Type::Create<std::int32_t>();
        packed.layout.rows = depth;
        packed.layout.cols = (widths[i][s] + kernel[s] - 1) & ~(kernel[s] - 1);
        packed.layout.stride = depth;
        packed.layout.order = ruy::Order::kColMajor;
        packed.layout.kernel.rows = 1;
        packed.layout.kernel.cols = kernel[s];
        params.run_pack[side] = Pack;
      }
      const int before = num_packs;
      ruy::PreparePackedMatrices(ctx, &params);
      bool asked[2];
      std::int64_t bytes[2];
      for (int s = 0; s < 2; s++) {
        const ruy::Side side = s ? ruy::Side::kRhs : ruy::Side::kLhs;
        const ruy::PEMat& packed = params.packed_matrix[side];
        const int policy = policies[i][s], other = widths[i][1 - s], kw = kernel[1 - s];
        asked[s] = (policy == 3) | ((policy == 1) & (other <= kw)) | ((policy == 2) & (other <= 4 * kw));
        bytes[s] = std::int64_t{depth} * packed.layout.cols * (floating ? 4 : 1);
        verif_assert(params.is_prepacked[side] <= asked[s], "an operand not asked to be cached is not kept");
      }
      int known = 0;
      for (int s = 0; s < 2; s++) {
        const ruy::Side side = s ? ruy::Side::kRhs : ruy::Side::kLhs;
        const ruy::PEMat& packed = params.packed_matrix[side];
        verif_assert(Inside(packed.data, bytes[s]), "the packed operand has live memory");
        if (!floating) verif_assert(Inside(packed.sums, 4 * packed.layout.cols), "the sums have live memory");
        int packings = 0;
        bool right = false;
        for (int p = 0; p < num_packs; p++) {
          const bool it = (packs[p].data == packed.data) & params.is_prepacked[side];
          packings += it;
          right = it ? packs[p].src == params.src[side].data : right;
        }
        if (params.is_prepacked[side]) {
          verif_reach("cached");
          verif_assert(packings >= 1, "a cached operand is packed before use");
          verif_assert(right, "a cached operand was packed from the same data");
          ++known;
        }
      }
      verif_assert(num_packs - before <= known, "scratch operands are packed later");
      verif_assert((params.packed_matrix[ruy::Side::kLhs].data != params.packed_matrix[ruy::Side::kRhs].data) |
                       (srcs[i][0] == srcs[i][1]),
                   "operands do not share memory");
      ctx->GetMainAllocator()->FreeAll();
    }
  }
  for (int b = 0; b < num_blocks; b++) verif_assert(!blocks[b].live, "everything is freed at the end");
  verif_reach("end prepare");
}
