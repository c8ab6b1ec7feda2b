#include <cstdint>

#include "ruy/block_map.h"
#include "ruy/cpu_cache_params.h"
#include "verif.h"

using ruy::BlockMap;
using ruy::Side;
using ruy::SidePair;

namespace {
struct Problem {
  int rows, cols, depth, threads;
  BlockMap map;
  int nl, nr;
};

void Plan(Problem* p) {
  const int kr = verif_cfg("kr");
  const int kc = verif_cfg("kc");
  const int maxdim = verif_cfg("maxdim");
  const int row_tiles = verif_range32("row_tiles", verif_cfg("rlo"), verif_cfg("rhi"));
  const int col_tiles = verif_range32("col_tiles", verif_cfg("clo"), verif_cfg("chi"));
  p->rows = row_tiles * kr;
  p->cols = col_tiles * kc;
  p->depth = verif_range32("depth", 1, maxdim);
  p->threads = verif_range32("threads", 1, verif_cfg("maxthreads"));
  ruy::CpuCacheParams cache;
  cache.local_cache_size = verif_range32("local_cache", 1, 1 << 30);
  cache.last_level_cache_size = verif_range32("last_level_cache", 1, 1 << 30);
  verif_assume(cache.local_cache_size <= cache.last_level_cache_size);
  ruy::MakeBlockMap(p->rows, p->cols, p->depth, kr, kc, verif_cfg("lsize"), verif_cfg("rsize"), p->threads, cache,
                    &p->map);
  verif_generalize(&p->map, sizeof(p->map), "depth,threads,local_cache,last_level_cache");
  p->nl = verif_fork(NumBlocksPerSide(Side::kLhs, p->map));
  p->nr = verif_fork(NumBlocksPerSide(Side::kRhs, p->map));
  verif_simplify(&p->map, sizeof(p->map));
}
}  // namespace

// The tiling along one side: consecutive, non-empty, kernel-aligned, complete.
static void CheckSide(Side side, const Problem& p) {
  const int dim = side == Side::kLhs ? p.rows : p.cols;
  const int kernel = side == Side::kLhs ? verif_cfg("kr") : verif_cfg("kc");
  const int n = side == Side::kLhs ? p.nl : p.nr;
  verif_assert(n >= 1, "at least one block per side");
  int start, end;
  ruy::GetBlockMatrixCoords(side, p.map, 0, &start, &end);
  verif_assert(start == 0, "first block starts at 0");
  ruy::GetBlockMatrixCoords(side, p.map, n - 1, &start, &end);
  verif_assert(end == dim, "last block ends at the last entry");
  const int b = verif_range32(side == Side::kLhs ? "lhs_block" : "rhs_block", 0, n - 1);
  ruy::GetBlockMatrixCoords(side, p.map, b, &start, &end);
  verif_out("start", start);
  verif_out("end", end);
  verif_assert(start < end, "no empty block");
  verif_assert(start % kernel == 0 && end % kernel == 0, "block edges are kernel aligned");
  verif_assert(start >= 0 && end <= dim, "block inside the matrix");
  if (b + 1 < n) {
    int start2, end2;
    ruy::GetBlockMatrixCoords(side, p.map, b + 1, &start2, &end2);
    verif_assert(start2 == end, "consecutive blocks are adjacent");
  }
}

// The index -> block mapping is a bijection onto the grid.
static void CheckIndex(const Problem& p) {
  const int n = NumBlocks(p.map);
  verif_assert(static_cast<std::int64_t>(p.nl) * p.nr == n, "number of blocks");
  verif_assert(p.map.thread_count >= 1 && p.map.thread_count <= p.threads && p.map.thread_count <= n,
               "planned threads bounded by the request and the number of blocks");
  const int i = verif_range32("i", 0, n - 1);
  const int j = verif_range32("j", 0, n - 1);
  SidePair<int> bi, bj;
  ruy::GetBlockByIndex(p.map, i, &bi);
  ruy::GetBlockByIndex(p.map, j, &bj);
  verif_out("lhs", bi[Side::kLhs]);
  verif_out("rhs", bi[Side::kRhs]);
  verif_assert(bi[Side::kLhs] >= 0 && bi[Side::kLhs] < p.nl && bi[Side::kRhs] >= 0 && bi[Side::kRhs] < p.nr,
               "block index maps into the grid");
  verif_assert(i == j || bi[Side::kLhs] != bj[Side::kLhs] || bi[Side::kRhs] != bj[Side::kRhs],
               "distinct indices map to distinct blocks");
}

extern "C" void c05() {
  Problem p;
  Plan(&p);
  CheckSide(Side::kLhs, p);
  CheckSide(Side::kRhs, p);
  CheckIndex(p);
}
