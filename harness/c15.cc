// How many threads a multiplication uses and which ranges they handle.
#include "trmul_unit.h"
#include "ruy/block_map.h"
#include "ruy/cpuinfo.h"
#include "ruy/thread_pool.h"

namespace {
bool run_tasks;
int batches;
std::int64_t task_count;

struct Range {
  int begin[2], end[2];
};
Range kernels[64];
int num_kernels;
Range packs[2][64];
int num_packs[2];
int width[2];

void Note(int side, int start, int end) {
  verif_assert((0 <= start) & (start < end) & (end <= width[side]), "packed range inside the operand");
  packs[side][num_packs[side]].begin[0] = start;
  packs[side][num_packs[side]].end[0] = end;
  ++num_packs[side];
}
void PackLhs(ruy::Tuning, const ruy::EMat&, ruy::PEMat*, int start, int end) { Note(0, start, end); }
void PackRhs(ruy::Tuning, const ruy::EMat&, ruy::PEMat*, int start, int end) { Note(1, start, end); }
void Kernel(ruy::Tuning, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>& start,
            const ruy::SidePair<int>& end, ruy::EMat*) {
  Range& r = kernels[num_kernels++];
  for (int s = 0; s < 2; s++) {
    const ruy::Side side = s ? ruy::Side::kRhs : ruy::Side::kLhs;
    r.begin[s] = start[side];
    r.end[s] = end[side];
    verif_assert((0 <= r.begin[s]) & (r.begin[s] < r.end[s]) & (r.end[s] <= width[s]), "computed range inside the operand");
  }
}
}  // namespace

namespace ruy {
// Stands for the pool: notes the number of tasks and runs them in turn.
void ThreadPool::ExecuteImpl(int count, int stride, Task* tasks) {
  ++batches;
  task_count = count;
  if (!run_tasks) return;
  const int first = count > 1 ? verif_fork(verif_range32("first", 0, count - 1)) : 0;
  for (int i = 0; i < count; i++) {
    const int t = (first + i) % count;
    reinterpret_cast<Task*>(reinterpret_cast<char*>(tasks) + t * stride)->Run();
  }
}
ThreadPool::~ThreadPool() {}
}  // namespace ruy

// The number of threads, for any shape.
extern "C" void c15_threads() {
  const int kl = verif_cfg("kl"), kr = verif_cfg("kr");
  const std::int64_t r0 = verif_cfg("rows_min"), r1 = verif_cfg("rows_max");
  const std::int64_t c0 = verif_cfg("cols_min"), c1 = verif_cfg("cols_max");
  const int rows = verif_range32("rows", r0, r1);
  const int cols = verif_range32("cols", c0, c1);
  const int depth = verif_range32("depth", verif_cfg("depth_min"), verif_cfg("depth_max"));
  const int limit = verif_cfg("limit");
  const bool force = verif_cfg("force");
  {
    ruy::Context context;
    context.set_max_num_threads(limit);
    if (force) context.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
    ruy::TrMulParams params;
    DescribeTrMul(&params, rows, cols, depth, kl, kr, verif_cfg("size"), verif_cfg("size"), PackLhs, PackRhs, Kernel);
    width[0] = params.packed_matrix[ruy::Side::kLhs].layout.cols;
    width[1] = params.packed_matrix[ruy::Side::kRhs].layout.cols;
    ruy::TrMul(ruy::get_ctx(&context), &params);
    const std::int64_t work = std::int64_t{rows} * cols * depth;
    if (batches) {
      verif_reach("blocked");
      verif_assert((task_count >= 1) & (task_count <= limit), "no more threads than the limit");
      verif_assert(force | (task_count == 1) | (work >= 2 * 32768), "small problems use a single thread");
      verif_assert(task_count <= std::int64_t{width[0] / kl} * (width[1] / kr), "no more threads than tiles");
      if (force) {
        ruy::BlockMap block_map;
        const int size = verif_cfg("size");
        ruy::MakeBlockMap(width[0], width[1], depth, kl, kr, size, size, limit,
                          ruy::get_ctx(&context)->mutable_cpuinfo()->CacheParams(), &block_map);
        verif_assert(task_count == (limit < NumBlocks(block_map) ? limit : NumBlocks(block_map)),
                     "as many threads as the tiling allows");
      }
    } else {
      verif_reach("simple");
      verif_assert((num_kernels == 1) & (num_packs[0] == 1) & (num_packs[1] == 1), "one pass over the operands");
      for (int s = 0; s < 2; s++) {
        verif_assert((kernels[0].begin[s] == 0) & (kernels[0].end[s] == width[s]), "everything is computed");
        verif_assert((packs[s][0].begin[0] == 0) & (packs[s][0].end[0] == width[s]), "everything is packed");
      }
      verif_assert(!force | (limit == 1), "forced threads are used");
    }
  }
  verif_reach("end");
}

// The ranges of a blocked execution.
extern "C" void c15_ranges() {
  run_tasks = true;
  const int kl = verif_cfg("kl"), kr = verif_cfg("kr");
  {
    ruy::Context context;
    context.set_max_num_threads(verif_cfg("limit"));
    context.set_num_threads_strategy(verif_cfg("force") ? ruy::NumThreadsStrategy::kForceMaxNumThreads
                                                        : ruy::NumThreadsStrategy::kDefault);
    ruy::TrMulParams params;
    DescribeTrMul(&params, verif_cfg("rows"), verif_cfg("cols"), verif_cfg("depth"), kl, kr, verif_cfg("size"),
                  verif_cfg("size"), PackLhs, PackRhs, Kernel);
    width[0] = params.packed_matrix[ruy::Side::kLhs].layout.cols;
    width[1] = params.packed_matrix[ruy::Side::kRhs].layout.cols;
    ruy::MulFrontEndFromTrMulParams(ruy::get_ctx(&context), &params);
  }
  // any entry of the kernel-rounded destination is computed once, any entry of
  // the operands is packed once
  const int at[2] = {verif_range32("row", 0, width[0] - 1), verif_range32("col", 0, width[1] - 1)};
  int computed = 0;
  for (int i = 0; i < num_kernels; i++) {
    computed += (kernels[i].begin[0] <= at[0]) & (at[0] < kernels[i].end[0]) & (kernels[i].begin[1] <= at[1]) &
                (at[1] < kernels[i].end[1]);
  }
  verif_assert(computed == 1, "every entry is computed once");
  for (int s = 0; s < 2; s++) {
    int packed = 0;
    for (int i = 0; i < num_packs[s]; i++) {
      packed += (packs[s][i].begin[0] <= at[s]) & (at[s] < packs[s][i].end[0]);
    }
    verif_assert(packed == 1, "every entry is packed once");
  }
  if (num_kernels > 1) verif_reach("several blocks");
  verif_reach("end ranges");
}
