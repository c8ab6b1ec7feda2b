// One multiplication on several threads: the tasks handed to the pool run
// concurrently, the packing and computation routines only report what they do.
#include "trmul_unit.h"
#include "concurrent.h"
#include "ruy/block_map.h"
#include "ruy/cpuinfo.h"
#include "ruy/thread_pool.h"

namespace {
char* tasks_begin;
int task_stride;

void PackLhs(ruy::Tuning, const ruy::EMat&, ruy::PEMat*, int start, int end) { verif_event(kPackLhs, start, end, 0, 0); }
void PackRhs(ruy::Tuning, const ruy::EMat&, ruy::PEMat*, int start, int end) { verif_event(kPackRhs, start, end, 0, 0); }
void Kernel(ruy::Tuning, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>& start,
            const ruy::SidePair<int>& end, ruy::EMat*) {
  verif_event(kKernel, start[ruy::Side::kLhs], end[ruy::Side::kLhs], start[ruy::Side::kRhs], end[ruy::Side::kRhs]);
}
}  // namespace

extern "C" void verif_thread(int i) { reinterpret_cast<ruy::Task*>(tasks_begin + i * task_stride)->Run(); }

namespace ruy {
// Stands for the pool: all tasks run concurrently.
void ThreadPool::ExecuteImpl(int count, int stride, Task* tasks) {
  tasks_begin = reinterpret_cast<char*>(tasks);
  task_stride = stride;
  verif_parallel(count);
}
ThreadPool::~ThreadPool() {}
}  // namespace ruy

extern "C" void c06() {
  const int kl = verif_cfg("kl"), kr = verif_cfg("kr");
  const int size = verif_cfg("size");
  {
    ruy::Context context;
    context.set_max_num_threads(verif_cfg("threads"));
    context.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
    ruy::TrMulParams params;
    DescribeTrMul(&params, verif_cfg("rows"), verif_cfg("cols"), verif_cfg("depth"), kl, kr, size, size, PackLhs, PackRhs,
                  Kernel);
    params.is_prepacked[ruy::Side::kLhs] = verif_cfg("prepacked") & 1;
    params.is_prepacked[ruy::Side::kRhs] = verif_cfg("prepacked") & 2;
    verif_domain(0, params.packed_matrix[ruy::Side::kLhs].layout.cols, params.is_prepacked[ruy::Side::kLhs]);
    verif_domain(1, params.packed_matrix[ruy::Side::kRhs].layout.cols, params.is_prepacked[ruy::Side::kRhs]);
    ruy::TrMul(ruy::get_ctx(&context), &params);
  }
}
