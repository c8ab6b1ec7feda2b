// Batches of tasks on a pool, then its destruction.
#include "concurrent.h"
#include "ruy/thread_pool.h"
#include "verif.h"

namespace {
int runs[4];
struct Count : ruy::Task {
  int i;
  void Run() override { ++runs[i]; }
};
}  // namespace

extern "C" void verif_thread(int) {
  const int size[2] = {static_cast<int>(verif_cfg("first")), static_cast<int>(verif_cfg("second"))};
  const int spin = verif_cfg("spin");
  {
    ruy::ThreadPool pool;
    pool.set_spin_milliseconds(spin);
    Count tasks[4];
    for (int i = 0; i < 4; i++) tasks[i].i = i;
    for (int b = 0; b < 2; b++) {
      if (!size[b]) break;
      pool.Execute(size[b], tasks);
      for (int i = 0; i < 3; i++) {
        verif_assert(runs[i] == (i < size[0]) + (b == 1 && i < size[1]), "every task has run once when the batch returns");
      }
    }
  }
  verif_reach("pool destroyed");
}

extern "C" void c07() { verif_parallel(1); }
