// The floating-point control state of the pool's threads and of the caller.
#include <immintrin.h>

#include "concurrent.h"
#include "ruy/thread_pool.h"
#include "verif.h"

namespace {
unsigned state;
unsigned found[3];
struct Look : ruy::Task {
  int i;
  void Run() override { found[i] = _mm_getcsr(); }
};
}  // namespace

extern "C" void verif_thread(int) {
  const int first = verif_cfg("first");
  const unsigned original = _mm_getcsr();
  {
    ruy::ThreadPool pool;
    pool.set_spin_milliseconds(0);
    Look tasks[3];
    for (int i = 0; i < 3; i++) tasks[i].i = i;
    for (int b = 0; b <= verif_cfg("again"); b++) {
      for (int i = 0; i < 3; i++) found[i] = 0;
      _mm_setcsr(state);
      pool.Execute(first, tasks);
      const unsigned after = _mm_getcsr();
      _mm_setcsr(original);
      verif_assert((after & ~0x3fu) == (state & ~0x3fu), "control state of the caller kept");
      // One task may run on the calling thread, which a multiplication has prepared.
      int prepared = 0;
      for (int i = 0; i < first; i++) prepared += (found[i] & 0x8040) == 0x8040;
      verif_assert(prepared >= first - 1, "denormals are suppressed in every worker");
    }
  }
}

extern "C" void c13_worker() {
  state = (verif_range32("mxcsr", 0, 0xffff) & ~0x1f80u) | 0x1f80u;
  verif_parallel(1);
}
