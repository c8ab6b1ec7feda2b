// Clock under the control of the run: any non-decreasing sequence of times.
#include <time.h>

#include "verif.h"

extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
  static std::int64_t last = 0;
  if (verif_cfg("clock") == 0) {
    t->tv_sec = 1000;
    t->tv_nsec = 0;
    return 0;
  }
  const std::int64_t now = verif_range64("clock_ms", 0, std::int64_t{1} << 40);
  verif_assume(now >= last);
  last = now;
  t->tv_sec = now / 1000;
  t->tv_nsec = now % 1000 * 1000000;
  return 0;
}
