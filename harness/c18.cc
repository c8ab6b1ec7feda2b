// Resolution of the tuning over histories of calls at arbitrary times on a CPU
// that may change between them.
#include <time.h>

#include "cpuinfo_any.h"
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"
#include "ruy/tune.h"
#include "verif.h"

namespace {
std::int64_t now_s, now_ns;

ruy::Tuning Detected() {
  if (!any_machine.init_ok || any_machine.no_uarch) return ruy::Tuning::kGeneric;
  switch (any_machine.uarch.uarch) {
    case cpuinfo_uarch_cortex_a53:
    case cpuinfo_uarch_cortex_a55r0:
    case cpuinfo_uarch_cortex_a55:
      return ruy::Tuning::kA55ish;
    case cpuinfo_uarch_cortex_x1:
      return ruy::Tuning::kX1;
    default:
      return ruy::Tuning::kGeneric;
  }
}
}  // namespace

extern "C" int verif_clock_gettime(clockid_t, struct timespec* t) {
  t->tv_sec = now_s;
  t->tv_nsec = now_ns;
  return 0;
}

extern "C" void c18_history() {
  const int n = verif_cfg("calls");
  any_machine.init_ok = verif_bool("init_ok");
  any_machine.processors = 1;
  any_machine.processor[0].core = &any_machine.core[0];
  any_machine.processor[0].cache.l1d = &any_machine.cache[0][0];
  any_machine.cache[0][0].size = 32768;
  any_machine.cache[0][0].processor_count = 1;

  ruy::CpuInfo info;
  ruy::TuningResolver resolver;
  ruy::Context context;
  const bool through_context = verif_cfg("context");
  std::int64_t times[8];
  int detected[8];
  bool automatic[8];
  for (int i = 0; i < n; i++) {
    now_s = verif_cfg("base_s") + verif_range64("s", 0, 3);
    now_ns = verif_range64("ns", 0, 999999999);
    times[i] = now_s * 1000000000 + now_ns;
    if (i) verif_assume(times[i] >= times[i - 1]);
    any_machine.no_uarch = verif_bool("no_uarch");
    any_machine.uarch.uarch = static_cast<cpuinfo_uarch>(verif_i32("uarch"));
    const int choice = verif_range32("explicit", 0, 3);
    const ruy::Tuning tuning = static_cast<ruy::Tuning>(choice);
    automatic[i] = tuning == ruy::Tuning::kAuto;
    ruy::Tuning got;
    if (through_context) {
      context.set_explicit_tuning(tuning);
      got = ruy::get_ctx(&context)->GetMainThreadTuning();
    } else {
      resolver.SetTuning(tuning);
      got = resolver.Resolve(&info);
    }
    verif_out("got", static_cast<int>(got));
    verif_assert(got != ruy::Tuning::kAuto, "never the placeholder");
    detected[i] = static_cast<int>(Detected());
    // a value of the CPU at a detection less than 250 ms ago
    bool ok = false;
    for (int j = 0; j <= i; j++) {
      ok = ok | (automatic[j] & (times[i] - times[j] < 250000000) & (detected[j] == static_cast<int>(got)));
    }
    verif_assert(automatic[i] ? ok : got == tuning, "explicit tuning, or one detected within the expiry period");
  }
  verif_reach("end");
}
