// The description of the machine, for every answer of the platform library.
#include "ruy/cpuinfo.h"

#include "cpuinfo_any.h"
#include "verif.h"

namespace {
int Core(int p) { return any_machine.processor[p].core - any_machine.core; }

// the cache takes part in the description
bool Valid(int p, int l) {
  const cpuinfo_cache& k = any_machine.cache[p][l];
  const int first = k.processor_start;
  const int last = first + static_cast<int>(k.processor_count) - 1;
  return any_machine.present[p][l] & (k.processor_count > 0) & (first < any_machine.processors) &
         (last < any_machine.processors);
}

bool Local(int p, int l) {
  const cpuinfo_cache& k = any_machine.cache[p][l];
  bool r = false;
  for (int a = 0; a < any_machine.processors; a++) {
    for (int b = 0; b < any_machine.processors; b++) {
      r = r | ((static_cast<int>(k.processor_start) == a) &
               (static_cast<int>(k.processor_start + k.processor_count) - 1 == b) & (Core(a) == Core(b)));
    }
  }
  return r;
}
}  // namespace

extern "C" void c17_caches() {
  const int n = verif_cfg("processors");
  any_machine.Draw(n);
  verif_assume(any_machine.processors == n);
  // sizes an int can hold, not decreasing with the level
  for (int p = 0; p < n; p++) {
    std::int64_t below = 1;
    for (int l = 0; l < 3; l++) {
      const std::int64_t size = any_machine.cache[p][l].size;
      verif_assume(size <= 0x7fffffff);
      verif_assume(!Valid(p, l) | (size >= below));
      below = Valid(p, l) ? size : below;
    }
  }
  bool ok = any_machine.init_ok;
  std::int64_t local = 0x7fffffff, last = 0x7fffffff;
  for (int p = 0; p < n; p++) {
    std::int64_t plocal = 0, plast = 0;
    for (int l = 0; l < 3; l++) {
      const std::int64_t size = any_machine.cache[p][l].size;
      plast = Valid(p, l) ? size : plast;
      plocal = Valid(p, l) & Local(p, l) ? size : plocal;
    }
    plocal = plocal ? plocal : plast;
    ok = ok & (plast > 0);
    local = plocal < local ? plocal : local;
    last = plast < last ? plast : last;
  }
  {
    ruy::CpuInfo info;
    if (verif_cfg("features_first")) info.Avx2Fma();
    const ruy::CpuCacheParams& params = info.CacheParams();
    verif_out("local", params.local_cache_size);
    verif_out("last", params.last_level_cache_size);
    verif_assert((params.local_cache_size > 0) & (params.last_level_cache_size > 0), "sizes are positive");
    verif_assert(params.local_cache_size <= params.last_level_cache_size, "local size not above the last level");
    verif_assert((params.local_cache_size == (ok ? local : 32 * 1024)), "local cache size");
    verif_assert((params.last_level_cache_size == (ok ? last : 512 * 1024)), "last-level cache size");
    const auto& i = cpuinfo_isa;
    verif_assert(info.Sse42() == (ok & i.sse4_2), "SSE 4.2");
    verif_assert(info.Avx() == (ok & i.avx), "AVX");
    verif_assert(info.Avx2Fma() == (ok & i.avx2 & i.fma3), "AVX2 and FMA");
    verif_assert(info.Avx512() == (ok & i.avx512f & i.avx512dq & i.avx512cd & i.avx512bw & i.avx512vl), "AVX-512");
    verif_assert(info.AvxVnni() == (ok & i.avx512vnni), "VNNI");
    verif_assert(!info.NeonDotprod(), "no ARM features");
    verif_assert(any_machine.initializations == 1, "the platform library is initialized once");
    // and the description does not change
    verif_assert(info.CacheParams().local_cache_size == (ok ? local : 32 * 1024), "stable local cache size");
    verif_assert(info.CacheParams().last_level_cache_size == (ok ? last : 512 * 1024), "stable last-level cache size");
  }
  verif_assert((any_machine.deinitializations == 1) | !ok, "the platform library is released");
  verif_assert((any_machine.deinitializations == 0) | any_machine.init_ok, "release only after initialization");
  verif_reach("end");
}

// Sizes reported as zero as well.
extern "C" void c17_any_sizes() {
  const int n = verif_cfg("processors");
  any_machine.Draw(n);
  verif_assume(any_machine.processors == n);
  for (int p = 0; p < n; p++) {
    std::int64_t below = 1;
    for (int l = 0; l < 3; l++) {
      const std::int64_t size = any_machine.cache[p][l].size;
      verif_assume(size <= 0x7fffffff);
      verif_assume(!Valid(p, l) | (size == 0) | (size >= below));
      below = Valid(p, l) & (size != 0) ? size : below;
    }
  }
  ruy::CpuInfo info;
  const ruy::CpuCacheParams& params = info.CacheParams();
  verif_assert((params.local_cache_size > 0) & (params.last_level_cache_size > 0), "sizes are positive");
  verif_reach("end");
}
