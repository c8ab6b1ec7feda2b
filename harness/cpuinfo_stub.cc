// A processor as described by the configuration of the run: replaces the
// cpuinfo library, so that what the library sees of the machine is controlled.
#include <cpuinfo.h>

#include "verif.h"

struct cpuinfo_x86_isa cpuinfo_isa;

namespace {
cpuinfo_core core;
cpuinfo_cache l1, l2;
cpuinfo_processor processor;
cpuinfo_uarch_info uarch;
}  // namespace

extern "C" {
bool cpuinfo_initialize(void) { return verif_cfg("cpuinfo") != 0; }
void cpuinfo_deinitialize(void) {}
uint32_t cpuinfo_get_processors_count(void) { return 1; }
const cpuinfo_processor* cpuinfo_get_processor(uint32_t i) {
  if (i != 0) return nullptr;
  l1.size = static_cast<uint32_t>(verif_cfg("l1"));
  l1.processor_count = 1;
  l2.size = static_cast<uint32_t>(verif_cfg("l2"));
  l2.processor_count = 1;
  processor.core = &core;
  processor.cache.l1d = &l1;
  processor.cache.l2 = &l2;
  return &processor;
}
const cpuinfo_uarch_info* cpuinfo_get_uarch(uint32_t) { return &uarch; }
uint32_t cpuinfo_get_current_uarch_index(void) { return 0; }
}
