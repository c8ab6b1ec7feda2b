// Replaces the cpuinfo library by an arbitrary machine.
#include "cpuinfo_any.h"

#include "verif.h"

extern "C" {
struct cpuinfo_x86_isa cpuinfo_isa;
}

AnyMachine any_machine;

void AnyMachine::Draw(int max_processors) {
  init_ok = verif_bool("init_ok");
  processors = verif_range32("processors", 1, max_processors);
  for (int p = 0; p < max_processors; p++) {
    processor[p].core = &core[verif_range32("core", 0, max_processors - 1)];
    const cpuinfo_cache* c[3];
    for (int l = 0; l < 3; l++) {
      cpuinfo_cache& k = cache[p][l];
      k.size = verif_i32("size");
      k.processor_start = verif_range32("start", 0, max_processors);
      k.processor_count = verif_range32("count", 0, max_processors);
      present[p][l] = verif_bool("present");
      c[l] = present[p][l] ? &k : nullptr;
    }
    processor[p].cache.l1d = c[0];
    processor[p].cache.l2 = c[1];
    processor[p].cache.l3 = c[2];
  }
  DrawFeatures();
}

void AnyMachine::DrawFeatures() {
  cpuinfo_isa.sse4_2 = verif_bool("sse4_2");
  cpuinfo_isa.avx = verif_bool("avx");
  cpuinfo_isa.avx2 = verif_bool("avx2");
  cpuinfo_isa.fma3 = verif_bool("fma3");
  cpuinfo_isa.avx512f = verif_bool("avx512f");
  cpuinfo_isa.avx512dq = verif_bool("avx512dq");
  cpuinfo_isa.avx512cd = verif_bool("avx512cd");
  cpuinfo_isa.avx512bw = verif_bool("avx512bw");
  cpuinfo_isa.avx512vl = verif_bool("avx512vl");
  cpuinfo_isa.avx512vnni = verif_bool("avx512vnni");
}

extern "C" {
bool cpuinfo_initialize(void) {
  ++any_machine.initializations;
  return any_machine.init_ok;
}
void cpuinfo_deinitialize(void) { ++any_machine.deinitializations; }
uint32_t cpuinfo_get_processors_count(void) {
  verif_assert(any_machine.initializations > 0, "queried before initialization");
  return any_machine.processors;
}
const cpuinfo_processor* cpuinfo_get_processor(uint32_t i) {
  verif_assert(any_machine.initializations > 0, "queried before initialization");
  if (i >= static_cast<uint32_t>(any_machine.processors)) return nullptr;
  return &any_machine.processor[i];
}
const cpuinfo_uarch_info* cpuinfo_get_uarch(uint32_t i) {
  if (any_machine.no_uarch) return nullptr;
  return &any_machine.uarch;
}
uint32_t cpuinfo_get_current_uarch_index(void) { return 0; }
}
