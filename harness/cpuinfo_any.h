#ifndef CPUINFO_ANY_H_
#define CPUINFO_ANY_H_
#include <cpuinfo.h>

struct AnyMachine {
  static constexpr int kMax = 4;
  bool init_ok;
  int processors;
  cpuinfo_core core[kMax];
  cpuinfo_processor processor[kMax];
  cpuinfo_cache cache[kMax][3];
  bool present[kMax][3];
  cpuinfo_uarch_info uarch;
  bool no_uarch;
  int initializations;
  int deinitializations;

  void Draw(int max_processors);
  void DrawFeatures();
};
extern AnyMachine any_machine;
#endif
