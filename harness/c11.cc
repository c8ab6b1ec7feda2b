// Selection of the code path for every CPU, restriction, environment override
// and set of compiled paths.
#include <string.h>

#include "cpuinfo_any.h"
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/have_built_path_for.h"
#include "ruy/path.h"
#include "verif.h"

namespace {
char env[8];
bool env_set;

int Hex(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int Supported() {
  const auto& i = cpuinfo_isa;
  int r = 1;
  if (!any_machine.init_ok) return r;
  r |= i.avx && ruy::HaveBuiltPathForAvx() ? 0x10 : 0;
  r |= i.avx2 && i.fma3 && ruy::HaveBuiltPathForAvx2Fma() ? 0x20 : 0;
  r |= i.avx512f && i.avx512dq && i.avx512cd && i.avx512bw && i.avx512vl && ruy::HaveBuiltPathForAvx512() ? 0x40 : 0;
  return r;
}

void CheckSelection(ruy::Context* context, int enabled, const char* what) {
  const int compiled = verif_i8("compiled") & 0x71;
  verif_assume(compiled & 1);
  const int got = static_cast<int>(ruy::get_ctx(context)->SelectPath(static_cast<ruy::Path>(compiled)));
  const int choice = compiled & (enabled | 1);
  // the single most significant bit of the choice
  verif_assert((got & choice) == got && got != 0 && (got & (got - 1)) == 0, "one of the compiled and enabled paths");
  verif_assert(choice < 2 * got, what);
  verif_assert(static_cast<int>(context->last_used_path()) == got, "reported as the path used");
}

void Machine() {
  any_machine.init_ok = verif_bool("init_ok");
  any_machine.processors = 1;
  any_machine.processor[0].core = &any_machine.core[0];
  any_machine.processor[0].cache.l1d = &any_machine.cache[0][0];
  any_machine.cache[0][0].size = 32768;
  any_machine.cache[0][0].processor_count = 1;
  any_machine.DrawFeatures();
}
}  // namespace

extern "C" {
char* verif_getenv(const char* name) { return env_set && !strcmp(name, "RUY_PATHS") ? env : nullptr; }

long verif_strtol(const char* p, char** end, int base) {
  const char* start = p;
  long v = 0;
  const bool prefix = p[0] == '0' && (p[1] == 'x' || p[1] == 'X');
  if (base == 0) base = prefix ? 16 : p[0] == '0' ? 8 : 10;
  if (base == 16 && prefix) p += 2;
  bool any = false;
  while (*p) {
    const int digit = Hex(*p);
    if (digit >= base) break;
    v = base * v + digit;
    any = true;
    ++p;
  }
  if (end) *end = const_cast<char*>(any ? p : start);
  return v;
}
#ifdef VERIF_SYMBOLIC
long strtol(const char* p, char** end, int base) { return verif_strtol(p, end, base); }
unsigned long strtoul(const char* p, char** end, int base) { return verif_strtol(p, end, base); }
long long strtoll(const char* p, char** end, int base) { return verif_strtol(p, end, base); }
unsigned long long strtoull(const char* p, char** end, int base) { return verif_strtol(p, end, base); }
#endif

// detection, a first restriction, a second one, and back to detection
void c11_history() {
  Machine();
  ruy::Context context;
  const int steps = verif_cfg("steps");
  int restriction = 0;
  for (int i = 0; i < steps; i++) {
    if (i || verif_cfg("restrict_first")) {
      restriction = verif_i8("restriction") & 0x7f;
      context.set_runtime_enabled_paths(static_cast<ruy::Path>(restriction));
    }
    const int expected = restriction ? restriction | 1 : Supported();
    const int enabled = static_cast<int>(context.get_runtime_enabled_paths());
    verif_out("enabled", enabled);
    verif_assert(((enabled ^ expected) & 0x71) == 0, "enabled paths");
    CheckSelection(&context, restriction ? restriction : enabled, "most capable path");
  }
  verif_reach("end");
}

// The environment replaces detection.
void c11_environment() {
  Machine();
  env_set = true;
  int n = 0;
  if (verif_cfg("prefix")) {
    env[n++] = '0';
    env[n++] = 'x';
  }
  const int high = verif_range32("high", 0, 7);
  const int low = verif_range32("low", 0, 15);
  env[n++] = '0' + high;
  env[n++] = low < 10 ? '0' + low : 'a' + low - 10;
  const int value = high * 16 + low;
  ruy::Context context;
  const int enabled = static_cast<int>(context.get_runtime_enabled_paths());
  const int expected = value ? value | 1 : Supported();
  verif_assert(((enabled ^ expected) & 0x70) == 0, "paths enabled by the environment");
  CheckSelection(&context, expected, "most capable path with the environment override");
  // an explicit restriction still wins
  const int restriction = verif_i8("restriction") & 0x7f;
  if (restriction) {
    context.set_runtime_enabled_paths(static_cast<ruy::Path>(restriction));
    CheckSelection(&context, restriction, "most capable path of the restriction");
  }
  verif_reach("end env");
}
}
