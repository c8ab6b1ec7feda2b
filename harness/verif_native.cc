// Native runtime of the harness interface: feeds the values of a solver model
// to the harness, so that a counterexample runs against the real code.
#include "verif.h"

#include <dlfcn.h>

#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN 1
#endif

namespace {
// Allocations of this runtime do not count.
thread_local int inside = 0;
struct Inside {
  Inside() { ++inside; }
  ~Inside() { --inside; }
};
#ifdef HAVE_ASAN
std::atomic<long long> live_blocks{0}, live_bytes{0};
void OnMalloc(const volatile void* p, std::size_t n) {
  if (inside) return;
  ++live_blocks;
  live_bytes += n;
}
void OnFree(const volatile void* p) {
  if (inside || !p) return;
  --live_blocks;
  live_bytes -= __sanitizer_get_allocated_size(p);
}
#endif

struct Values {
  std::map<std::string, std::string> v;
  std::map<std::string, int> count;
  std::map<std::string, long long> cfg;
};
Values& values() {
  static Values* x = [] {
    Values* r = new Values;
    const char* f = getenv("VERIF_MODEL");
    if (f) {
      std::ifstream in(f);
      std::string kind, name, val;
      while (in >> kind >> name >> val) {
        if (kind == "cfg") {
          r->cfg[name] = atoll(val.c_str());
        } else {
          r->v[name] = val;
        }
      }
    }
    return r;
  }();
  return *x;
}
std::string get(const char* name) {
  Values& x = values();
  int k = x.count[name]++;
  std::string n = name;
  if (k) n += "#" + std::to_string(k);
  auto it = x.v.find(n);
  return it == x.v.end() ? std::string("0") : it->second;
}
long long geti(const char* name) { return strtoull(get(name).c_str(), nullptr, 10); }
}  // namespace

extern "C" {
std::int8_t verif_i8(const char* n) {
  Inside guard;
  return static_cast<std::int8_t>(geti(n));
}
std::int16_t verif_i16(const char* n) {
  Inside guard;
  return static_cast<std::int16_t>(geti(n));
}
std::int32_t verif_i32(const char* n) {
  Inside guard;
  return static_cast<std::int32_t>(geti(n));
}
std::int64_t verif_i64(const char* n) {
  Inside guard;
  return static_cast<std::int64_t>(geti(n));
}
float verif_f32(const char* n) {
  Inside guard;
  std::string s = get(n);
  if (s.size() > 2 && s[0] == 'b') {
    std::uint32_t b = strtoul(s.c_str() + 1, nullptr, 10);
    float f;
    memcpy(&f, &b, 4);
    return f;
  }
  return static_cast<float>(atof(s.c_str()));
}
double verif_f64(const char* n) {
  Inside guard;
  std::string s = get(n);
  if (s.size() > 2 && s[0] == 'b') {
    std::uint64_t b = strtoull(s.c_str() + 1, nullptr, 10);
    double f;
    memcpy(&f, &b, 8);
    return f;
  }
  return atof(s.c_str());
}
bool verif_bool(const char* n) {
  Inside guard;
  return geti(n) & 1;
}
std::int32_t verif_range32(const char* n, std::int32_t lo, std::int32_t hi) {
  Inside guard;
  if (lo == hi) {
    get(n);
    return lo;
  }
  std::int32_t v = static_cast<std::int32_t>(geti(n));
  return v < lo ? lo : v > hi ? hi : v;
}
std::int64_t verif_range64(const char* n, std::int64_t lo, std::int64_t hi) {
  Inside guard;
  if (lo == hi) {
    get(n);
    return lo;
  }
  std::int64_t v = static_cast<std::int64_t>(geti(n));
  return v < lo ? lo : v > hi ? hi : v;
}
void verif_bytes(void* p, std::size_t n, const char* name) {
  Inside guard;
  for (std::size_t i = 0; i < n; i++) {
    static_cast<std::int8_t*>(p)[i] =
        verif_i8((std::string(name) + "_" + std::to_string(i)).c_str());
  }
}
std::int64_t verif_cfg(const char* name) {
  Inside guard;
  auto it = values().cfg.find(name);
  if (it == values().cfg.end()) {
    fprintf(stderr, "no configuration value %s\n", name);
    _Exit(77);
  }
  return it->second;
}
void verif_assume(bool c) {
  if (!c) {
    fprintf(stderr, "REPLAY: assumption not satisfied\n");
    _Exit(78);
  }
}
void verif_assert(bool c, const char* msg) {
  if (!c) {
    fprintf(stderr, "REPLAY: assertion failed: %s\n", msg);
    _Exit(10);
  }
}
void verif_assert_feq(float a, float b, const char* msg) {
  float d = std::fabs(a - b);
  float s = std::fabs(a) + std::fabs(b);
  if (!(d <= 1e-3f * s + 1e-30f)) {
    fprintf(stderr, "REPLAY: assertion failed: %s (%g vs %g)\n", msg, a, b);
    _Exit(10);
  }
}
void verif_out(const char* n, std::int64_t v) {
  Inside guard;
  static std::map<std::string, int>* count = new std::map<std::string, int>;
  printf("OUT %s#%d %llu\n", n, (*count)[n]++, static_cast<unsigned long long>(v));
  fflush(stdout);
}
void verif_reach(const char*) {}
std::int32_t verif_fork(std::int32_t v) { return v; }
std::int64_t verif_fork64(std::int64_t v) { return v; }
#ifdef HAVE_ASAN
std::int64_t verif_heap_live() { return live_blocks; }
std::int64_t verif_heap_bytes() { return live_bytes; }
bool verif_is_live(const void* p, std::size_t n) {
  return p && !__asan_region_is_poisoned(const_cast<void*>(p), n);
}
#else
std::int64_t verif_heap_live() { return 0; }
std::int64_t verif_heap_bytes() { return 0; }
bool verif_is_live(const void*, std::size_t) { return true; }
#endif
void* verif_alloc(std::size_t n, const char*) {
  void* p = nullptr;
  // exact size; alignment only as guaranteed by malloc
  p = malloc(n ? n : 1);
  return p;
}
void verif_free(void* p) { free(p); }
void verif_simplify(void*, std::size_t) {}
void verif_generalize(void*, std::size_t, const char*) {}
bool verif_symbolic() { return false; }
}

int main() {
  void (*entry)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, getenv("VERIF_ENTRY")));
  if (!entry) _Exit(77);
#ifdef HAVE_ASAN
  __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree);
#endif
  entry();
  fprintf(stderr, "REPLAY: completed without failure\n");
  fflush(stderr);
  _Exit(0);
}
