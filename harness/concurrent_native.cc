// Native runtime for code on several threads. The sources are compiled with
// the instrumentation of the thread sanitizer, but its runtime is replaced by
// this one: atomic accesses happen in the order of the schedule found by the
// solver, and happens-before is tracked with vector clocks.
#include "concurrent.h"
#include "verif.h"

#include <malloc.h>
#include <pthread.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace {
constexpr int kMax = 8;
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned a32;
typedef unsigned long long a64;
struct Clock {
  int c[kMax] = {};
  void Join(const Clock& o) {
    for (int i = 0; i < kMax; i++) c[i] = c[i] > o.c[i] ? c[i] : o.c[i];
  }
};
// The classes of the standard library are what is being run here.
pthread_mutex_t mutex = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
pthread_cond_t changed = PTHREAD_COND_INITIALIZER;
class Lock {
 public:
  Lock() { pthread_mutex_lock(&mutex); }
  Lock(Lock&& o) : held_(o.held_) { o.held_ = false; }
  ~Lock() {
    if (held_) pthread_mutex_unlock(&mutex);
  }
  // False after that many seconds.
  bool Wait(int seconds) {
    const timespec t = {time(nullptr) + seconds, 0};  // clock_gettime may be replaced
    return pthread_cond_timedwait(&changed, &mutex, &t) == 0;
  }

 private:
  bool held_ = true;
};
void NotifyAll() { pthread_cond_broadcast(&changed); }
bool active = false, broken = false, races = false;
int count = 0;
std::vector<int> schedule;
std::size_t pos = 0;
long long free_steps = 0;
bool finished[kMax];
Clock now[kMax];
int started = 0;
pthread_t handles[kMax];
Clock ended[kMax];
struct Waiter {
  int thread;
  void* condition;
  bool notified;
};
std::vector<Waiter*> waiters;
std::map<void*, int> owner;
long long progress = 0;
std::vector<long long> clocks[kMax];
std::size_t shown[kMax];
std::map<volatile void*, Clock> released;
thread_local int self = -1;

struct Shadow {
  int writer = -1, when = 0;
  int read[kMax] = {};
};
std::unordered_map<std::uintptr_t, Shadow> shadow;

struct Column {
  int packs = 0, thread = 0, when = 0;
};
struct Side {
  int width = 0;
  bool prepacked = false;
  std::vector<Column> columns;
} sides[2];
std::vector<int> computed;
int packs[kMax], kernels[kMax];

[[noreturn]] void Fail(const std::string& what) {
  fprintf(stderr, "REPLAY: assertion failed: %s\n", what.c_str());
  fflush(stderr);
  _Exit(10);
}

// Waits for the turn of this thread and holds the lock afterwards.
Lock Turn() {
  Lock l;
  if (!active || self < 0) return l;
  while (true) {
    while (pos < schedule.size() && finished[schedule[pos]]) ++pos;
    if (broken || pos >= schedule.size()) {
      if (++free_steps > 3000000) Fail("a thread waits forever");
      return l;
    }
    if (schedule[pos] == self) {
      ++pos;
      NotifyAll();
      return l;
    }
    if (!l.Wait(5)) {
      broken = true;
      NotifyAll();
    }
  }
}
// Waits until ready() once the schedule says so or has ended.
template <typename F>
void Until(Lock& l, F ready) {
  while (!ready()) {
    const long long before = progress;
    const std::size_t at = pos;
    if (!l.Wait(3) && before == progress && at == pos) {
      if (broken || pos >= schedule.size()) Fail("a thread waits forever");
      broken = true;
      NotifyAll();
    }
  }
}
void Moved() {
  ++progress;
  NotifyAll();
}
void Acquire(void* mutex) {
  now[self].Join(released[mutex]);
  owner[mutex] = self;
  Moved();
}
void Release(void* mutex) {
  released[mutex].Join(now[self]);
  ++now[self].c[self];
  owner[mutex] = -1;
  Moved();
}
bool Free(void* mutex) {
  auto it = owner.find(mutex);
  return it == owner.end() || it->second < 0;
}
bool Acquires(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool Releases(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void Read(volatile void* p, int mo) {
  if (!active || self < 0 || !Acquires(mo)) return;
  auto it = released.find(p);
  if (it != released.end()) now[self].Join(it->second);
}
void Write(volatile void* p, int mo, bool rmw) {
  if (!active || self < 0) return;
  Clock& r = released[p];
  if (!rmw) r = Clock();
  if (Releases(mo)) {
    r.Join(now[self]);
    ++now[self].c[self];
  }
}
thread_local bool inside = false;
void Plain(const void* p, std::size_t n, bool write) {
  if (!races || self < 0 || inside) return;
  Lock l;
  if (!active) return;
  struct Inside {
    Inside() { inside = true; }
    ~Inside() { inside = false; }
  } guard;
  for (std::size_t i = 0; i < n; i++) {
    Shadow& s = shadow[reinterpret_cast<std::uintptr_t>(p) + i];
    if (s.writer >= 0 && s.writer != self && s.when > now[self].c[s.writer]) Fail("conflicting accesses race");
    if (write) {
      for (int t = 0; t < count; t++) {
        if (t != self && s.read[t] > now[self].c[t]) Fail("conflicting accesses race");
      }
      s.writer = self;
      s.when = now[self].c[self];
    } else {
      s.read[self] = now[self].c[self];
    }
  }
}
}  // namespace

extern "C" {
void verif_domain(int side, int width, bool prepacked) {
  sides[side].width = width;
  sides[side].prepacked = prepacked;
  sides[side].columns.assign(width, Column());
}
void verif_event(int kind, int a, int b, int c, int d) {
  Lock l;
  const int t = self < 0 ? 0 : self;
  if (kind == kKernel) {
    ++kernels[t];
    computed.resize(sides[0].width * sides[1].width);
    const int range[2][2] = {{a, b}, {c, d}};
    for (int s = 0; s < 2; s++) {
      for (int i = range[s][0]; i < range[s][1] && !sides[s].prepacked; i++) {
        const Column& x = sides[s].columns[i];
        if (!x.packs || (x.thread != t && x.when > now[t].c[x.thread])) Fail("packing of a block happens before its use");
      }
    }
    for (int i = a; i < b; i++) {
      for (int j = c; j < d; j++) {
        if (++computed[i * sides[1].width + j] > 1) Fail("a block is computed at most once");
      }
    }
    return;
  }
  ++packs[t];
  if (sides[kind].prepacked) Fail("a pre-packed operand is not packed");
  for (int i = a; i < b; i++) {
    Column& x = sides[kind].columns[i];
    if (++x.packs > 1) Fail("a block is packed at most once");
    x.thread = t;
    x.when = now[t].c[t];
  }
}
void verif_parallel(int n) {
  count = n;
  const int k = verif_i32("sched_count");
  for (int i = 0; i < k; i++) schedule.push_back(verif_i32(("sched_" + std::to_string(i)).c_str()));
  races = verif_bool("check_races");
  for (int t = 0; t < kMax; t++) {
    const std::string name = std::to_string(t);
    const int c = verif_i32(("clocks_" + name).c_str());
    for (int i = 0; i < c; i++) clocks[t].push_back(verif_i64(("clock_" + name + "_" + std::to_string(i)).c_str()));
  }
  started = n;
  for (int i = 0; i < n; i++) now[i].c[i] = 1;
  active = true;
  for (int i = 0; i < n; i++) {
    pthread_create(&handles[i], nullptr, [](void* p) -> void* {
      const int i = static_cast<int>(reinterpret_cast<std::intptr_t>(p));
      self = i;
      verif_thread(i);
      self = -1;
      Lock l;
      finished[i] = true;
      NotifyAll();
      return nullptr;
    }, reinterpret_cast<void*>(static_cast<std::intptr_t>(i)));
  }
  for (int i = 0; i < n; i++) pthread_join(handles[i], nullptr);
  active = false;
  while (pos < schedule.size() && finished[schedule[pos]]) ++pos;
  verif_out("followed", !broken && !free_steps && pos >= schedule.size());
  for (int x : computed) {
    if (!x) Fail("every block is computed");
  }
  for (int i = 0; i < n; i++) {
    verif_out(("packs_" + std::to_string(i)).c_str(), packs[i]);
    verif_out(("kernels_" + std::to_string(i)).c_str(), kernels[i]);
  }
}

struct Start {
  int id;
  void (*run)(void*);
  void* state;
};
static void* StartThread(void* p) {
  Start s = *static_cast<Start*>(p);
  delete static_cast<Start*>(p);
  self = s.id;
  Turn();
  s.run(s.state);
  auto l = Turn();
  ended[s.id] = now[s.id];
  finished[s.id] = true;
  self = -1;
  Moved();
  return nullptr;
}
int verif_spawn(void (*run)(void*), void* state) {
  auto l = Turn();
  const int k = started++;
  count = started;
  now[k] = now[self];
  now[k].c[k] = 1;
  ++now[self].c[self];
  pthread_create(&handles[k], nullptr, StartThread, new Start{k, run, state});
  Moved();
  return k;
}
void verif_join(int k) {
  {
    auto l = Turn();
    Until(l, [k] { return finished[k]; });
    now[self].Join(ended[k]);
    Moved();
  }
  pthread_join(handles[k], nullptr);
}
int verif_mutex_lock(pthread_mutex_t* m) {
  if (self < 0) return 0;
  auto l = Turn();
  Until(l, [m] { return Free(m); });
  Acquire(m);
  return 0;
}
int verif_mutex_unlock(pthread_mutex_t* m) {
  if (self < 0) return 0;
  auto l = Turn();
  Release(m);
  return 0;
}
void verif_cond_wait(void* condition, void* m) {
  auto l = Turn();
  Release(m);
  Waiter w{self, condition, false};
  waiters.push_back(&w);
  // woken by its turn in the schedule or, after the schedule, by a notification
  bool turn = false;
  Until(l, [&] {
    while (pos < schedule.size() && finished[schedule[pos]]) ++pos;
    if (broken || pos >= schedule.size()) return w.notified;
    turn = schedule[pos] == self;
    return turn;
  });
  if (turn) ++pos;
  for (std::size_t i = 0; i < waiters.size(); i++) {
    if (waiters[i] == &w) waiters.erase(waiters.begin() + i);
  }
  NotifyAll();
  Until(l, [m] { return Free(m); });
  Acquire(m);
}
void verif_cond_notify(void* condition, bool all) {
  if (self < 0) return;
  auto l = Turn();
  for (Waiter* w : waiters) {
    if (w->condition != condition || w->notified) continue;
    w->notified = true;
    if (!all) break;
  }
  Moved();
}
long long verif_clock() {
  Lock l;
  if (self < 0) return 0;
  const std::size_t i = shown[self]++;
  // afterwards time passes quickly
  return i < clocks[self].size() ? clocks[self][i] : (1LL << 60) + static_cast<long long>(i) * (1LL << 40);
}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_read(void** p) { Plain(p, 8, false); }
void __tsan_vptr_update(void** p, void*) { Plain(p, 8, true); }
#define PLAIN(n)                                                        \
  void __tsan_read##n(void* p) { Plain(p, n, false); }                  \
  void __tsan_write##n(void* p) { Plain(p, n, true); }                  \
  void __tsan_unaligned_read##n(void* p) { Plain(p, n, false); }        \
  void __tsan_unaligned_write##n(void* p) { Plain(p, n, true); }        \
  void __tsan_read_write##n(void* p) { Plain(p, n, true); }             \
  void __tsan_unaligned_read_write##n(void* p) { Plain(p, n, true); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)
void* __tsan_memcpy(void* d, const void* s, std::size_t n) {
  Plain(s, n, false);
  Plain(d, n, true);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, std::size_t n) {
  Plain(s, n, false);
  Plain(d, n, true);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, std::size_t n) {
  Plain(d, n, true);
  return memset(d, v, n);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define RMW(T, w, name, expr)                                               \
  T __tsan_atomic##w##_##name(volatile T* p, T v, int mo) {                 \
    auto l = Turn();                                                        \
    const T old = *p;                                                       \
    *p = expr;                                                              \
    Read(p, mo);                                                            \
    Write(p, mo, true);                                                     \
    return old;                                                             \
  }
#define ATOMIC(T, w)                                                        \
  T __tsan_atomic##w##_load(const volatile T* p, int mo) {                  \
    auto l = Turn();                                                        \
    Read(const_cast<volatile T*>(p), mo);                                   \
    return *p;                                                              \
  }                                                                         \
  void __tsan_atomic##w##_store(volatile T* p, T v, int mo) {               \
    auto l = Turn();                                                        \
    Write(p, mo, false);                                                    \
    *p = v;                                                                 \
  }                                                                         \
  RMW(T, w, exchange, v)                                                    \
  RMW(T, w, fetch_add, old + v)                                             \
  RMW(T, w, fetch_sub, old - v)                                             \
  RMW(T, w, fetch_and, old& v)                                              \
  RMW(T, w, fetch_or, old | v)                                              \
  RMW(T, w, fetch_xor, old ^ v)                                             \
  T __tsan_atomic##w##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { \
    auto l = Turn();                                                        \
    const T old = *p;                                                       \
    if (old == c) {                                                         \
      *p = v;                                                               \
      Read(p, mo);                                                          \
      Write(p, mo, true);                                                   \
    } else {                                                                \
      Read(p, fmo);                                                         \
    }                                                                       \
    return old;                                                             \
  }
ATOMIC(a8, 8)
ATOMIC(a16, 16)
ATOMIC(a32, 32)
ATOMIC(a64, 64)
}

// Memory given back by a thread counts as written; it is not reused.
void operator delete(void* p) noexcept {
  if (p && races && self >= 0 && !inside) {
    Plain(p, malloc_usable_size(p), true);
    return;
  }
  free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
