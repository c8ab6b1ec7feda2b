// Model of the system allocator: addresses and failures are chosen by the
// solver. Included by one harness file.
#ifndef SYSMODEL_H_
#define SYSMODEL_H_
#include "verif.h"

namespace {
constexpr int kMax = 24;
struct Block {
  std::uint64_t base;
  std::uint64_t size;
  bool live;
};
Block blocks[kMax];
int num_blocks;
int sys_allocs;
int sys_failures;
// what the system answers to its first, second... call
std::int64_t answers[kMax];
bool failures[kMax];

std::uint64_t SysAlloc(std::uint64_t align, std::uint64_t n) {
  verif_assert(n < (std::uint64_t{1} << 46), "system allocation of a sensible size");
  const int call = sys_allocs++;
  if (verif_cfg("fail") && failures[call]) {
    ++sys_failures;
    return 0;
  }
  const std::uint64_t base = answers[call];
  verif_assume((base & (align - 1)) == 0);
  for (int i = 0; i < num_blocks; i++) {
    // live blocks are disjoint; an address may be reused once freed
    verif_assume(!blocks[i].live | (base >= blocks[i].base + blocks[i].size) |
                 (blocks[i].base >= base + n));
  }
  blocks[num_blocks].base = base;
  blocks[num_blocks].size = n;
  blocks[num_blocks].live = true;
  ++num_blocks;
  return base;
}

// Draws the answers to the first n calls.
void DrawSystem(int n) {
  for (int i = 0; i < n; i++) {
    answers[i] = verif_range64("base", 64, std::int64_t{1} << verif_cfg("log2addr"));
    failures[i] = verif_bool("sysfail");
  }
}

// the live block starting at p, or -1
inline int BlockAt(const void* p) {
  int r = -1;
  for (int i = 0; i < num_blocks; i++) {
    r = blocks[i].live & (blocks[i].base == reinterpret_cast<std::uint64_t>(p)) ? i : r;
  }
  return r;
}
}  // namespace

extern "C" {
int verif_posix_memalign(void** p, size_t align, size_t n) {
  verif_assert(align >= sizeof(void*) && (align & (align - 1)) == 0, "posix_memalign alignment argument");
  const std::uint64_t b = SysAlloc(align, n);
  if (!b) return 12;
  *p = reinterpret_cast<void*>(b);
  return 0;
}
void* verif_aligned_alloc(size_t align, size_t n) { return reinterpret_cast<void*>(SysAlloc(align, n)); }
void* verif_malloc(size_t n) { return reinterpret_cast<void*>(SysAlloc(16, n)); }
void verif_sys_free(void* p) {
  const std::uint64_t v = reinterpret_cast<std::uint64_t>(p);
  bool ok = v == 0;
  for (int i = 0; i < num_blocks; i++) {
    const bool hit = blocks[i].live & (blocks[i].base == v) & (v != 0);
    ok = ok | hit;
    blocks[i].live = blocks[i].live & !hit;
  }
  verif_assert(ok, "memory is returned to the system once");
}

}
#endif
