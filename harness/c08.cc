// The scratch allocator over a model of the system allocator: addresses, sizes
// and failures are chosen by the solver.
#include "ruy/allocator.h"
#include "ruy/system_aligned_alloc.h"
#include "sysmodel.h"
#include "verif.h"

namespace {
struct Buffer {
  std::uint64_t p;
  std::uint64_t n;
};
Buffer buffers[kMax];
int num_buffers;

bool Contained(const Buffer& b) {
  bool ok = false;
  for (int i = 0; i < num_blocks; i++) {
    ok = ok | (blocks[i].live & (b.p >= blocks[i].base) & (b.p + b.n <= blocks[i].base + blocks[i].size));
  }
  return ok;
}

void CheckRound() {
  for (int i = 0; i < num_buffers; i++) {
    if (buffers[i].p) verif_assert(Contained(buffers[i]), "buffer inside memory obtained from the system");
    for (int j = 0; j < i; j++) {
      verif_assert((buffers[i].p == 0) | (buffers[j].p == 0) | (buffers[i].p >= buffers[j].p + buffers[j].n) |
                       (buffers[j].p >= buffers[i].p + buffers[i].n),
                   "buffers of a round are disjoint");
    }
  }
}

void Request(ruy::Allocator* a, std::int64_t n, int kind, std::uint64_t avoid) {
  const int failures = sys_failures;
  void* q;
  std::int64_t bytes = n;
  switch (kind) {
    case 0:
      q = a->AllocateBytes(n);
      break;
    case 1:
      q = a->AllocateBytesAvoidingAliasingWith(n, reinterpret_cast<const void*>(avoid));
      break;
    default:
      q = a->Allocate<std::int32_t>(n);
      bytes = 4 * n;
      break;
  }
  const std::uint64_t p = reinterpret_cast<std::uint64_t>(q);
  if (n == 0) {
    verif_assert(p == 0, "empty request");
  } else {
    verif_assert((p != 0) | (sys_failures > failures), "request served unless the system is out of memory");
  }
  verif_assert((p & (ruy::detail::kMinimumBlockAlignment - 1)) == 0, "alignment");
  buffers[num_buffers].p = p;
  buffers[num_buffers].n = bytes;
  ++num_buffers;
}
}  // namespace

extern "C" {
// `rounds` rounds of up to `n` requests of any size and kind. The last round
// repeats the one before.
void c08_history() {
  const int rounds = verif_cfg("rounds");
  const int n = verif_cfg("n");
  const std::int64_t max = std::int64_t{1} << verif_cfg("log2max");
  DrawSystem((n + 1) * rounds);
  {
    ruy::Allocator a;
    std::int64_t size[kMax];
    int kind[kMax];
    std::uint64_t avoid[kMax];
    for (int r = 0; r < rounds; r++) {
      num_buffers = 0;
      const bool repeat = r == rounds - 1 && r > 0 && !verif_cfg("fail");
      const int before = sys_allocs;
      for (int i = 0; i < n; i++) {
        if (!repeat) {
          size[i] = verif_range64("size", 0, max);
          kind[i] = (verif_cfg("kinds") >> (2 * (r * n + i))) & 3;
          avoid[i] = verif_i64("avoid");
        }
        Request(&a, size[i], kind[i], avoid[i]);
      }
      CheckRound();
      if (repeat) {
        verif_reach("repeated round");
        verif_assert(sys_allocs == before, "repeating the same requests needs no system allocation");
      }
      a.FreeAll();
    }
    for (int i = 0; i < num_blocks; i++) verif_out("live", blocks[i].live);
  }
  for (int i = 0; i < num_blocks; i++) verif_assert(!blocks[i].live, "everything is returned to the system");
  verif_assert(verif_heap_live() == 0, "bookkeeping memory is released");
  verif_reach("end");
}
}
