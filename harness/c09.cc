// The cache of packed operands over histories of look-ups of arbitrary keys and
// sizes under an arbitrary budget.
#include "ruy/mat.h"
#include "ruy/prepacked_cache.h"
#include "sysmodel.h"
#include "verif.h"

namespace {
struct Held {
  std::uint64_t src;
  ruy::PMatLayout layout;
  std::int32_t zero_point;
  std::int64_t data_bytes;
  std::int64_t sums_bytes;
  const void* data;
  const void* sums;
  std::int64_t used;
  bool held;
};

std::int64_t Bytes(const Held& h) { return h.data_bytes + h.sums_bytes; }

bool SameKey(const Held& a, const Held& b) {
  return (a.src == b.src) & (a.layout.rows == b.layout.rows) & (a.layout.cols == b.layout.cols) &
         (a.layout.stride == b.layout.stride) & (a.layout.order == b.layout.order) &
         (a.layout.kernel.rows == b.layout.kernel.rows) & (a.layout.kernel.cols == b.layout.kernel.cols) &
         (a.layout.kernel.order == b.layout.kernel.order) & (a.zero_point == b.zero_point);
}
}  // namespace

extern "C" void c09_history() {
  const int n = verif_cfg("calls");
  const int types = verif_cfg("types");
  const int which = verif_cfg("vary");  // which parts of the key vary
  DrawSystem(2 * n);
  const std::int64_t budget = verif_range32("budget", 0, verif_cfg("max_budget"));
  Held held[8];
  {
    ruy::PrepackedCache cache(static_cast<int>(budget));
    for (int i = 0; i < n; i++) {
      Held& h = held[i];
      const bool floating = (types >> i) & 1;
      h.src = 4096 + (which & 1 ? verif_range32("src", 0, 1) : 0);
      h.layout.rows = which & 2 ? verif_range32("rows", 1, 3) : 2;
      h.layout.cols = which & 4 ? verif_range32("cols", 1, 4) : 2;
      h.layout.stride = which & 8 ? verif_range32("stride", 1, verif_cfg("max_stride")) : 16;
      h.layout.order = which & 16 && verif_bool("order") ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
      h.layout.kernel.rows = which & 32 ? verif_range32("krows", 1, 8) : 4;
      h.layout.kernel.cols = which & 64 ? verif_range32("kcols", 1, 8) : 8;
      h.layout.kernel.order = which & 128 && verif_bool("korder") ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
      h.zero_point = which & 256 ? verif_i32("zp") : 0;

      ruy::PEMat packed;
      packed.data_type = floating ? ruy::Type::Create<float>() : ruy::Type::Create<std::int8_t>();
      packed.sums_type = floating ? ruy::Type::Create<float>() : ruy::Type::Create<std::int32_t>();
      packed.layout = h.layout;
      packed.zero_point = h.zero_point;
      const auto action = cache.Get(reinterpret_cast<const void*>(h.src), &packed);

      int hit = -1;
      for (int j = 0; j < i; j++) {
        if (held[j].held && SameKey(held[j], h)) hit = j;
      }
      verif_out("hit", hit);
      verif_assert((action == ruy::PrepackedCache::Action::kGotExistingEntry) == (hit >= 0), "hit exactly when held");
      h.held = false;
      if (hit >= 0) {
        verif_reach("hit");
        verif_assert(packed.data == held[hit].data, "the buffer packed for the entry");
        verif_assert(packed.sums == held[hit].sums, "the sums of the entry");
        held[hit].used = i;
      } else {
        const int inner = h.layout.order == ruy::Order::kColMajor ? h.layout.cols : h.layout.rows;
        h.data_bytes = std::int64_t{1} * h.layout.stride * inner * (floating ? 4 : 1);
        h.sums_bytes = floating ? 0 : 4 * h.layout.cols;
        h.data = packed.data;
        h.sums = packed.sums;
        h.used = i;
        // room is made by evicting the least recently used entries
        std::int64_t total = 0;
        for (int j = 0; j < i; j++) total += held[j].held ? Bytes(held[j]) : 0;
        while (total > 0 && total + Bytes(h) > budget) {
          verif_reach("eviction");
          int oldest = -1;
          for (int j = 0; j < i; j++) {
            if (held[j].held && (oldest < 0 || held[j].used < held[oldest].used)) oldest = j;
          }
          held[oldest].held = false;
          total -= Bytes(held[oldest]);
        }
        h.held = true;
        const int b = BlockAt(packed.data);
        verif_assert(b >= 0, "packed data is allocated");
        verif_assert(static_cast<std::int64_t>(blocks[b].size) >= h.data_bytes, "packed data is large enough");
        if (!floating) {
          const int s = BlockAt(packed.sums);
          verif_assert(s >= 0, "sums are allocated");
          verif_assert(static_cast<std::int64_t>(blocks[s].size) >= h.sums_bytes, "sums are large enough");
        }
      }
      std::int64_t total = 0;
      int count = 0;
      int live = 0;
      for (int j = 0; j <= i; j++) {
        if (!held[j].held) continue;
        total += Bytes(held[j]);
        ++count;
        verif_assert(BlockAt(held[j].data) >= 0, "held entries keep their buffer");
        live += 1 + (held[j].sums != nullptr);
      }
      verif_assert(cache.BuffersBytes() == total, "the byte total is that of the entries held");
      verif_assert(cache.MatrixCount() == count, "the number of entries held");
      verif_assert(total <= budget || count == 1, "within budget unless one entry exceeds it");
      int live_blocks = 0;
      for (int b = 0; b < num_blocks; b++) live_blocks += blocks[b].live;
      verif_assert(live_blocks == live, "evicted buffers are freed");
    }
  }
  for (int b = 0; b < num_blocks; b++) verif_assert(!blocks[b].live, "everything is freed at the end");
  verif_assert(verif_heap_live() == 0, "bookkeeping memory is released");
  verif_reach("end");
}
