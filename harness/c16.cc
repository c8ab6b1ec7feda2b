#include "ruy/size_util.h"
#include "verif.h"

// Exactness of the size helpers, stated by their mathematical definition.
namespace {
template <typename I>
void CheckLogs(I n) {
  verif_assume(n >= 1);
  const I f = ruy::floor_log2(n);
  verif_out("floor_log2", f);
  verif_assert(f >= 0 && f < static_cast<I>(8 * sizeof(I) - 1), "floor_log2 range");
  verif_assert((n >> f) == 1, "2^floor_log2(n) <= n < 2^(floor_log2(n)+1)");
  verif_assert(ruy::round_down_pot(n) == (static_cast<I>(1) << f), "round_down_pot(n)");
  verif_assert(ruy::round_down_pot(n) <= n && ruy::round_down_pot(n) > n / 2, "round_down_pot bounds");
  // ceil: the smallest e with n <= 2^e
  const I c = ruy::ceil_log2(n);
  verif_out("ceil_log2", c);
  verif_assert(c >= 0 && c <= static_cast<I>(8 * sizeof(I) - 1), "ceil_log2 range");
  if (c < static_cast<I>(8 * sizeof(I) - 1)) {
    verif_assert((static_cast<I>(1) << c) >= n, "n <= 2^ceil_log2(n)");
    verif_assert(ruy::round_up_pot(n) == (static_cast<I>(1) << c), "round_up_pot(n)");
    verif_assert(ruy::round_up_pot(n) >= n, "round_up_pot bound");
  } else {
    verif_assert(n > (static_cast<I>(1) << (8 * sizeof(I) - 2)), "ceil_log2 of the largest values");
  }
  if (c > 0) {
    verif_assert((static_cast<I>(1) << (c - 1)) < n, "2^(ceil_log2(n)-1) < n");
  } else {
    verif_assert(n == 1, "ceil_log2(n)==0 only for 1");
  }
  if (ruy::is_pot(n)) {
    verif_assert(ruy::pot_log2(n) == f && c == f, "pot_log2(n)");
  }
}

template <typename I>
void CheckIsPot(I n) {
  // For every bit position k: 2^k is a power of two, and a power of two having
  // bit k set is 2^k.
  const int k = verif_range32("k", 0, 8 * sizeof(I) - 2);
  const I p = static_cast<I>(1) << k;
  verif_assert(ruy::is_pot(p), "is_pot(2^k)");
  if (ruy::is_pot(n)) {
    verif_assert(n > 0, "is_pot only for positive values");
    verif_assert(!(n & p) || n == p, "is_pot only for powers of two");
  }
}

template <typename I, typename M>
void CheckRound(I v, M m, I limit) {
  verif_assume(v >= 0 && m >= 1 && (m & (m - 1)) == 0);
  verif_assume(v <= limit);
  const I d = ruy::round_down_pot(v, m);
  verif_assert(d <= v && v - d < static_cast<I>(m), "round_down_pot(v, m) is the nearest below");
  verif_assert((d & (static_cast<I>(m) - 1)) == 0, "round_down_pot(v, m) is a multiple");
  // rounding up must not need more than the type can hold
  verif_assume(v <= limit - (static_cast<I>(m) - 1));
  const I u = ruy::round_up_pot(v, m);
  verif_assert(u >= v && u - v < static_cast<I>(m), "round_up_pot(v, m) is the nearest above");
  verif_assert((u & (static_cast<I>(m) - 1)) == 0, "round_up_pot(v, m) is a multiple");
}
}  // namespace

extern "C" void c16_logs32() { CheckLogs<int>(verif_i32("n")); }
extern "C" void c16_logs64() { CheckLogs<std::int64_t>(verif_i64("n")); }
extern "C" void c16_pot32() { CheckIsPot<int>(verif_i32("n")); }
extern "C" void c16_pot64() { CheckIsPot<std::int64_t>(verif_i64("n")); }
extern "C" void c16_potu32() { CheckIsPot<std::uint32_t>(verif_i32("n")); }
extern "C" void c16_round32() {
  CheckRound<int, int>(verif_i32("v"), verif_i32("m"), 0x7fffffff);
}
extern "C" void c16_round64() {
  CheckRound<std::int64_t, std::int64_t>(verif_i64("v"), verif_i64("m"), 0x7fffffffffffffffLL);
}
extern "C" void c16_roundmixed() {
  CheckRound<std::int64_t, int>(verif_i64("v"), verif_i32("m"), 0x7fffffffffffffffLL);
}
extern "C" void c16_roundptr() {
  CheckRound<std::ptrdiff_t, std::ptrdiff_t>(verif_i64("v"), 64, 0x7fffffffffffffffLL);
}
