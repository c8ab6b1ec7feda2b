#include <cstdint>

#include "ruy/apply_multiplier.h"
#include "ruy/mul_params.h"
#include "verif.h"

namespace {
// floor(x*m*2^(e-31) + 1/2), computed in an order the library does not use.
std::int64_t Expected(std::int32_t x, std::int32_t m, int e) {
  const std::int64_t p = static_cast<std::int64_t>(x) * m;
  return ((p >> (30 - e)) + 1) >> 1;
}
std::int32_t Multiplier() { return verif_range32("m", 0, 0x7fffffff); }

template <typename Dst>
void Uniform() {
  const int e = verif_fork(verif_range32("e", verif_cfg("elo"), verif_cfg("ehi")));
  const std::int32_t x = verif_i32("x");
  const std::int32_t m = Multiplier();
  const std::int64_t want = Expected(x, m, e);
  verif_assume(want >= INT32_MIN && want <= INT32_MAX);
  ruy::MulParams<std::int32_t, Dst> p;
  p.set_multiplier_fixedpoint(m);
  p.set_multiplier_exponent(e);
  std::int32_t accum = x;
  ruy::ApplyMultiplier(p, verif_range32("channel", 0, 1000), &accum);
  verif_out("accum", accum);
  verif_assert(accum == want, "rescaled value");
}

template <typename Dst>
void PerChannel() {
  const int e = verif_fork(verif_range32("e", verif_cfg("elo"), verif_cfg("ehi")));
  const std::int32_t x = verif_i32("x");
  const std::int32_t m = Multiplier();
  const std::int64_t want = Expected(x, m, e);
  verif_assume(want >= INT32_MIN && want <= INT32_MAX);
  std::int32_t ms[3];
  int es[3];
  for (int i = 0; i < 3; i++) {
    ms[i] = verif_i32("other_m");
    es[i] = verif_i32("other_e");
  }
  const int ch = verif_fork(verif_range32("channel", 0, 2));
  ms[ch] = m;
  es[ch] = e;
  ruy::MulParams<std::int32_t, Dst> p;
  p.set_multiplier_fixedpoint_perchannel(ms);
  p.set_multiplier_exponent_perchannel(es);
  std::int32_t accum = x;
  ruy::ApplyMultiplier(p, ch, &accum);
  verif_out("accum", accum);
  verif_assert(accum == want, "rescaled value (per channel)");
}
}  // namespace

extern "C" void c03_uniform_i8() { Uniform<std::int8_t>(); }
extern "C" void c03_uniform_i16() { Uniform<std::int16_t>(); }
extern "C" void c03_perchannel_u8() { PerChannel<std::uint8_t>(); }
extern "C" void c03_raw() {
  // 32-bit destinations are not rescaled
  ruy::MulParams<std::int32_t, std::int32_t> p;
  const std::int32_t x = verif_i32("x");
  std::int32_t accum = x;
  ruy::ApplyMultiplier(p, 0, &accum);
  verif_assert(accum == x, "raw accumulator left unchanged");
}
