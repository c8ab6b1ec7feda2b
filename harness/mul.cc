// One multiplication through the public entry point, with symbolic operand
// values, compared with the documented formula.
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>

#include "ruy/performance_advisory.h"
#include "ruy/ruy.h"
#include "verif.h"

namespace {
// Set when several multiplications share a context.
ruy::Context* shared;
int step = -1;
bool fresh_advisory;

std::int64_t Cfg(const char* name) {
  if (step < 0) return verif_cfg(name);
  char s[24];
  int n = 0;
  for (; name[n]; ++n) s[n] = name[n];
  s[n] = static_cast<char>('0' + step);
  s[n + 1] = 0;
  return verif_cfg(s);
}

// An operand in a buffer that ends with its last entry.
template <typename T>
struct Operand {
  int rows, cols, stride;
  bool row_major;
  int size;
  T* data;
  T* copy;

  void Init(int r, int c, bool rm, int extra) {
    rows = r;
    cols = c;
    row_major = rm;
    stride = (rm ? c : r) + extra;
    size = (rm ? r - 1 : c - 1) * stride + (rm ? c : r);
    data = static_cast<T*>(verif_alloc(size * sizeof(T), "operand"));
    std::memset(data, 0x5a, size * sizeof(T));
    copy = nullptr;
  }
  int Offset(int r, int c) const { return row_major ? r * stride + c : r + c * stride; }
  T& At(int r, int c) const { return data[Offset(r, c)]; }
  void Save() {
    copy = static_cast<T*>(verif_alloc(size * sizeof(T), "copy"));
    std::memcpy(copy, data, size * sizeof(T));
  }
  void Describe(ruy::Matrix<T>* m) const {
    ruy::MakeSimpleLayout(rows, cols, row_major ? ruy::Order::kRowMajor : ruy::Order::kColMajor, m->mutable_layout());
    m->mutable_layout()->set_stride(stride);
    m->set_data(data);
  }
  // Entries between the rows or columns of a strided matrix keep their value.
  void CheckGaps() const {
    const int inner = row_major ? cols : rows;
    T pad;
    std::memset(&pad, 0x5a, sizeof(T));
    for (int i = 0; i < size; i++) {
      if (i % stride >= inner) verif_assert(std::memcmp(&data[i], &pad, sizeof(T)) == 0, "gap of a strided matrix kept");
    }
  }
  void CheckUnchanged() const {
    verif_assert(std::memcmp(data, copy, size * sizeof(T)) == 0, "source operand unchanged");
  }
  void Free() {
    verif_free(data);
    if (copy) verif_free(copy);
  }
};

template <typename T>
T Any(const char* name) {
  return sizeof(T) == 1 ? static_cast<T>(verif_i8(name))
                        : sizeof(T) == 2 ? static_cast<T>(verif_i16(name)) : static_cast<T>(verif_i32(name));
}
template <>
float Any<float>(const char* name) {
  return verif_f32(name);
}

// 0: zero, 2: 128, 1: any other value. The library treats 0 (signed) and 128
// (unsigned) as the absence of a zero point.
template <typename T>
T ZeroPoint(const char* name, int mode) {
  if (!mode) return 0;
  if (mode == 2) return static_cast<T>(128);
  const T v = Any<T>(name);
  verif_assume(v != 0 && v != static_cast<T>(128));
  return v;
}

ruy::Path ThePath() { return static_cast<ruy::Path>(Cfg("path")); }

// The two accepted roundings of x * m * 2^(e-31) to nearest.
std::int64_t OneRounding(std::int32_t x, std::int32_t m, int e) {
  const std::int64_t p = static_cast<std::int64_t>(x) * m;
  return ((p >> (30 - e)) + 1) >> 1;
}
std::int64_t TwoRoundings(std::int32_t x, std::int32_t m, int e) {
  const int ls = e > 0 ? e : 0, rs = e < 0 ? -e : 0;
  const std::int64_t p =
      static_cast<std::int64_t>(static_cast<std::int32_t>(static_cast<std::uint32_t>(x) << ls)) * m;
  const std::int64_t y = (p + (std::int64_t{1} << 30)) >> 31;
  return rs ? (y + (std::int64_t{1} << (rs - 1))) >> rs : y;
}
bool Fits(std::int64_t v) { return v >= INT32_MIN && v <= INT32_MAX; }

template <typename D>
D Final(std::int64_t r, std::int32_t zp, D lo, D hi) {
  r += zp;
  if (r > hi) r = hi;
  if (r < lo) r = lo;
  return static_cast<D>(r);
}

template <typename D>
void SetMultipliers(ruy::MulParams<std::int32_t, D>* p, bool perchannel, const std::int32_t* ms, const int* es) {
  if (perchannel) {
    p->set_multiplier_fixedpoint_perchannel(ms);
    p->set_multiplier_exponent_perchannel(es);
  } else {
    p->set_multiplier_fixedpoint(ms[0]);
    p->set_multiplier_exponent(es[0]);
  }
}
template <typename D>
void SetClamp(ruy::MulParams<std::int32_t, D>* p, D lo, D hi) {
  p->set_clamp_min(lo);
  p->set_clamp_max(hi);
}
// raw accumulators are neither rescaled nor clamped
void SetClamp(ruy::MulParams<std::int32_t, std::int32_t>*, std::int32_t, std::int32_t) {}
void SetMultipliers(ruy::MulParams<std::int32_t, std::int32_t>*, bool, const std::int32_t*, const int*) {}

template <typename D>
void Same(D a, D b) {
  verif_out("dst", a);
  verif_assert(a == b, "destination entry as with a fresh context");
}
void Same(float a, float b) { verif_assert_feq(a, b, "destination entry as with a fresh context"); }

template <typename L, typename R, typename P, typename D>
void Multiply(const ruy::Matrix<L>& lm, const ruy::Matrix<R>& rm, const P& params, ruy::Matrix<D>* dm,
              const Operand<D>& dst) {
  {
    ruy::Context context;
    context.set_runtime_enabled_paths(ThePath());
    ruy::Mul(lm, rm, params, &context, dm);
    verif_assert(context.last_used_path() == ThePath(), "requested path used");
    fresh_advisory = context.performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
  }
  if (!shared) return;
  D* fresh = static_cast<D*>(verif_alloc(dst.size * sizeof(D), "copy"));
  std::memcpy(fresh, dst.data, dst.size * sizeof(D));
  std::memset(dst.data, 0x5a, dst.size * sizeof(D));
  const auto* bias = params.bias();
  const auto dimension = params.channel_dimension();
  shared->set_runtime_enabled_paths(ThePath());
  ruy::Mul(lm, rm, params, shared, dm);
  verif_assert(shared->last_used_path() == ThePath(), "requested path used");
  verif_assert(shared->performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer) == fresh_advisory,
               "advisories are those of the latest multiplication");
  verif_assert((params.bias() == bias) & (params.channel_dimension() == dimension), "parameters unchanged");
  for (int i = 0; i < dst.size; i++) Same(dst.data[i], fresh[i]);
  verif_free(fresh);
}

template <typename L, typename R, typename D>
void IntMul() {
  const std::int64_t live = verif_heap_live();
  const int m = Cfg("m"), k = Cfg("k"), n = Cfg("n");
  const bool raw = std::is_same<D, std::int32_t>::value;
  Operand<L> lhs;
  Operand<R> rhs;
  Operand<D> dst;
  lhs.Init(m, k, Cfg("lo"), Cfg("ls"));
  rhs.Init(k, n, Cfg("ro"), Cfg("rs"));
  dst.Init(m, n, Cfg("do"), Cfg("ds"));
  for (int i = 0; i < m; i++)
    for (int d = 0; d < k; d++) lhs.At(i, d) = Any<L>("l");
  for (int d = 0; d < k; d++)
    for (int j = 0; j < n; j++) rhs.At(d, j) = Any<R>("r");
  const L lzp = ZeroPoint<L>("lzp", Cfg("lzp"));
  const R rzp = ZeroPoint<R>("rzp", Cfg("rzp"));
  if (!(std::is_same<L, std::uint8_t>::value && std::is_same<R, std::uint8_t>::value) && (Cfg("lzp") |
      Cfg("rzp"))) {
    verif_assume(lzp != std::numeric_limits<L>::lowest() || rzp != std::numeric_limits<R>::lowest());
  }
  const D dzp = Cfg("dzp") ? Any<D>("dzp") : 0;
  lhs.Save();
  rhs.Save();

  // per-channel parameters, in buffers of exactly the declared length
  const bool by_col = Cfg("bycol");
  const int channels = by_col ? n : m;
  const int rounding = Cfg("rounding");
  const int capacity = (channels + rounding - 1) / rounding * rounding;
  std::int32_t* bias = nullptr;
  if (Cfg("bias")) {
    bias = static_cast<std::int32_t*>(verif_alloc(capacity * 4, "bias"));
    std::memset(bias, 0, capacity * 4);
    for (int i = 0; i < channels; i++) bias[i] = verif_i32("b");
  }
  const bool perchannel = Cfg("perchannel");
  const int e0 = Cfg("e");
  std::int32_t* ms = static_cast<std::int32_t*>(verif_alloc(capacity * 4, "multipliers"));
  int* es = static_cast<int*>(verif_alloc(capacity * 4, "exponents"));
  std::memset(ms, 0, capacity * 4);
  std::memset(es, 0, capacity * 4);
  for (int i = 0; i < channels; i++) {
    // neighbouring channels have different exponents
    ms[i] = perchannel || !i ? verif_range32("m", 0, 0x7fffffff) : ms[0];
    es[i] = perchannel && (i & 1) ? (e0 > -31 ? e0 - 1 : e0 + 1) : e0;
  }
  ruy::MulParams<std::int32_t, D> params;
  ruy::Matrix<L> lm;
  ruy::Matrix<R> rm;
  ruy::Matrix<D> dm;
  lhs.Describe(&lm);
  rhs.Describe(&rm);
  dst.Describe(&dm);
  lm.set_zero_point(lzp);
  rm.set_zero_point(rzp);
  dm.set_zero_point(dzp);
  params.set_bias(bias);
  params.set_channel_dimension(by_col ? ruy::ChannelDimension::kCol : ruy::ChannelDimension::kRow);
  params.set_perchannel_buffers_capacity_rounding(rounding);
  D lo = std::numeric_limits<D>::lowest(), hi = std::numeric_limits<D>::max();
  if (!raw && Cfg("clamp")) {
    lo = Any<D>("lo");
    hi = Any<D>("hi");
    verif_assume(lo <= hi);
    SetClamp(&params, lo, hi);
  }
  // The documented accumulators, modulo 2^32
  std::int32_t* acc = static_cast<std::int32_t*>(verif_alloc(m * n * 4, "accumulators"));
  for (int i = 0; i < m; i++) {
    for (int j = 0; j < n; j++) {
      std::uint32_t a = 0;
      for (int d = 0; d < k; d++) {
        const std::int32_t x = static_cast<std::int32_t>(lhs.At(i, d)) - lzp;
        const std::int32_t y = static_cast<std::int32_t>(rhs.At(d, j)) - rzp;
        a += static_cast<std::uint32_t>(x) * static_cast<std::uint32_t>(y);
      }
      if (bias) a += static_cast<std::uint32_t>(bias[by_col ? j : i]);
      acc[i * n + j] = static_cast<std::int32_t>(a);
      if (!raw) {
        // the intermediate values of the formula are 32-bit
        const int c = by_col ? j : i;
        if (es[c] > 0) {
          const std::int64_t s = static_cast<std::int64_t>(acc[i * n + j]) << es[c];
          verif_assume(Fits(s));
        }
        if (es[c] >= 0) {
          // the two roundings are the same for these exponents; stated in both forms
          const std::int64_t s = OneRounding(acc[i * n + j], ms[c], es[c]);
          const std::int64_t t = TwoRoundings(acc[i * n + j], ms[c], es[c]);
          const bool fits = ThePath() == ruy::Path::kStandardCpp
                                ? Fits(s) & Fits(s + dzp)
                                : Fits(s) & Fits(s + dzp) & Fits(t) & Fits(t + dzp);
          verif_assume(fits);
        }
      }
    }
  }
  SetMultipliers(&params, perchannel, ms, es);
  Multiply(lm, rm, params, &dm, dst);
  for (int i = 0; i < m && !shared; i++) {
    for (int j = 0; j < n; j++) {
      const D got = dst.At(i, j);
      verif_out("dst", got);
      const std::int32_t a = acc[i * n + j];
      if (raw) {
        verif_assert(got == Final<D>(a, 0, lo, hi), "destination entry equals the formula");
      } else {
        const int c = by_col ? j : i;
        const D one = Final<D>(OneRounding(a, ms[c], es[c]), dzp, lo, hi);
        if (ThePath() == ruy::Path::kStandardCpp) {
          verif_assert(got == one, "destination entry equals the formula");
        } else {
          const D two = Final<D>(TwoRoundings(a, ms[c], es[c]), dzp, lo, hi);
          const bool either = (got == two) | (got == one);
          verif_assert(either, "destination entry equals the formula");
        }
      }
    }
  }
  dst.CheckGaps();
  lhs.CheckUnchanged();
  rhs.CheckUnchanged();
  lhs.Free();
  rhs.Free();
  dst.Free();
  verif_free(ms);
  verif_free(es);
  verif_free(acc);
  if (bias) verif_free(bias);
  if (!shared) verif_assert(verif_heap_live() == live, "no memory kept after the context is gone");
}

// Floating-point: L x R -> float
template <typename L, typename R, typename Acc>
void FloatMul() {
  const std::int64_t live = verif_heap_live();
  const int m = Cfg("m"), k = Cfg("k"), n = Cfg("n");
  Operand<L> lhs;
  Operand<R> rhs;
  Operand<float> dst;
  lhs.Init(m, k, Cfg("lo"), Cfg("ls"));
  rhs.Init(k, n, Cfg("ro"), Cfg("rs"));
  dst.Init(m, n, Cfg("do"), Cfg("ds"));
  for (int i = 0; i < m; i++)
    for (int d = 0; d < k; d++) lhs.At(i, d) = verif_f32("l");
  for (int d = 0; d < k; d++)
    for (int j = 0; j < n; j++) rhs.At(d, j) = verif_f32("r");
  lhs.Save();
  rhs.Save();
  const bool by_col = Cfg("bycol");
  const int channels = by_col ? n : m;
  const int rounding = Cfg("rounding");
  const int capacity = (channels + rounding - 1) / rounding * rounding;
  Acc* bias = nullptr;
  if (Cfg("bias")) {
    bias = static_cast<Acc*>(verif_alloc(capacity * sizeof(Acc), "bias"));
    std::memset(bias, 0, capacity * sizeof(Acc));
    for (int i = 0; i < channels; i++) bias[i] = verif_f32("b");
  }
  ruy::MulParams<Acc, float> params;
  ruy::Matrix<L> lm;
  ruy::Matrix<R> rm;
  ruy::Matrix<float> dm;
  lhs.Describe(&lm);
  rhs.Describe(&rm);
  dst.Describe(&dm);
  params.set_bias(bias);
  params.set_channel_dimension(by_col ? ruy::ChannelDimension::kCol : ruy::ChannelDimension::kRow);
  params.set_perchannel_buffers_capacity_rounding(rounding);
  // 2: only an upper bound, 3: only a lower bound
  const int clamp = Cfg("clamp");
  const bool lower = clamp == 1 || clamp == 3, upper = clamp == 1 || clamp == 2;
  float lo = 0, hi = 0;
  if (clamp) {
    lo = verif_f32("lo");
    hi = verif_f32("hi");
    verif_assume(lo <= hi);
    if (lower) params.set_clamp_min(lo);
    if (upper) params.set_clamp_max(hi);
  }
  Multiply(lm, rm, params, &dm, dst);
  for (int i = 0; i < m && !shared; i++) {
    for (int j = 0; j < n; j++) {
      Acc a = bias ? bias[by_col ? j : i] : 0;
      for (int d = 0; d < k; d++) a += static_cast<Acc>(lhs.At(i, d)) * static_cast<Acc>(rhs.At(d, j));
      const float got = dst.At(i, j);
      if (upper) a = a > hi ? hi : a;
      if (lower) a = a < lo ? lo : a;
      verif_assert_feq(got, static_cast<float>(a), "destination entry equals the sum of products");
    }
  }
  dst.CheckGaps();
  lhs.CheckUnchanged();
  rhs.CheckUnchanged();
  lhs.Free();
  rhs.Free();
  dst.Free();
  if (bias) verif_free(bias);
  if (!shared) verif_assert(verif_heap_live() == live, "no memory kept after the context is gone");
}
}  // namespace

extern "C" {
void mul_i8_i8_i8() { IntMul<std::int8_t, std::int8_t, std::int8_t>(); }
void mul_i8_i8_u8() { IntMul<std::int8_t, std::int8_t, std::uint8_t>(); }
void mul_u8_u8_u8() { IntMul<std::uint8_t, std::uint8_t, std::uint8_t>(); }
void mul_u8_u8_i16() { IntMul<std::uint8_t, std::uint8_t, std::int16_t>(); }
void mul_i8_i8_i32() { IntMul<std::int8_t, std::int8_t, std::int32_t>(); }
void mul_u8_i8_i16() { IntMul<std::uint8_t, std::int8_t, std::int16_t>(); }
void mul_i8_i16_i16() { IntMul<std::int8_t, std::int16_t, std::int16_t>(); }
void mul_i16_i8_i16() { IntMul<std::int16_t, std::int8_t, std::int16_t>(); }
void mul_i16_i16_i16() { IntMul<std::int16_t, std::int16_t, std::int16_t>(); }
void mul_i8_i16_i8() { IntMul<std::int8_t, std::int16_t, std::int8_t>(); }
void mul_i8_i16_i32() { IntMul<std::int8_t, std::int16_t, std::int32_t>(); }
void mul_i16_i8_i32() { IntMul<std::int16_t, std::int8_t, std::int32_t>(); }
void mul_f32() { FloatMul<float, float, float>(); }
void mul_f64_f32() { FloatMul<double, float, double>(); }

// Multiplications one after another on one context.
void mul_history() {
  const std::int64_t live = verif_heap_live();
  const int steps = verif_cfg("steps"), repeat = verif_cfg("repeat");
  {
    ruy::Context context;
    shared = &context;
    std::int64_t bytes = 0;
    for (int i = 0; i < steps * repeat; i++) {
      step = i % steps;
      const int type = Cfg("type");
      if (type == 0) {
        mul_i8_i8_i8();
      } else if (type == 1) {
        mul_f32();
      } else if (type == 2) {
        mul_u8_u8_i16();
      } else if (type == 3) {
        mul_i8_i8_i32();
      } else {
        mul_i8_i16_i16();
      }
      // every kind of multiplication has been seen twice: nothing grows
      if (i == steps * 2 - 1) bytes = verif_heap_bytes();
      if (i >= steps * 2) verif_assert(verif_heap_bytes() == bytes, "scratch memory is reused");
    }
    step = -1;
    shared = nullptr;
  }
  verif_assert(verif_heap_live() == live, "no memory kept after the context is gone");
  verif_reach("end history");
}
}
