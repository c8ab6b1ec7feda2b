// Multiplications sharing constant operand data on one context, with any cache
// policies, compared with the same ones without caching.
#include <cstdint>
#include <cstring>
#include <string>

#include "ruy/ruy.h"
#include "verif.h"

namespace {
template <typename T>
T Entry(const char* name);
template <>
std::int8_t Entry<std::int8_t>(const char* name) {
  return verif_i8(name);
}
template <>
float Entry<float>(const char* name) {
  return verif_f32(name);
}

void Compare(std::int32_t got, std::int32_t want) {
  verif_out("dst", got);
  verif_assert(got == want, "destination entry as without caching");
}
void Compare(float got, float want) { verif_assert_feq(got, want, "destination entry as without caching"); }

int Step(const char* name, int i) {
  char s[16];
  int n = 0;
  while (name[n]) {
    s[n] = name[n];
    ++n;
  }
  s[n] = static_cast<char>('0' + i);
  s[n + 1] = 0;
  return static_cast<int>(verif_cfg(s));
}

template <typename T, typename D>
void Run() {
  constexpr int kSize = 96;
  const int steps = verif_cfg("steps");
  // two constant arrays used as operands of different shapes
  T* w[2];
  for (int a = 0; a < 2; a++) {
    w[a] = static_cast<T*>(verif_alloc(kSize * sizeof(T), "constant"));
    for (int i = 0; i < kSize; i++) w[a][i] = Entry<T>("w");
  }
  int policy[4][2];
  bool clear[4];
  std::int32_t zp[4];
  for (int s = 0; s < steps; s++) {
    for (int side = 0; side < 2; side++) {
      // 0: never cached, 1: any policy, 2: never or always cached, 3: always
      const int mode = verif_cfg(side ? "rhs_policy" : "lhs_policy");
      policy[s][side] = mode == 1 ? verif_range32("policy", 0, 3)
                                  : mode == 2 ? (verif_bool("cached") ? 3 : 0) : mode;
    }
    clear[s] = verif_cfg("clear") && verif_bool("clear");
    zp[s] = verif_range32("zp", -128, 127);
  }
  {
    ruy::Context context;
    for (int s = 0; s < steps; s++) {
      context.set_runtime_enabled_paths(static_cast<ruy::Path>(Step("path", s)));
      if (s && clear[s]) context.ClearPrepackedCache();
      const int m = Step("m", s), k = Step("k", s), n = Step("n", s);
      const int order = Step("order", s), stride = Step("stride", s);
      const int a = Step("lhs", s), b = Step("rhs", s);
      const bool lrow = order & 1, rrow = order >> 1 & 1;
      const int ls = (lrow ? k : m) + stride, rs = (rrow ? n : k) + stride;
      ruy::Matrix<T> lhs, rhs;
      ruy::MakeSimpleLayout(m, k, lrow ? ruy::Order::kRowMajor : ruy::Order::kColMajor, lhs.mutable_layout());
      ruy::MakeSimpleLayout(k, n, rrow ? ruy::Order::kRowMajor : ruy::Order::kColMajor, rhs.mutable_layout());
      lhs.mutable_layout()->set_stride(ls);
      rhs.mutable_layout()->set_stride(rs);
      lhs.set_data(w[a]);
      rhs.set_data(w[b]);
      const bool has_zp = !std::is_same<T, float>::value && Step("zp", s);
      const std::int32_t z = has_zp ? zp[s] : 0;
      if (has_zp) {
        verif_assume(z != -128);
        lhs.set_zero_point(static_cast<T>(z));
      }
      lhs.set_cache_policy(static_cast<ruy::CachePolicy>(verif_fork(policy[s][0])));
      rhs.set_cache_policy(static_cast<ruy::CachePolicy>(verif_fork(policy[s][1])));
      D* out = static_cast<D*>(verif_alloc(m * n * sizeof(D), "destination"));
      ruy::Matrix<D> dst;
      ruy::MakeSimpleLayout(m, n, ruy::Order::kColMajor, dst.mutable_layout());
      dst.set_data(out);
      ruy::MulParams<D, D> params;
      ruy::Mul(lhs, rhs, params, &context, &dst);
      // the same operands on a fresh context, without caching
      D* want = static_cast<D*>(verif_alloc(m * n * sizeof(D), "destination"));
      {
        ruy::Context fresh;
        fresh.set_runtime_enabled_paths(static_cast<ruy::Path>(Step("path", s)));
        lhs.set_cache_policy(ruy::CachePolicy::kNeverCache);
        rhs.set_cache_policy(ruy::CachePolicy::kNeverCache);
        dst.set_data(want);
        ruy::Mul(lhs, rhs, params, &fresh, &dst);
      }
      for (int i = 0; i < m * n; i++) Compare(out[i], want[i]);
      verif_free(want);
      verif_free(out);
    }
  }
  for (int a = 0; a < 2; a++) verif_free(w[a]);
  verif_assert(verif_heap_live() == 0, "nothing is kept once the context is gone");
  verif_reach("end");
}
}  // namespace

extern "C" {
void c10_i8() { Run<std::int8_t, std::int32_t>(); }
void c10_f32() { Run<float, float>(); }
}
