// The floating-point control state around and during a multiplication.
#include <immintrin.h>

#include "trmul_unit.h"

namespace {
int kernels_run, packs_run;

void CheckState() {
  verif_assert((_mm_getcsr() & 0x8040) == 0x8040, "denormals are suppressed while computing");
}
void Pack(ruy::Tuning, const ruy::EMat&, ruy::PEMat*, int, int) { ++packs_run; }
void Kernel(ruy::Tuning, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>&,
            const ruy::SidePair<int>&, ruy::EMat*) {
  CheckState();
  ++kernels_run;
}
// Everything but the sticky exception flags.
unsigned Control(unsigned state) { return state & ~0x3fu; }
// every state with the exceptions masked
unsigned AnyState() { return (verif_range32("mxcsr", 0, 0xffff) & ~0x1f80u) | 0x1f80u; }
}  // namespace

extern "C" void c13_multiplications() {
  const int n = verif_cfg("n");
  unsigned states[3];
  for (int i = 0; i < n; i++) states[i] = AnyState();
  const unsigned original = _mm_getcsr();
  {
    ruy::Context context;
    for (int i = 0; i < n; i++) {
      ruy::TrMulParams params;
      DescribeTrMul(&params, verif_cfg("rows"), verif_cfg("cols"), verif_cfg("depth"), 8, 8, 4, 4, Pack, Pack, Kernel);
      kernels_run = 0;
      _mm_setcsr(states[i]);
      ruy::MulFrontEndFromTrMulParams(ruy::get_ctx(&context), &params);
      const unsigned after = _mm_getcsr();
      _mm_setcsr(original);
      verif_out("after", Control(after));
      verif_assert(Control(after) == Control(states[i]), "control state restored");
      verif_assert(kernels_run >= 1, "something was computed");
      if (kernels_run > 1) verif_reach("blocked");
    }
  }
  verif_reach("end");
}

// The real packing and kernels on the public entry point.
#include "ruy/ruy.h"
extern "C" void c13_mul() {
  const int m = verif_cfg("rows"), n = verif_cfg("cols"), k = verif_cfg("depth");
  float* data = static_cast<float*>(verif_alloc((m * k + k * n + m * n) * sizeof(float), "data"));
  for (int i = 0; i < m * k + k * n; i++) data[i] = 1;
  const unsigned state = AnyState();
  const unsigned original = _mm_getcsr();
  {
    ruy::Context context;
    context.set_runtime_enabled_paths(static_cast<ruy::Path>(verif_cfg("path")));
    ruy::Matrix<float> lhs, rhs, dst;
    ruy::MakeSimpleLayout(m, k, ruy::Order::kRowMajor, lhs.mutable_layout());
    ruy::MakeSimpleLayout(k, n, ruy::Order::kColMajor, rhs.mutable_layout());
    ruy::MakeSimpleLayout(m, n, ruy::Order::kColMajor, dst.mutable_layout());
    lhs.set_data(data);
    rhs.set_data(data + m * k);
    dst.set_data(data + m * k + k * n);
    lhs.set_cache_policy(static_cast<ruy::CachePolicy>(verif_cfg("policy")));
    ruy::MulParams<float, float> params;
    _mm_setcsr(state);
    ruy::Mul(lhs, rhs, params, &context, &dst);
    const unsigned after = _mm_getcsr();
    _mm_setcsr(original);
    verif_assert(Control(after) == Control(state), "control state restored");
  }
  verif_free(data);
  verif_reach("end mul");
}
