// The middle end of a multiplication with packing and computation routines
// supplied by the harness.
#ifndef TRMUL_UNIT_H_
#define TRMUL_UNIT_H_
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/frontend.h"
#include "ruy/strategy_controls.h"
#include "ruy/trmul.h"
#include "ruy/trmul_params.h"
#include "verif.h"

inline ruy::Type TypeOfSize(int size) {
  return size == 1 ? ruy::Type::Create<std::int8_t>()
                   : size == 2 ? ruy::Type::Create<std::int16_t>() : ruy::Type::Create<float>();
}

// lhs: depth x rows (transposed), rhs: depth x cols
inline void DescribeTrMul(ruy::TrMulParams* params, int rows, int cols, int depth, int lhs_kernel, int rhs_kernel,
                          int lhs_size, int rhs_size, ruy::RunPackFn* lhs_pack, ruy::RunPackFn* rhs_pack,
                          ruy::RunKernelFn* kernel) {
  const int widths[2] = {rows, cols}, kernels[2] = {lhs_kernel, rhs_kernel}, sizes[2] = {lhs_size, rhs_size};
  params->path = ruy::Path::kStandardCpp;
  for (int s = 0; s < 2; s++) {
    const ruy::Side side = s ? ruy::Side::kRhs : ruy::Side::kLhs;
    ruy::EMat& src = params->src[side];
    ruy::PEMat& packed = params->packed_matrix[side];
    src.data_type = TypeOfSize(sizes[s]);
    src.data = reinterpret_cast<void*>(static_cast<std::uintptr_t>(4096 * (s + 1)));
    src.layout.rows = depth;
    src.layout.cols = widths[s];
    src.layout.stride = depth;
    src.layout.order = ruy::Order::kColMajor;
    packed.data_type = src.data_type;
    packed.sums_type = sizes[s] == 4 ? ruy::Type::Create<float>() : ruy::Type::Create<std::int32_t>();
    packed.layout.rows = depth;
    packed.layout.cols = (widths[s] + kernels[s] - 1) & ~(kernels[s] - 1);
    packed.layout.stride = depth;
    packed.layout.order = ruy::Order::kColMajor;
    packed.layout.kernel.rows = 1;
    packed.layout.kernel.cols = static_cast<std::uint8_t>(kernels[s]);
    params->run_pack[side] = s ? rhs_pack : lhs_pack;
  }
  params->dst.data_type = ruy::Type::Create<float>();
  params->dst.layout.rows = rows;
  params->dst.layout.cols = cols;
  params->dst.layout.stride = rows;
  params->dst.layout.order = ruy::Order::kColMajor;
  params->run_kernel = kernel;
}
#endif
