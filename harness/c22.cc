// One tile of a multiplication of large matrices. The base addresses are chosen
// so that only the part used by the tile needs memory.
#include <cstdint>
#include <cstring>
#include <type_traits>

#include "ruy/create_trmul_params.h"
#include "ruy/matrix.h"
#include "ruy/trmul_params.h"
#include "verif.h"

namespace {
constexpr ruy::Path kPaths =
    ruy::Path::kStandardCpp | ruy::Path::kAvx | ruy::Path::kAvx2Fma | ruy::Path::kAvx512;

template <typename T>
T Any(std::true_type) {
  return verif_f32("v");
}
template <typename T>
T Any(std::false_type) {
  return sizeof(T) == 1 ? static_cast<T>(verif_i8("v")) : static_cast<T>(verif_i16("v"));
}

void Equal(float a, float b) { verif_assert_feq(a, b, "the same result at every position"); }
void Equal(std::int32_t a, std::int32_t b) { verif_assert(a == b, "the same result at every position"); }

template <typename L, typename R, typename A, typename D>
struct Tile {
  int depth, used[2], stride[2], dst_stride, step[2];
  bool row_major[2];
  L* lhs;
  R* rhs;

  template <typename T>
  T* Source(int s) {
    const std::int64_t n =
        row_major[s] ? static_cast<std::int64_t>(depth - 1) * stride[s] + used[s]
                     : static_cast<std::int64_t>(used[s] - 1) * stride[s] + depth;
    T* data = static_cast<T*>(verif_alloc(n * sizeof(T), "operand"));
    for (int i = 0; i < used[s]; i++) {
      for (int k = 0; k < depth; k++) {
        data[row_major[s] ? static_cast<std::int64_t>(k) * stride[s] + i : static_cast<std::int64_t>(i) * stride[s] + k] =
            Any<T>(std::is_floating_point<T>());
      }
    }
    return data;
  }

  template <typename T>
  void Describe(int s, T* data, int start, ruy::EMat* src) {
    src->data_type = ruy::Type::Create<T>();
    src->layout.rows = depth;
    src->layout.cols = start + used[s];
    src->layout.stride = stride[s];
    src->layout.order = row_major[s] ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
    src->data = data - (row_major[s] ? start : static_cast<std::int64_t>(start) * stride[s]);
  }

  // Computes the tile at the given position into out, which has used[0] rows.
  void Run(int row, int col, D* out) {
    ruy::TrMulParams params;
    const int start[2] = {row, col};
    Describe(0, lhs, row, &params.src[ruy::Side::kLhs]);
    Describe(1, rhs, col, &params.src[ruy::Side::kRhs]);
    ruy::detail::PopulateTrMulParamsAllCompiledPaths<kPaths, L, R, A, D>(static_cast<ruy::Path>(verif_cfg("path")), &params);
    ruy::MulParams<A, D> mul_params;
    std::memcpy(params.mul_params_bytes, &mul_params, sizeof(mul_params));
    void* packed[2];
    void* sums[2];
    for (int s = 0; s < 2; s++) {
      const ruy::Side side = s ? ruy::Side::kRhs : ruy::Side::kLhs;
      ruy::PEMat* p = &params.packed_matrix[side];
      packed[s] = verif_alloc(static_cast<std::size_t>(p->layout.stride) * 16 * p->data_type.size, "packed");
      p->data = static_cast<char*>(packed[s]) - static_cast<std::int64_t>(p->layout.stride) * start[s] * p->data_type.size;
      sums[s] = verif_alloc(16 * p->sums_type.size, "sums");
      p->sums = static_cast<char*>(sums[s]) - static_cast<std::int64_t>(start[s]) * p->sums_type.size;
      params.RunPack(side, ruy::Tuning::kGeneric, start[s], start[s] + step[s]);
    }
    const std::int64_t size = static_cast<std::int64_t>(used[1] - 1) * dst_stride + used[0];
    D* dst = static_cast<D*>(verif_alloc(size * sizeof(D), "destination"));
    params.dst.data_type = ruy::Type::Create<D>();
    params.dst.layout.rows = row + used[0];
    params.dst.layout.cols = col + used[1];
    params.dst.layout.stride = dst_stride;
    params.dst.layout.order = ruy::Order::kColMajor;
    params.dst.data = dst - row - static_cast<std::int64_t>(col) * dst_stride;
    ruy::SidePair<int> from{row, col}, to{row + step[0], col + step[1]};
    params.RunKernel(ruy::Tuning::kGeneric, from, to);
    for (int j = 0; j < used[1]; j++) {
      for (int i = 0; i < used[0]; i++) out[i + j * used[0]] = dst[static_cast<std::int64_t>(j) * dst_stride + i];
    }
    verif_free(dst);
    for (int s = 0; s < 2; s++) {
      verif_free(packed[s]);
      verif_free(sums[s]);
    }
  }
};

template <typename L, typename R, typename A, typename D>
void Position() {
  Tile<L, R, A, D> t;
  t.depth = verif_cfg("depth");
  t.used[0] = verif_cfg("rows");
  t.used[1] = verif_cfg("cols");
  t.step[0] = t.step[1] = verif_cfg("tile");
  if (verif_cfg("tile") == 1) {
    t.step[0] = t.used[0];
    t.step[1] = t.used[1];
  }
  t.row_major[0] = verif_cfg("lo");
  t.row_major[1] = verif_cfg("ro");
  t.stride[0] = verif_cfg("ls");
  t.stride[1] = verif_cfg("rs");
  t.dst_stride = verif_cfg("ds");
  if (!t.stride[0]) t.stride[0] = verif_range32("stride", t.depth, 1 << 24);
  if (!t.stride[1]) t.stride[1] = verif_range32("stride", t.depth, 1 << 24);
  if (!t.dst_stride) t.dst_stride = verif_range32("stride", t.used[0], 1 << 24);
  t.lhs = t.template Source<L>(0);
  t.rhs = t.template Source<R>(1);
  const int row = 16 * verif_range32("row", 0, verif_cfg("last") / 16);
  const int col = 16 * verif_range32("col", 0, verif_cfg("last") / 16);
  D there[256], here[256];
  t.Run(row, col, there);
  t.Run(0, 0, here);
  for (int i = 0; i < t.used[0] * t.used[1]; i++) Equal(there[i], here[i]);
  verif_free(t.lhs);
  verif_free(t.rhs);
  verif_reach("tile computed");
}
}  // namespace

extern "C" {
void c22_i8() { Position<std::int8_t, std::int8_t, std::int32_t, std::int32_t>(); }
void c22_u8() { Position<std::uint8_t, std::uint8_t, std::int32_t, std::int32_t>(); }
void c22_i16() { Position<std::int8_t, std::int16_t, std::int32_t, std::int32_t>(); }
void c22_f32() { Position<float, float, float, float>(); }

// The address of an entry, for the caller and inside.
void c22_entry() {
  const int row = verif_range32("row", 0, 0x7fffffff), col = verif_range32("col", 0, 0x7fffffff);
  const int stride = verif_range32("stride", 1, 0x7fffffff);
  const bool row_major = verif_cfg("row_major");
  const std::int64_t outer = row_major ? row : col, inner = row_major ? col : row;
  verif_assume(inner < stride);
  const std::int64_t expected = outer * stride + inner;
  verif_assume(expected < std::int64_t(1) << 46);
  char* p = static_cast<char*>(verif_alloc(1, "entry"));
  ruy::Matrix<char> matrix;
  matrix.mutable_layout()->set_order(row_major ? ruy::Order::kRowMajor : ruy::Order::kColMajor);
  matrix.mutable_layout()->set_stride(stride);
  matrix.set_data(p - expected);
  verif_assert(ruy::ElementPtr(&matrix, row, col) == p, "address of an entry");
  ruy::Mat<char> mat;
  mat.layout.order = matrix.layout().order();
  mat.layout.stride = stride;
  mat.data.set(p - expected);
  verif_assert(ruy::ElementPtr(&mat, row, col) == p, "address of an entry");
  verif_free(p);
  verif_reach("entry");
}
}
