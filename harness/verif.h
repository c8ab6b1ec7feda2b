// Interface between harnesses and the symbolic executor. The same harness is
// also compiled natively (verif_native.cc) to replay counterexamples.
#ifndef VERIF_H_
#define VERIF_H_
#include <cstddef>
#include <cstdint>

extern "C" {
// Fresh symbolic inputs.
std::int8_t verif_i8(const char* name);
std::int16_t verif_i16(const char* name);
std::int32_t verif_i32(const char* name);
std::int64_t verif_i64(const char* name);
float verif_f32(const char* name);
double verif_f64(const char* name);
bool verif_bool(const char* name);
std::int32_t verif_range32(const char* name, std::int32_t lo, std::int32_t hi);
std::int64_t verif_range64(const char* name, std::int64_t lo, std::int64_t hi);
void verif_bytes(void* p, std::size_t n, const char* name);
// Concrete parameter of this run, chosen by the driver.
std::int64_t verif_cfg(const char* name);
void verif_assume(bool cond);
void verif_assert(bool cond, const char* msg);
// Equality of float results up to rounding.
void verif_assert_feq(float a, float b, const char* msg);
// A value to compare between the symbolic executor and a native run.
void verif_out(const char* name, std::int64_t value);
// Reachability witness.
void verif_reach(const char* msg);
// Splits the exploration so that the value is concrete.
std::int32_t verif_fork(std::int32_t v);
std::int64_t verif_fork64(std::int64_t v);
// Heap accounting.
std::int64_t verif_heap_live();
std::int64_t verif_heap_bytes();
bool verif_is_live(const void* p, std::size_t n);
// Exact-size operand buffers.
void* verif_alloc(std::size_t n, const char* name);
void verif_free(void* p);
bool verif_symbolic();
// Simplify the fields of an object under the current path condition.
void verif_simplify(void* p, std::size_t n);
// Explore further without the conditions that relate the object to the named
// inputs (comma separated); violations are still decided with all of them.
void verif_generalize(void* p, std::size_t n, const char* names);
}
#endif
