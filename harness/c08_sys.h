// Routes the system allocation calls of the sources compiled with this header
// to a model of the system allocator (harness/c08.cc).
#include <malloc.h>
#include <stdlib.h>

#include <cstdlib>
#include <memory>
#include <new>
#include <vector>

extern "C" {
int verif_posix_memalign(void** p, size_t align, size_t n);
void* verif_aligned_alloc(size_t align, size_t n);
void* verif_malloc(size_t n);
void verif_sys_free(void* p);
}
namespace std {
using ::verif_aligned_alloc;
using ::verif_malloc;
using ::verif_sys_free;
}  // namespace std
#define posix_memalign verif_posix_memalign
#define aligned_alloc verif_aligned_alloc
#define memalign verif_aligned_alloc
#define malloc verif_malloc
#define free verif_sys_free
