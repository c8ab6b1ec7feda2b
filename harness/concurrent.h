// Harness interface for code that runs on several threads.
#ifndef CONCURRENT_H_
#define CONCURRENT_H_

enum { kPackLhs = 0, kPackRhs = 1, kKernel = 2 };

extern "C" {
// Runs verif_thread(0) ... verif_thread(n - 1) concurrently.
void verif_parallel(int n);
void verif_thread(int i);
// What the current thread does: packs columns [a, b) of a side, or computes
// the block [a, b) x [c, d).
void verif_event(int kind, int a, int b, int c, int d);
// Columns of a packed side, and whether packing it is left out.
void verif_domain(int side, int width, bool prepacked);
// What the standard library needs. Starts a thread that calls run(state).
int verif_spawn(void (*run)(void*), void* state);
void verif_join(int thread);
void verif_cond_wait(void* condition, void* mutex);
void verif_cond_notify(void* condition, bool all);
long long verif_clock();
}
#endif
