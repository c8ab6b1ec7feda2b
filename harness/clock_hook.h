// Routes reading the clock to the harness.
#include <sys/time.h>
#include <time.h>

#include <chrono>
#include <ctime>
extern "C" int verif_clock_gettime(clockid_t, struct timespec* t);
#define clock_gettime verif_clock_gettime
