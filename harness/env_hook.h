// Routes reading the environment to the harness.
#include <stdlib.h>

#include <cstdlib>
#include <string>
extern "C" char* verif_getenv(const char* name);
namespace std {
using ::verif_getenv;
}
#define getenv verif_getenv
