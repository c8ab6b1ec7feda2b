// Routes the synchronization of the sources through the runtime of the run.
#include <pthread.h>

extern "C" int verif_mutex_lock(pthread_mutex_t*);
extern "C" int verif_mutex_trylock(pthread_mutex_t*);
extern "C" int verif_mutex_unlock(pthread_mutex_t*);
#define pthread_mutex_lock verif_mutex_lock
#define pthread_mutex_trylock verif_mutex_trylock
#define pthread_mutex_unlock verif_mutex_unlock
