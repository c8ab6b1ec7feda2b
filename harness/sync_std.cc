// The parts of the standard library that live in its shared object, on top of
// the runtime of the run.
#include "concurrent.h"

#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>

namespace std {
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() {}
void condition_variable::wait(unique_lock<mutex>& lock) { verif_cond_wait(this, lock.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { verif_cond_notify(this, false); }
void condition_variable::notify_all() noexcept { verif_cond_notify(this, true); }
void thread::_M_start_thread(_State_ptr state, void (*)()) {
  void (*run)(void*) = [](void* p) {
    _State_ptr s(static_cast<_State*>(p));
    s->_M_run();
  };
  _M_id = id(static_cast<pthread_t>(verif_spawn(run, state.release())));
}
void thread::join() {
  verif_join(static_cast<int>(native_handle()));
  _M_id = id();
}
thread::_State::~_State() = default;
chrono::steady_clock::time_point chrono::steady_clock::now() noexcept {
  return time_point(duration(verif_clock()));
}
}  // namespace std
