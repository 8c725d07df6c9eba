// Schedule perturbation: linked with -Wl,--wrap=..., every mutex / condition operation of the code under test
// goes through these and may be delayed. No source of /repo is touched.
#ifndef VP_PERTURB_H
#define VP_PERTURB_H
#include "vp.h"
#include <pthread.h>
#include <sched.h>

namespace vp {
// 0 = off, otherwise per-mille probability of a delay
inline std::atomic<int>& perturbLevel() {
  static std::atomic<int> l{0};
  return l;
}
inline std::atomic<uint64_t>& perturbSeed() {
  static std::atomic<uint64_t> l{1};
  return l;
}
inline std::atomic<uint64_t>& perturbCount() {
  static std::atomic<uint64_t> l{0};
  return l;
}
inline void maybeDelay() {
  int lvl = perturbLevel().load(std::memory_order_relaxed);
  if (lvl == 0) {
    return;
  }
  static thread_local uint64_t s = 0;
  if (s == 0) {
    s = mix(perturbSeed().fetch_add(1, std::memory_order_relaxed), 99);
  }
  uint64_t r = splitmix(s);
  if (static_cast<int>(r % 1000) < lvl) {
    perturbCount().fetch_add(1, std::memory_order_relaxed);
    unsigned kind = (r >> 20) % 8;
    if (kind < 5) {
      sched_yield();
    } else {
      struct timespec ts = {0, static_cast<long>(1000 * (1 + (r >> 30) % (kind == 7 ? 400 : 60)))};
      nanosleep(&ts, nullptr);
    }
  }
}
inline void perturb(Rng& rng) {
  static const std::vector<int> levels{0, 50, 200, 500};
  perturbSeed() = rng.next();
  perturbLevel() = rng.pick(levels);
}
}  // namespace vp

#ifdef VP_PERTURB_IMPL
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  vp::maybeDelay();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  vp::maybeDelay();
  return r;
}
}
#endif
#endif
