// Helpers for the multi-threaded harnesses: observed publish order, injected delays, and a measure of machine load.
#pragma once
#include <ros/time.h>
#include <atomic>
#include <chrono>
#include <mutex>
#include <string>
#include <thread>
#include "vh.h"
#ifdef VH_DELAYS
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#endif
namespace mt {
// the order in which the node's threads were seen publishing: tells one interleaving from another
class Order {
  std::mutex m_;
  vh::Hasher h_;
  std::vector<std::thread::id> ids_;

 public:
  void seen(const std::string& topic) {
    rosmock::Lk<std::mutex> l(m_);
    auto id = std::this_thread::get_id();
    size_t i = 0;
    while (i < ids_.size() && ids_[i] != id) i++;
    if (i == ids_.size()) ids_.push_back(id);
    h_ << (int)i << topic;
  }
  vh::Hasher hash() {
    rosmock::Lk<std::mutex> l(m_);
    return h_;
  }
};
// a thread that only sleeps 10 ms at a time: the longest it was kept from running says how overloaded the machine is
class Heartbeat {
  std::atomic<bool> end_{false};
  std::atomic<double> gap_{0};
  std::thread t_;

 public:
  Heartbeat() {
    t_ = std::thread([this] {
      auto last = std::chrono::steady_clock::now();
      while (!end_) {
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
        auto n = std::chrono::steady_clock::now();
        double d = std::chrono::duration<double>(n - last).count();
        if (d > gap_) gap_ = d;
        last = n;
      }
    });
  }
  double gap() const { return gap_; }
  ~Heartbeat() {
    end_ = true;
    t_.join();
  }
};
#ifdef VH_DELAYS
inline std::atomic<int>& per() {  // of a hundred operations
  static std::atomic<int> p{0};
  return p;
}
inline std::atomic<int>& us() {
  static std::atomic<int> p{0};
  return p;
}
inline std::atomic<long>& count() {
  static std::atomic<long> p{0};
  return p;
}
inline void maybe() {
  int p = per().load(std::memory_order_relaxed);
  if (!p) return;
  static std::atomic<uint64_t> seq{0x9e3779b97f4a7c15ull};
  uint64_t x = seq.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed);
  x ^= x >> 31, x *= 0xbf58476d1ce4e5b9ull, x ^= x >> 29;
  if ((int)(x % 100) >= p) return;
  count().fetch_add(1, std::memory_order_relaxed);
  struct timespec t = {0, (long)((x >> 32) % (us().load(std::memory_order_relaxed) * 1000 + 1))};
  nanosleep(&t, nullptr);
}
inline void delays(int percent, int micros) {
  us() = micros;
  per() = percent;
}
inline long delayed() { return count(); }
template <class F>
F real(const char* n, const char* v = nullptr) {
  return (F)(v ? dlvsym(RTLD_NEXT, n, v) : dlsym(RTLD_NEXT, n));
}
#else
inline void delays(int, int) {}
inline long delayed() { return 0; }
#endif
}  // namespace mt
#ifdef VH_DELAYS
// The standard library's mutexes and condition variables end up here: pause before taking, after releasing, before waiting
// (which is while the mutex is held) and before notifying.
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto f = mt::real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  mt::maybe();
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto f = mt::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  int r = f(m);
  mt::maybe();
  return r;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  static auto f = mt::real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  mt::maybe();
  return f(c, m, k, t);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  static auto f = mt::real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  mt::maybe();
  return f(c);
}
}
#endif
