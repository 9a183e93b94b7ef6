#pragma once
// Stand-in for roscpp's time types, driven by a virtual clock the harness owns.
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iostream>
#include <mutex>
#include <stdexcept>
#include <thread>

#ifdef __SANITIZE_THREAD__
extern "C" {
void AnnotateIgnoreSyncBegin(const char*, int);
void AnnotateIgnoreSyncEnd(const char*, int);
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
}
#endif
namespace rosmock {
// The stand-in's own locks must not order the code under test for ThreadSanitizer: a node that publishes now and then would
// otherwise look synchronised with everything else that publishes.
#ifdef __SANITIZE_THREAD__
struct Unseen {
  Unseen() {
    AnnotateIgnoreSyncBegin(__FILE__, __LINE__);
    AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
    AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
  }
  ~Unseen() {
    AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
    AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
    AnnotateIgnoreSyncEnd(__FILE__, __LINE__);
  }
  Unseen(const Unseen&) = delete;
};
#else
struct Unseen {
  Unseen() {}
  ~Unseen() {}
  Unseen(const Unseen&) = delete;
};
#endif
template <class M>
struct Lk {
  Unseen u;
  std::lock_guard<M> l;
  explicit Lk(M& m) : l(m) {}
};
inline std::atomic<int64_t>& clockNs() {
  static std::atomic<int64_t> t{1000LL * 1000000000LL};
  return t;
}
inline int64_t clockNow() { return clockNs().load(std::memory_order_relaxed); }
inline void setTime(double s) { clockNs().store(static_cast<int64_t>(s * 1e9), std::memory_order_relaxed); }
inline void advance(double s) { clockNs().fetch_add(static_cast<int64_t>(s * 1e9), std::memory_order_relaxed); }
// called instead of really sleeping (ns)
inline std::function<void(int64_t)>& sleepHook() {
  static std::function<void(int64_t)> f;
  return f;
}
inline void doSleep(int64_t ns) {
  if (sleepHook()) {
    sleepHook()(ns);
    return;
  }
  if (ns > 0) std::this_thread::sleep_for(std::chrono::microseconds(200));
}
}  // namespace rosmock

namespace ros {
class Duration {
 public:
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(int32_t s, int32_t ns) { fromNSec(int64_t(s) * 1000000000LL + ns); }
  explicit Duration(double d) {
    if (!(d >= -2147483648.0 && d < 2147483648.0)) throw std::runtime_error("Duration is out of dual 32-bit range");
    int64_t s = static_cast<int64_t>(std::floor(d));
    fromNSec(s * 1000000000LL + static_cast<int64_t>(std::llround((d - s) * 1e9)));
  }
  Duration& fromNSec(int64_t t) {
    int64_t s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) {
      n += 1000000000LL;
      --s;
    }
    if (s < INT32_MIN || s > INT32_MAX) throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = s;
    nsec = n;
    return *this;
  }
  int64_t toNSec() const { return int64_t(sec) * 1000000000LL + nsec; }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  Duration& fromSec(double d) { return *this = Duration(d); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const {
    rosmock::doSleep(toNSec());
    return true;
  }
  Duration operator+(const Duration& o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration& operator+=(const Duration& o) { return *this = *this + o; }
  Duration& operator-=(const Duration& o) { return *this = *this - o; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
};
typedef Duration WallDuration;

class Time {
 public:
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t ns) : sec(s), nsec(ns) {}
  explicit Time(double t) { fromSec(t); }
  static Time now() { return Time().fromNSec(rosmock::clockNs().load(std::memory_order_relaxed)); }
  static void init() {}
  static bool isValid() { return true; }
  Time& fromNSec(int64_t t) {
    if (t < 0 || t / 1000000000LL > int64_t(UINT32_MAX)) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = t / 1000000000LL;
    nsec = t % 1000000000LL;
    return *this;
  }
  Time& fromSec(double t) {
    if (!(t >= 0 && t < 4294967296.0)) throw std::runtime_error("Time is out of dual 32-bit range");
    int64_t s = static_cast<int64_t>(std::floor(t));
    return fromNSec(s * 1000000000LL + static_cast<int64_t>(std::llround((t - s) * 1e9)));
  }
  int64_t toNSec() const { return int64_t(sec) * 1000000000LL + nsec; }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator-(const Time& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Time operator+(const Duration& d) const { return Time().fromNSec(toNSec() + d.toNSec()); }
  Time operator-(const Duration& d) const { return Time().fromNSec(toNSec() - d.toNSec()); }
  Time& operator+=(const Duration& d) { return *this = *this + d; }
  Time& operator-=(const Duration& d) { return *this = *this - d; }
  bool operator==(const Time& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
};
typedef Time WallTime;
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.toSec(); }
inline std::ostream& operator<<(std::ostream& os, const Duration& t) { return os << t.toSec(); }

class Rate {
  Duration d_;

 public:
  explicit Rate(double hz) : d_(1.0 / hz) {}
  bool sleep() { return d_.sleep(); }
};
}  // namespace ros
