// Small harness framework shared by all monitors: deterministic cases, monitors' verdicts, coverage counters.
// A suite is a function run for case indices 0..N-1; every case draws all its randomness from an RNG seeded by
// (VERIF_SEED, suite name, case index), so a case is replayed by naming those three.
#pragma once
#include <array>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {
    next();
    next();
  }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)((int64_t)hi - lo + 1)); }  // inclusive
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  float unif(float lo, float hi) {
    float f = (float)uni(lo, hi);
    return f < lo ? lo : f > hi ? hi : f;
  }
  bool chance(double p) { return unit() < p; }
  double gauss() {
    double u = 1.0 - unit(), v = unit();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }
};

inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  return hashBytes(s.data(), s.size(), h);
}
struct Hasher {
  uint64_t h = 1469598103934665603ull;
  Hasher& operator<<(const std::string& s) {
    h = hashStr(s, h);
    return *this;
  }
  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, Hasher&>::type operator<<(T v) {
    h = hashBytes(&v, sizeof v, h);
    return *this;
  }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ULP-scale comparison helpers. close(): |a-b| <= abs + rel*max(|a|,|b|); NaN never close unless both NaN.
inline bool close(double a, double b, double abs_tol, double rel = 0.0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= abs_tol + rel * std::max(std::fabs(a), std::fabs(b));
}
// signed angular difference in (-180,180]
inline double angDiff(double a, double b) {
  double d = std::fmod(a - b, 360.0);
  if (d > 180) d -= 360;
  if (d <= -180) d += 360;
  return d;
}

struct Case {
  Rng rng;
  int index;
  bool thorough;
  const char* suite;
  bool verbose;
  Case(uint64_t seed, int i, bool t, const char* s, bool v) : rng(seed), index(i), thorough(t), suite(s), verbose(v) {}
  // A monitor saw the property broken. key: stable name of the broken clause.
  void fail(const std::string& key, const std::string& detail);
  void expect(bool ok, const char* key, const std::string& detail) {
    if (!ok) fail(key, detail);
  }
  // Something observed (event counts shown in the evidence).
  void count(const char* name, uint64_t n = 1);
  // A distinct non-trivial thing observed.
  void distinct(uint64_t h);
  void distinct(const Hasher& h) { distinct(h.h); }
  void sample(const std::string& s);
  // Folds an observable result of this case; runs under different heap fill bytes must agree (twin runs).
  void digest(uint64_t h);
  void digest(const Hasher& h) { digest(h.h); }
  void stop();             // run nothing more in this process: threads that will not end are about
  void evals(uint64_t n);  // evaluations beyond the one the case counts for
};

using SuiteFn = void (*)(Case&);
struct Suite {
  const char* name;
  int quick, thorough;
  SuiteFn fn;
  int watchdog_s;
};
std::vector<Suite>& suites();
struct Reg {
  Reg(const char* n, int q, int t, SuiteFn f, int wd = 60) { suites().push_back({n, q, t, f, wd}); }
};
#define VH_SUITE(NAME, QUICK, THOROUGH)                                     \
  static void vh_suite_##NAME(vh::Case& c);                                 \
  static vh::Reg vh_reg_##NAME(#NAME, QUICK, THOROUGH, &vh_suite_##NAME);   \
  static void vh_suite_##NAME(vh::Case& c)
#define VH_SUITE_WD(NAME, QUICK, THOROUGH, WD)                                \
  static void vh_suite_##NAME(vh::Case& c);                                   \
  static vh::Reg vh_reg_##NAME(#NAME, QUICK, THOROUGH, &vh_suite_##NAME, WD); \
  static void vh_suite_##NAME(vh::Case& c)

}  // namespace vh
