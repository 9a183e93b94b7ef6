// VH: libs=avoidance/src/histogram.cpp ros=0 flavour=asan
// Model-based monitor of the polar histogram: every operation of a random history is mirrored on a plain array and
// every observable (reads at arbitrary integer indices, emptiness, errors) is compared with it.
#include <avoidance/histogram.h>
#include <climits>
#include <stdexcept>
#include "vh.h"
using avoidance::Histogram;
using vh::fmt;

struct Model {
  int res, E, Z;
  std::vector<double> v, w;  // value, and magnitude of what was averaged into it (rounding scale)
  explicit Model(int r) : res(r), E(180 / r), Z(360 / r), v(E * Z, 0.0), w(E * Z, 0.0) {}
  double tol(int e, int z) const { return 2e-6 * w[mod(e, E) * Z + mod(z, Z)]; }
  static int mod(long long a, int n) { return (int)(((a % n) + n) % n); }
  double get(int e, int z) const { return v[mod(e, E) * Z + mod(z, Z)]; }
  bool empty() const {
    for (double x : v)
      if (x > FLT_MIN) return false;
    return true;
  }
};

static int anyIndex(vh::Rng& r, int n) {
  switch (r.below(6)) {
    case 0: return r.range(0, n - 1);
    case 1: return r.range(-n, 2 * n);
    case 2: return r.pick({0, n - 1, n, -1, -n, -n - 1, 2 * n - 1, 2 * n});
    case 3: return r.pick({INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, INT_MIN + n, INT_MAX - n});
    case 4: return (int)r.next();
    default: return r.range(-1000, 1000);
  }
}

VH_SUITE(history, 6000, 120000) {
  auto& r = c.rng;
  const int A = avoidance::ALPHA_RES;
  int res = r.chance(0.7) ? (r.chance(0.5) ? A : 2 * A) : r.pick({1, 3, 5, 6, 10, 12, 15, 18, 30, 45, 60});
  Histogram h(res);
  Model m(res);
  vh::Hasher hs;
  int ops = r.range(5, 60);
  auto compareAll = [&](const char* after) {
    for (int e = -1; e <= m.E; e++)
      for (int z = -1; z <= m.Z; z++) {
        float g = h.get_dist(e, z);
        if (!vh::close(g, m.get(e, z), m.tol(e, z))) {
          c.fail(fmt("value-after-%s", after), fmt("res %d cell (%d,%d) reads %.9g, expected %.9g", m.res, e, z, g, m.get(e, z)));
          return;
        }
      }
    c.count("full_compares");
  };
  if (!h.isEmpty()) c.fail("fresh-not-empty", "new histogram reports an obstacle");
  compareAll("construction");
  for (int k = 0; k < ops; k++) {
    int op = r.below(100);
    hs << op / 10;
    if (op < 35) {  // write a few cells
      int n = r.range(1, 12);
      for (int i = 0; i < n; i++) {
        int e = r.pick({0, m.E - 1, r.range(0, m.E - 1)}), z = r.pick({0, m.Z - 1, r.range(0, m.Z - 1)});
        float val = r.pick({0.f, 1e-20f, r.unif(0.f, 20.f), r.unif(0, 1e4f), FLT_MIN, 2 * FLT_MIN, r.unif(-5.f, 5.f)});
        h.set_dist(e, z, val);
        m.v[e * m.Z + z] = val;
        m.w[e * m.Z + z] = std::fabs(val);
        hs << e << z;
      }
      c.count("writes", n);
    } else if (op < 60) {
      int e = anyIndex(r, m.E), z = anyIndex(r, m.Z);
      float g = h.get_dist(e, z);
      c.count("reads");
      if (!vh::close(g, m.get(e, z), m.tol(e, z)))
        c.fail("wrapped-read", fmt("res %d read(%d,%d)=%.9g, expected %.9g", m.res, e, z, g, m.get(e, z)));
      else
        c.distinct(vh::Hasher() << m.res << e << z);
    } else if (op < 70) {
      // emptiness is compared only where rounding in the averages cannot matter
      bool clear = true;
      for (double x : m.v)
        if (x != 0 && std::fabs(x) < 1e-3 && std::fabs(x) > 1e-45 && x != FLT_MIN && x != 2 * FLT_MIN) clear = false;
      bool allSmall = true;
      for (double x : m.v)
        if (x > FLT_MIN) allSmall = false;
      if (clear || allSmall) {
        c.count(m.empty() ? "empty_true" : "empty_false");
        if (h.isEmpty() != m.empty())
          c.fail("emptiness", fmt("isEmpty()=%d but the largest cell is %s", h.isEmpty(), m.empty() ? "not positive" : "positive"));
      }
    } else if (op < 80) {
      bool ok = m.res == 2 * A, threw = false;
      try {
        h.upsample();
      } catch (const std::exception&) {
        threw = true;
      }
      c.count(threw ? "upsample_refused" : "upsample");
      if (threw == ok) c.fail("upsample-guard", fmt("upsample at resolution %d %s", m.res, threw ? "refused" : "accepted"));
      if (threw != !ok) return;
      if (ok) {
        Model n(A);
        for (int e = 0; e < n.E; e++)
          for (int z = 0; z < n.Z; z++) n.v[e * n.Z + z] = m.v[(e / 2) * m.Z + z / 2], n.w[e * n.Z + z] = m.w[(e / 2) * m.Z + z / 2];
        m = n;
      }
      compareAll("upsample");
    } else if (op < 90) {
      bool ok = m.res == A, threw = false;
      try {
        h.downsample();
      } catch (const std::exception&) {
        threw = true;
      }
      c.count(threw ? "downsample_refused" : "downsample");
      if (threw == ok) c.fail("downsample-guard", fmt("downsample at resolution %d %s", m.res, threw ? "refused" : "accepted"));
      if (threw != !ok) return;
      if (ok) {
        Model n(2 * A);
        for (int e = 0; e < n.E; e++)
          for (int z = 0; z < n.Z; z++) {
            n.v[e * n.Z + z] = (m.v[2 * e * m.Z + 2 * z] + m.v[(2 * e + 1) * m.Z + 2 * z] + m.v[2 * e * m.Z + 2 * z + 1] +
                                m.v[(2 * e + 1) * m.Z + 2 * z + 1]) / 4;
            n.w[e * n.Z + z] = (m.w[2 * e * m.Z + 2 * z] + m.w[(2 * e + 1) * m.Z + 2 * z] + m.w[2 * e * m.Z + 2 * z + 1] +
                                m.w[(2 * e + 1) * m.Z + 2 * z + 1]) / 4;
          }
        m = n;
      }
      compareAll("downsample");
    } else if (op < 94) {
      h.setZero();
      std::fill(m.v.begin(), m.v.end(), 0.0);
      std::fill(m.w.begin(), m.w.end(), 0.0);
      if (!h.isEmpty()) c.fail("zeroed-not-empty", "histogram not empty after zeroing");
      compareAll("zeroing");
    } else {  // value semantics
      Histogram h2 = h;
      Model m2 = m;
      int e = r.range(0, m.E - 1), z = r.range(0, m.Z - 1);
      h.set_dist(e, z, 17.f);
      m.v[e * m.Z + z] = m.w[e * m.Z + z] = 17.0;
      float g = h2.get_dist(e, z);
      if (!vh::close(g, m2.get(e, z), m2.tol(e, z))) c.fail("copy-aliases", "a copy changed when the original was written");
      h = h2;
      m = m2;
      c.count("copies");
    }
  }
  compareAll("history");
  c.distinct(hs);
  for (int e = 0; e < m.E; e += 3)
    for (int z = 0; z < m.Z; z += 3) c.digest(vh::Hasher() << h.get_dist(e, z));
  if (c.index % 1000 == 0) c.sample(fmt("res %d, %d operations, final resolution %d", res, ops, m.res));
}
