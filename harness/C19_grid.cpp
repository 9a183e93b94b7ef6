// VH: libs= ros=0 flavour=asan twin=1
// Landing grid container: random operation histories mirrored on a plain model; every observable compared after each.
#include "safe_landing_planner/grid.hpp"
#include "vh.h"

using avoidance::Grid;
using Eigen::Vector2f;
using Eigen::Vector2i;
using Eigen::Vector3f;

namespace {
struct M {
  float size, cell;
  int n;
  std::vector<float> mean, var;
  std::vector<float> em, ev;  // rounding allowed: relative to what was blended into the cell, not to the result
  std::vector<int> cnt, land;
  bool limits = false;
  float px = 0, py = 0, limSize = 0;
  void resize(float s, float c) {
    size = s;
    cell = c;
    n = (int)std::ceil(s / c);
    mean.assign(n * n, 0);
    var = em = ev = mean;
    cnt.assign(n * n, 0);
    land = cnt;
  }
};
std::string diff(Grid& g, const M& m) {
  if (g.getRowColSize() != m.n) return vh::fmt("getRowColSize() %d, expected %d", g.getRowColSize(), m.n);
  if (g.getGridSize() != m.size || g.getCellSize() != m.cell) return vh::fmt("size %g/%g, expected %g/%g", g.getGridSize(), g.getCellSize(), m.size, m.cell);
  Eigen::MatrixXf me = g.getMean(), va = g.getVariance();
  Eigen::MatrixXi co = g.getCounter();
  if (me.rows() != m.n || me.cols() != m.n || va.rows() != m.n || va.cols() != m.n || co.rows() != m.n || co.cols() != m.n || g.land_.rows() != m.n ||
      g.land_.cols() != m.n || g.mean_.rows() != m.n || g.mean_.cols() != m.n)
    return "matrix dimensions differ from the row/column size";
  for (int i = 0; i < m.n; i++)
    for (int j = 0; j < m.n; j++) {
      int k = i * m.n + j;
      Vector2i ix(i, j);
      float tm = 1e-6f + 1e-5f * std::fabs(m.mean[k]) + m.em[k], tv = 1e-6f + 1e-5f * std::fabs(m.var[k]) + m.ev[k];
      if (!(std::fabs(g.getMean(ix) - m.mean[k]) <= tm) || me(i, j) != g.getMean(ix) || g.mean_(i, j) != me(i, j)) return vh::fmt("mean(%d,%d) %.9g, expected %.9g", i, j, g.getMean(ix), m.mean[k]);
      if (!(std::fabs(g.getVariance(ix) - m.var[k]) <= tv) || va(i, j) != g.getVariance(ix)) return vh::fmt("variance(%d,%d) %.9g, expected %.9g", i, j, g.getVariance(ix), m.var[k]);
      if (g.getCounter(ix) != m.cnt[k] || co(i, j) != m.cnt[k]) return vh::fmt("counter(%d,%d) %d, expected %d", i, j, g.getCounter(ix), m.cnt[k]);
      if (g.land_(i, j) != m.land[k]) return vh::fmt("land(%d,%d) %d, expected %d", i, j, g.land_(i, j), m.land[k]);
    }
  if (m.limits) {
    Vector2f lo, hi;
    g.getGridLimits(lo, hi);
    float t = 1e-5f * (1 + std::fabs(m.px) + std::fabs(m.py) + m.limSize);
    if (std::fabs(lo.x() - (m.px - m.limSize / 2)) > t || std::fabs(hi.x() - (m.px + m.limSize / 2)) > t || std::fabs(lo.y() - (m.py - m.limSize / 2)) > t ||
        std::fabs(hi.y() - (m.py + m.limSize / 2)) > t)
      return vh::fmt("limits x [%g, %g] y [%g, %g] around (%g, %g) size %g", lo.x(), hi.x(), lo.y(), hi.y(), m.px, m.py, m.limSize);
  }
  return "";
}
void sizes(vh::Rng& r, float& s, float& c) {
  c = r.pick({0.1f, 0.25f, 0.5f, 1.f, 2.f, 0.3f, 0.7f, r.unif(0.1f, 3.f)});
  s = r.chance(0.5) ? c * r.range(1, 30) : r.unif(c, c * 30);
  if (r.chance(0.1)) s = c;
}
}  // namespace

VH_SUITE(history, 5000, 100000) {
  auto& r = c.rng;
  float s, ce;
  sizes(r, s, ce);
  M m;
  m.resize(s, ce);
  Grid g(s, ce);
  vh::Hasher h;
  std::string d = diff(g, m);
  if (!d.empty()) c.fail("initial", d);
  // a second grid of the same size, for combining
  for (int op = 0, n = r.range(5, 40); op < n; op++) {
    const char* what = "";
    switch (r.range(0, 8)) {
      case 0:
        what = "reset";
        g.reset();
        std::fill(m.mean.begin(), m.mean.end(), 0.f);
        std::fill(m.var.begin(), m.var.end(), 0.f);
        std::fill(m.em.begin(), m.em.end(), 0.f);
        std::fill(m.ev.begin(), m.ev.end(), 0.f);
        std::fill(m.cnt.begin(), m.cnt.end(), 0);
        std::fill(m.land.begin(), m.land.end(), 0);
        break;
      case 1:
        what = "resize";
        if (r.chance(0.7)) sizes(r, s, ce);
        g.resize(s, ce);
        m.resize(s, ce);
        break;
      case 2: {
        what = "limits";
        float mag = r.pick({1.f, 50.f, 1000.f});
        Vector3f p(r.unif(-mag, mag), r.unif(-mag, mag), r.unif(-mag, mag));
        g.setFilterLimits(p);
        m.limits = true;
        m.px = p.x();
        m.py = p.y();
        m.limSize = m.size;
        break;
      }
      case 3: {
        what = "combine";
        Grid p(s, ce);
        float a = r.pick({0.f, 1.f, 0.5f, 0.9f, r.unif(0, 1)});
        for (int i = 0; i < m.n; i++)
          for (int j = 0; j < m.n; j++) {
            float x = r.unif(-50, 50), y = r.unif(0, 20);
            p.setMean({i, j}, x);
            p.setVariance({i, j}, y);
            p.setCounter({i, j}, 7);
            p.land_(i, j) = 1;
            int k = i * m.n + j;
            m.em[k] = (1 - a) * m.em[k] + 1e-6f * (std::fabs(x) + std::fabs(m.mean[k]));
            m.ev[k] = (1 - a) * m.ev[k] + 1e-6f * (y + m.var[k]);
            m.mean[k] = a * x + (1 - a) * m.mean[k];
            m.var[k] = a * y + (1 - a) * m.var[k];
          }
        p.setFilterLimits(Vector3f(999, 999, 0));
        const Grid before = p;
        g.combine(p, a);
        if (before.getMean() != p.getMean() || before.getVariance() != p.getVariance()) c.fail("combine-changes-source", "");
        break;
      }
      default: {
        what = "cell";
        for (int q = r.range(1, 30); q > 0; q--) {
          int i = r.range(0, m.n - 1), j = r.range(0, m.n - 1), k = i * m.n + j;
          switch (r.range(0, 4)) {
            case 0:
              m.mean[k] = r.unif(-50, 50);
              m.em[k] = 0;
              g.setMean({i, j}, m.mean[k]);
              break;
            case 1:
              m.var[k] = r.unif(0, 50);
              m.ev[k] = 0;
              g.setVariance({i, j}, m.var[k]);
              break;
            case 2:
              m.cnt[k]++;
              g.increaseCounter({i, j});
              break;
            case 3:
              m.cnt[k] = r.range(0, 100);
              g.setCounter({i, j}, m.cnt[k]);
              break;
            default:
              m.land[k] = r.range(0, 1);
              g.land_(i, j) = m.land[k];
          }
        }
      }
    }
    d = diff(g, m);
    c.count("states compared");
    c.count(what);
    if (!d.empty()) {
      c.fail(std::string("after-") + what, d);
      return;
    }
    // a copy is independent
    if (r.chance(0.1)) {
      Grid cp = g;
      cp.setMean({0, 0}, 12345.f);
      cp.land_(0, 0) = 77;
      cp.increaseCounter({0, 0});
      if (!diff(g, m).empty()) c.fail("copy-aliases", diff(g, m));
      Grid as(3.f, 1.f);
      as = g;
      if (!diff(as, m).empty()) c.fail("assigned-copy", diff(as, m));
    }
    h << std::string(what) << m.n;
  }
  // the digest folds every observable so that uninitialised reads show between the two runs
  for (float x : m.mean) h << x;
  Eigen::MatrixXf me = g.getMean();
  vh::Hasher dg;
  for (int i = 0; i < me.size(); i++) dg << me.data()[i];
  if (m.limits) {
    Vector2f lo, hi;
    g.getGridLimits(lo, hi);
    dg << lo.x() << hi.y();
  }
  c.digest(dg);
  c.distinct(h);
}
