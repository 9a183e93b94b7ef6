// VH: libs=safe_landing_planner flavour=asan twin=1
// Landing grid statistics and landability over sequences of clouds (or recorded grids), against a double model.
#include <safe_landing_planner/safe_landing_planner.hpp>
#include "vh.h"

using namespace avoidance;
using Cfg = safe_landing_planner::SafeLandingPlannerNodeConfig;
using vh::fmt;

namespace {
struct St {  // model of one grid: value and error bound per cell
  int n = 0;
  std::vector<double> mean, var, em, ev;
  std::vector<int> cnt;
  void size(int k) {
    n = k;
    mean.assign(k * k, 0);
    var = em = ev = mean;
    cnt.assign(k * k, 0);
  }
};
enum T { NO, YES, AMB };
Cfg config(vh::Rng& r) {
  Cfg g;
  g.cell_size = r.pick({0.1, 0.25, 0.5, 1.0, 2.0, r.uni(0.1, 3)});
  int n = r.pick({1, 2, 3, 5, 8, 11, 16, 24});
  g.grid_size = r.chance(0.6) ? g.cell_size * n : g.cell_size * (n - r.uni(0.1, 0.9));
  g.grid_size = std::min(20.0, std::max(1.0, g.grid_size));
  if (g.grid_size / g.cell_size > 40) g.cell_size = g.grid_size / 40;
  g.n_points_threshold = r.pick({0.0, 1.0, 2.0, 4.0, 4.5, 10.0, 100.0});
  g.std_dev_threshold = r.pick({0.0, 0.05, 0.1, 0.2, 1.0, r.uni(0, 1)});
  g.smoothing_size = r.pick({-1, 0, 0, 1, 1, 2, 3, 7});
  int nb = (2 * std::max(0, g.smoothing_size) + 1);
  nb *= nb;
  g.mean_diff_thr = r.pick({0.0, 0.1, 0.3, 1.0, r.uni(0, 1)});
  g.max_n_mean_diff_cells = std::min(100, r.pick({0, 1, 2, nb / 4, nb / 2, nb}));
  g.min_n_land_cells = std::min(100, r.pick({0, 1, nb / 4, nb / 2, 3 * nb / 4, nb - 1, nb}));
  g.alpha = r.pick({0.0, 0.5, 0.8, 0.9, 1.0, r.uni(0, 1)});
  g.timeout_critical = 0.5;
  g.timeout_termination = 15;
  return g;
}
int cellsOk(double size, double cell, int n) {
  double q = (double)(float)size / (double)(float)cell;
  if (std::fabs(q - std::round(q)) < 1e-4) return n == (int)std::round(q) || n == (int)std::round(q) + 1;
  return n == (int)std::ceil(q);
}
struct Terrain {
  int kind;
  double a, b, base, step, noise;
  Terrain(vh::Rng& r) {
    kind = r.range(0, 4);
    base = r.pick({0.0, -3.0, 2.5, -40.0, r.uni(-5, 5)});
    a = r.pick({0.0, 0.05, 0.3}) * (r.chance(0.5) ? 1 : -1);
    b = r.chance(0.5) ? 0 : a;
    step = r.pick({0.05, 0.3, 1.0, 4.0});
    noise = r.pick({0.0, 0.001, 0.05, 0.15, 0.6});
  }
  double at(vh::Rng& r, double x, double y) const {
    double z = base + a * x + b * y;
    if (kind == 1 && x > 0) z += step;
    if (kind == 2 && std::fabs(std::fmod(x, 3)) < 1 && std::fabs(std::fmod(y, 3)) < 1) z += step;
    if (kind == 3) z += step * std::sin(x) * std::cos(y);
    return z + noise * r.gauss();
  }
};
struct Run {
  vh::Case& c;
  SafeLandingPlanner p;
  Cfg g;
  St cur, prev;
  int activePadding = 1;
  bool update = false;
  bool broken = false;
  explicit Run(vh::Case& c_) : c(c_) {
    p.play_rosbag_ = false;
    cur.size(10);
    prev.size(10);
    g = Cfg();
    g.grid_size = 10, g.cell_size = 1;
  }
  double gs = 10, cs = 1;  // of the current grid
  void bad(const char* key, const std::string& d) {
    broken = true;
    c.fail(key, d);
  }
  void reconfigure() {
    g = config(c.rng);
    // keep the grid more often than not
    if (c.rng.chance(0.5)) g.grid_size = gs, g.cell_size = cs, g.smoothing_size = c.rng.chance(0.7) ? activePadding : g.smoothing_size;
    p.dynamicReconfigureSetParams(g, 0);
    update = (float)g.grid_size != (float)gs || (float)g.cell_size != (float)cs || g.smoothing_size != activePadding;
  }
  void applyUpdate() {
    if (!update) return;
    update = false;
    gs = g.grid_size, cs = g.cell_size, activePadding = g.smoothing_size;
    cur.size(0), prev.size(0);
    c.count("grid-changes");
  }
  static void combine(St& cur, const St& prev, double alpha) {
    for (size_t k = 0; k < cur.mean.size(); k++) {
      // rounding is relative to what is blended, not to the (possibly much smaller) result
      const double rm = 1e-6 * (std::fabs(cur.mean[k]) + std::fabs(prev.mean[k])), rv = 1e-6 * (cur.var[k] + prev.var[k]);
      cur.mean[k] = alpha * prev.mean[k] + (1 - alpha) * cur.mean[k];
      cur.var[k] = alpha * prev.var[k] + (1 - alpha) * cur.var[k];
      cur.em[k] = alpha * prev.em[k] + (1 - alpha) * cur.em[k] + rm + 1e-9;
      cur.ev[k] = alpha * prev.ev[k] + (1 - alpha) * cur.ev[k] + rv + 1e-12;
    }
  }
  void compare(const Grid& gr, const char* which, const St& m) {
    Eigen::MatrixXf me = gr.getMean(), va = gr.getVariance();
    Eigen::MatrixXi co = gr.getCounter();
    if (me.rows() != m.n || me.cols() != m.n || va.rows() != m.n || co.rows() != m.n) return bad("dimensions", fmt("%s grid: %dx%d cells, expected %d", which, (int)me.rows(), (int)me.cols(), m.n));
    for (int i = 0; i < m.n; i++)
      for (int j = 0; j < m.n; j++) {
        int k = i * m.n + j;
        if (co(i, j) != m.cnt[k]) return bad("count", fmt("%s grid cell (%d,%d) of %d counts %d points, expected %d", which, i, j, m.n, co(i, j), m.cnt[k]));
        if (!(std::fabs(me(i, j) - m.mean[k]) <= m.em[k])) return bad("mean", fmt("%s grid cell (%d,%d) mean height %.9g, expected %.9g +- %g (prev %g alpha %g grid %g/%g pad %d)", which, i, j, me(i, j), m.mean[k], m.em[k], prev.mean[k], g.alpha, gs, cs, activePadding));
        if (!(std::fabs(va(i, j) - m.var[k]) <= m.ev[k])) return bad("variance", fmt("%s grid cell (%d,%d) variance %.9g, expected %.9g +- %g", which, i, j, va(i, j), m.var[k], m.ev[k]));
        if (!(sqrtf(va(i, j)) >= 0)) return bad("std-dev", fmt("%s grid cell (%d,%d) of %d points has variance %g: its standard deviation is not a number", which, i, j, co(i, j), va(i, j)));
      }
  }
  void land(const Grid& gr) {
    const int n = cur.n, pad = activePadding;
    std::vector<T> base(n * n);
    const double thr = (double)(float)g.std_dev_threshold;
    for (int k = 0; k < n * n; k++) {
      if (cur.cnt[k] < (double)(float)g.n_points_threshold)
        base[k] = NO;
      else {
        double lo = std::sqrt(std::max(0.0, cur.var[k] - cur.ev[k])) * (1 - 1e-6), hi = std::sqrt(cur.var[k] + cur.ev[k]) * (1 + 1e-6);
        base[k] = lo > thr ? NO : hi <= thr ? YES : AMB;
        if (cur.var[k] == 0 && cur.ev[k] <= 1.1e-12) base[k] = YES;
      }
    }
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        T want = base[i * n + j];
        if (pad > 0) {
          int llo = 0, lhi = 0, dlo = 0, dhi = 0;
          const double mt = (double)(float)g.mean_diff_thr;
          for (int k = -pad; k <= pad; k++)
            for (int t = -pad; t <= pad; t++) {
              int a = i + k, b = j + t;
              bool in = a >= 0 && a < n && b >= 0 && b < n;
              T l = in ? base[a * n + b] : NO;
              llo += l == YES, lhi += l != NO;
              double m0 = cur.mean[i * n + j], e0 = cur.em[i * n + j], m1 = in ? cur.mean[a * n + b] : 0, e1 = in ? cur.em[a * n + b] : 0;
              double d = std::fabs(m0 - m1), e = (k == 0 && t == 0 ? 0 : e0 + e1) + 1e-6 * d;
              if (m0 == 0 && m1 == 0 && e <= 3e-9) e = 0;
              dlo += d - e > mt, dhi += d + e > mt;
            }
          T wl = llo > g.min_n_land_cells ? YES : lhi > g.min_n_land_cells ? AMB : NO;
          T wd = dhi <= g.max_n_mean_diff_cells ? YES : dlo <= g.max_n_mean_diff_cells ? AMB : NO;
          want = wl == NO || wd == NO ? NO : wl == YES && wd == YES ? YES : AMB;
        }
        int got = gr.land_(i, j);
        if (got != 0 && got != 1) return bad("land-value", fmt("cell (%d,%d) landable value %d", i, j, got));
        if (want == AMB) {
          c.count("cells-undecided");
          continue;
        }
        c.count(want == YES ? "cells-landable" : "cells-not-landable");
        if (got != (want == YES))
          return bad("landable", fmt("cell (%d,%d) of %dx%d: landable %d, expected %d (points %d of %g, std dev %g of %g, smoothing %d, at least more than %d landable and at most %d uneven by %g)", i, j, n, n, got, want == YES,
                                     cur.cnt[i * n + j], g.n_points_threshold, std::sqrt(cur.var[i * n + j]), g.std_dev_threshold, pad, g.min_n_land_cells, g.max_n_mean_diff_cells, g.mean_diff_thr));
      }
  }
  void position(const Eigen::Vector3f& pos) {
    Eigen::Vector2i ix = p.getPositionIndex();
    double q = gs / 2 / cs, t = 2e-6 * (1 + std::fabs(pos.x()) + std::fabs(pos.y()) + gs) / cs;
    int lo = std::min(cur.n - 1, (int)std::floor(q - t)), hi = std::min(cur.n - 1, (int)std::floor(q + t));
    if (ix.x() < lo || ix.x() > hi || ix.y() < lo || ix.y() > hi) bad("position-index", fmt("vehicle in cell (%d,%d) of %d, expected %d..%d", ix.x(), ix.y(), cur.n, lo, hi));
  }
};
uint64_t bits(const Grid& g) {
  vh::Hasher h;
  Eigen::MatrixXf a = g.getMean(), b = g.getVariance();
  Eigen::MatrixXi d = g.getCounter();
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++) h << a(i, j) << b(i, j) << d(i, j) << g.land_(i, j);
  return h.h;
}
}  // namespace

VH_SUITE(clouds, 1500, 40000) {
  auto& r = c.rng;
  Run s(c);
  s.reconfigure();  // the reconfigure server does so before anything else
  Eigen::Vector3f pos(r.unif(-100, 100), r.unif(-100, 100), r.unif(0, 20));
  Terrain ter(r);
  vh::Hasher h;
  uint64_t last = bits(s.p.getGrid());
  for (int it = 0, N = r.range(1, 8); it < N && !s.broken; it++) {
    if (it && r.chance(0.25)) s.reconfigure();
    if (r.chance(0.1)) s.reconfigure();
    if (r.chance(0.7)) pos += Eigen::Vector3f(r.unif(-2, 2), r.unif(-2, 2), r.unif(-1, 1));
    if (r.chance(0.1)) ter = Terrain(r);
    bool changed = s.update;
    s.applyUpdate();
    const double gs = (float)s.gs, cs = (float)s.cs;
    // number of cells: decided by the size; near an exact multiple either is fine, found out after the run
    double q = gs / cs;
    int n = std::fabs(q - std::round(q)) < 1e-4 ? (int)std::round(q) : (int)std::ceil(q);
    // points: well inside a cell, well outside the grid, or not a number
    pcl::PointCloud<pcl::PointXYZ> cloud;
    std::vector<std::vector<double>> zs(n * n);
    auto add = [&](double fx, double fy, int cell) {  // offsets from the grid's corner
      pcl::PointXYZ q;
      q.x = (float)(pos.x() - gs / 2 + fx);
      q.y = (float)(pos.y() - gs / 2 + fy);
      q.z = (float)ter.at(r, q.x - 3, q.y + 2);
      cloud.push_back(q);
      if (cell >= 0) zs[cell].push_back(q.z);
    };
    int density = r.pick({0, 1, 3, 6, 12});
    if (n * n * density > 6000) density = std::max(1, 6000 / (n * n));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        int k = density ? r.range(0, 2 * density) : 0;
        if (r.chance(0.02)) k = r.range(50, 150);
        if (ter.kind == 4) k = r.chance(0.3) ? 0 : k;
        for (int t = 0; t < k; t++) {
          double lx = i * cs, hx = std::min((i + 1) * cs, gs), ly = j * cs, hy = std::min((j + 1) * cs, gs);
          double m = std::max(1e-3, 4e-7 * (std::fabs(pos.x()) + std::fabs(pos.y()) + gs) * 4);
          if (hx - lx < 4 * m || hy - ly < 4 * m) continue;
          add(r.uni(lx + m, hx - m), r.uni(ly + m, hy - m), i * n + j);
        }
      }
    if (r.chance(0.05)) {  // one cell seen from close by
      int i = r.below(n), j = r.below(n);
      double lx = i * cs, hx = std::min((i + 1) * cs, gs), ly = j * cs, hy = std::min((j + 1) * cs, gs);
      double m = std::max(1e-3, 4e-7 * (std::fabs(pos.x()) + std::fabs(pos.y()) + gs) * 4);
      if (hx - lx > 4 * m && hy - ly > 4 * m) {
        for (int k = r.pick({600, 1500, 4000}); k > 0; k--) add(r.uni(lx + m, hx - m), r.uni(ly + m, hy - m), i * n + j);
        c.count("cells with more than 600 points");
      }
    }
    size_t valid = cloud.size();
    for (int k = r.range(0, 20); k > 0; k--) {
      double far = r.pick({0.01, 0.5, 30.0, 1e4, 1e30});
      double o = r.chance(0.5) ? -far : gs + far, in = r.uni(0, gs);
      if (r.chance(0.3))
        add(o, r.chance(0.5) ? -far : gs + far, -1);
      else
        r.chance(0.5) ? add(o, in, -1) : add(in, o, -1);
    }
    for (int k = r.range(0, 5); k > 0; k--) {
      pcl::PointXYZ q(pos.x(), pos.y(), 7);
      (r.chance(0.4) ? q.x : r.chance(0.5) ? q.y : q.z) = NAN;
      cloud.push_back(q);
    }
    // shuffle, then the order within each cell is the order met
    std::vector<size_t> ord(cloud.size());
    for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
    for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    s.p.cloud_.clear();
    for (size_t i : ord) s.p.cloud_.push_back(cloud[i]);
    s.p.setPose(pos, Eigen::Quaternionf(1, 0, 0, 0));
    s.p.runSafeLandingPlanner();
    Grid now = s.p.getGrid();
    if (!cellsOk(s.gs, s.cs, now.getRowColSize()) || now.getGridSize() != (float)s.gs || now.getCellSize() != (float)s.cs) {
      s.bad("size", fmt("grid of %g m / %g m has %d cells a side", s.gs, s.cs, now.getRowColSize()));
      break;
    }
    int na = now.getRowColSize();
    if (s.cur.n == 0) s.cur.size(na), s.prev.size(na);
    s.prev = s.cur;
    s.cur.size(na);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        auto& v = zs[i * n + j];
        int k = i * na + j;
        s.cur.cnt[k] = v.size();
        if (v.empty()) continue;
        double m = 0, lo = 1e30, hi = -1e30;
        for (double z : v) m += z, lo = std::min(lo, z), hi = std::max(hi, z);
        m /= v.size();
        double va = 0;
        for (double z : v) va += (z - m) * (z - m);
        va /= v.size();
        double zm = std::max(std::fabs(lo), std::fabs(hi)), em = 2.5e-7 * (v.size() + 4) * zm, R = hi - lo + em;
        s.cur.mean[k] = m;
        s.cur.var[k] = va;
        s.cur.em[k] = em;
        s.cur.ev[k] = 4 * em * R + 1e-6 * v.size() * R * R;
        if (v.size() == 1) s.cur.ev[k] = 0, s.cur.em[k] = 1e-7 * zm;
        c.count("cells-with-points");
      }
    Run::combine(s.cur, s.prev, (double)(float)s.g.alpha);
    if (it == 0 && s.g.alpha == 0) {
    }
    s.compare(now, "current", s.cur);
    if (s.broken) break;
    Grid before = s.p.getPreviousGrid();
    if (!changed && bits(before) != last) s.bad("previous", "the previous grid is not what the current grid was after the iteration before");
    if (changed) s.compare(before, "previous (after a change of size)", s.prev);
    last = bits(now);
    s.land(now);
    s.position(pos);
    if (s.p.visualization_cloud_.size() != valid) s.bad("binned-cloud", fmt("%zu points drawn as binned, %zu inside the grid", s.p.visualization_cloud_.size(), valid));
    h << last;
    c.digest(last);
    c.evals(1);
    c.count("iterations");
    c.count("points", cloud.size());
  }
  c.distinct(h);
}

// Recorded grids replayed: sizes may change from message to message.
VH_SUITE(recorded, 1500, 40000) {
  auto& r = c.rng;
  Run s(c);
  s.p.play_rosbag_ = true;
  s.reconfigure();  // the reconfigure server does so before anything else
  Eigen::Vector3f pos(0, 0, 5);
  vh::Hasher h;
  double size = r.pick({1.0, 5.0, 10.0}), cell = r.pick({0.5, 1.0, 0.25});
  for (int it = 0, N = r.range(1, 10); it < N && !s.broken; it++) {
    if (r.chance(0.2)) s.reconfigure();
    if (r.chance(0.25)) size = r.pick({1.0, 5.0, 10.0, 12.0}), cell = r.pick({0.5, 1.0, 0.3});
    if (r.chance(0.5)) pos += Eigen::Vector3f(r.unif(-2, 2), r.unif(-2, 2), 0);
    if (s.update) {
      s.update = false;
      s.activePadding = s.g.smoothing_size;
      s.gs = s.g.grid_size, s.cs = s.g.cell_size;
      s.cur.size(0);
    }
    if ((float)s.gs != (float)size || (float)s.cs != (float)cell) s.gs = size, s.cs = cell, s.cur.size(0);
    int n = (int)std::ceil((float)size / (float)cell);
    safe_landing_planner::SLPGridMsg m;
    m.header.seq = it + 100;
    m.grid_size = (float)size;
    m.cell_size = (float)cell;
    auto lay = [&](auto& a) {
      a.layout.dim.resize(2);
      a.layout.dim[0].size = n, a.layout.dim[1].size = n, a.layout.dim[0].stride = n * n, a.layout.dim[1].stride = n;
    };
    lay(m.mean), lay(m.land), lay(m.std_dev), lay(m.counter);
    St nw;
    nw.size(n);
    double flat = r.uni(-5, 5), spread = r.pick({0.0, 0.05, 0.5});
    for (int k = 0; k < n * n; k++) {
      float me = flat + spread * r.gauss(), sd = std::fabs(r.pick({0.0, 0.02, 0.2, 1.0}) * r.unit());
      int cn = r.pick({0, 1, 3, 20, 200});
      m.mean.data.push_back(me), m.std_dev.data.push_back(sd), m.counter.data.push_back(cn), m.land.data.push_back(r.range(0, 1));
      nw.mean[k] = me, nw.var[k] = (double)sd * sd, nw.cnt[k] = cn;
      nw.em[k] = 1e-7 * std::fabs(me), nw.ev[k] = 1e-6 * nw.var[k];
    }
    s.p.raw_grid_ = m;
    s.p.setPose(pos, Eigen::Quaternionf(1, 0, 0, 0));
    s.p.runSafeLandingPlanner();
    if (s.cur.n == 0) s.cur.size(n);
    s.prev = s.cur;
    s.cur = nw;
    Run::combine(s.cur, s.prev, (double)(float)s.g.alpha);
    Grid now = s.p.getGrid();
    s.compare(now, "current", s.cur);
    if (s.broken) break;
    s.compare(s.p.getPreviousGrid(), "previous", s.prev);
    s.land(now);
    s.position(pos);
    uint64_t b = bits(now);
    h << b;
    c.digest(b);
    c.count("recorded-grids");
    c.evals(1);
  }
  c.distinct(h);
}

// Points on and within rounding of cell and grid borders: nothing judged but memory, sums and finiteness.
VH_SUITE(borders, 1500, 40000) {
  auto& r = c.rng;
  Run s(c);
  s.reconfigure();
  float mag = r.pick({1.f, 100.f, 5000.f, 1e5f});
  Eigen::Vector3f pos(r.unif(-mag, mag), r.unif(-mag, mag), 3);
  for (int it = 0; it < 3; it++) {
    float gs = s.g.grid_size, cs = s.g.cell_size;
    s.p.cloud_.clear();
    for (int k = 0; k < 400; k++) {
      auto co = [&](float o) {
        float b = r.chance(0.5) ? (r.chance(0.5) ? o + gs / 2.f : o - gs / 2.f) : o - gs / 2.f + cs * r.range(0, 40);
        for (int u = r.range(0, 3); u > 0; u--) b = std::nextafter(b, r.chance(0.5) ? 1e30f : -1e30f);
        return b;
      };
      s.p.cloud_.push_back(pcl::PointXYZ(co(pos.x()), co(pos.y()), r.unif(-2, 2)));
    }
    s.p.setPose(pos, Eigen::Quaternionf(1, 0, 0, 0));
    s.p.runSafeLandingPlanner();
    Grid g = s.p.getGrid();
    int sum = g.getCounter().sum();
    if (sum < 0 || sum > 400 || sum != (int)s.p.visualization_cloud_.size()) c.fail("border-count", fmt("%d points counted, %zu binned, 400 given", sum, s.p.visualization_cloud_.size()));
    int strictly = 0;
    for (auto& q : s.p.cloud_.points) {
      double t = 2e-7 * (std::fabs(pos.x()) + std::fabs(pos.y()) + gs) + 1e-7;
      strictly += std::fabs((double)q.x - pos.x()) < gs / 2.0 - t && std::fabs((double)q.y - pos.y()) < gs / 2.0 - t;
    }
    if (sum < strictly) c.fail("border-lost", fmt("%d points counted, %d lie inside", sum, strictly));
    for (int i = 0; i < g.getRowColSize(); i++)
      for (int j = 0; j < g.getRowColSize(); j++)
        if (!std::isfinite(g.getMean({i, j})) || !(sqrtf(g.getVariance({i, j})) >= 0)) c.fail("std-dev", fmt("cell (%d,%d): mean %g variance %g", i, j, g.getMean({i, j}), g.getVariance({i, j})));
    pos += Eigen::Vector3f(0.5f * cs, 0, 0);
    c.count("border-points", 400);
    c.distinct(vh::Hasher() << bits(g));
  }
}
