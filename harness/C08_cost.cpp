// VH: libs=local_planner flavour=asan twin=1
// The cost of every direction and the directions chosen from it, recomputed in double precision; smoothing over the
// sphere's seams and poles; ordering of the candidates.
#include <local_planner/planner_functions.h>
#include "geo.h"
#include "vh.h"
using namespace avoidance;
using Eigen::Vector3d;
using Eigen::Vector3f;
using vh::fmt;

namespace {
const int E = GRID_LENGTH_E, Z = GRID_LENGTH_Z;
// value of a polar matrix at any row/column: columns are cyclic, crossing a pole turns the azimuth by half a turn
template <class F>
double at(const F& f, int e, int z, int rows, int cols) {
  if (e < 0) {
    e = -1 - e;
    z += cols / 2;
  } else if (e >= rows) {
    e = 2 * rows - 1 - e;
    z += cols / 2;
  }
  z %= cols;
  if (z < 0) z += cols;
  return f(e, z);
}
Eigen::MatrixXd smooth(const Eigen::MatrixXd& m, int rad) {
  Eigen::MatrixXd o(m.rows(), m.cols());
  auto f = [&](int e, int z) { return m(e, z); };
  for (int e = 0; e < m.rows(); e++)
    for (int z = 0; z < m.cols(); z++) {
      double s = 0;
      for (int i = -rad; i <= rad; i++)
        for (int j = -rad; j <= rad; j++) s += (1 - std::abs(i) / (rad + 1.0)) * (1 - std::abs(j) / (rad + 1.0)) * at(f, e + i, z + j, m.rows(), m.cols());
      o(e, z) = s;
    }
  return o;
}
struct In {
  Vector3f goal, pos, vel, line;
  costParameters p;
};
double adiff(double a, double b) {
  double d = std::fabs(vh::angDiff(a, b));
  return d;
}
// obstacle term and the rest, for one direction
std::pair<double, double> cost(double e, double z, double obst, const In& in, bool facing) {
  Vector3d g = geo::d(in.goal), o = geo::d(in.pos), v = geo::d(in.vel);
  geo::Pol fg = geo::hist(g, o), fl = geo::hist(geo::d(in.line), o);
  double w = facing ? 0 : 0.5, dist = (g - o).norm();
  Vector3d dir = geo::unhist({e, z, 1}, Vector3d::Zero());
  double vc = in.p.velocity_cost_param * (v.norm() - dir.dot(v));
  double yc = (1 - w) * in.p.yaw_cost_param * std::pow(adiff(z, fg.z), 2) + w * in.p.yaw_cost_param * std::pow(adiff(z, fl.z), 2);
  double pc = in.p.pitch_cost_param * std::pow(e - fg.e, 2);
  if (dist < 5) pc /= std::pow(0.2 * dist, 2);
  double d = in.p.obstacle_cost_param - obst;
  double oc = obst > 0 ? 5000 * (1 + d / std::sqrt(1 + d * d)) : 0;
  return {oc, vc + yc + pc};
}
In draw(vh::Rng& r) {
  In in;
  in.pos = Vector3f(r.unif(-30, 30), r.unif(-30, 30), r.unif(0, 20));
  Vector3f d = Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.3f).normalized();
  in.goal = in.pos + d * r.pick({r.unif(0.3f, 4.8f), r.unif(5.2f, 40.f), 100.f});
  in.vel = r.chance(0.2) ? Vector3f(0, 0, 0) : Vector3f(Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.3f) * r.unif(0.1f, 4.f));
  in.line = r.chance(0.4) ? in.goal : Vector3f(in.pos + Vector3f(r.gauss(), r.gauss(), 0) * 6.f);
  in.p.yaw_cost_param = r.pick({3.f, 0.5f, 0.f, r.unif(0, 20)});
  in.p.pitch_cost_param = r.pick({25.f, 3.f, 0.f, r.unif(0, 30)});
  in.p.velocity_cost_param = r.pick({6000.f, 1.5f, 0.f, r.unif(0, 50000)});
  in.p.obstacle_cost_param = r.pick({8.5f, 5.f, 0.f, r.unif(0, 30)});
  return in;
}
}  // namespace

VH_SUITE(direction, 20000, 500000) {
  auto& r = c.rng;
  In in = draw(r);
  double e = r.unif(-90, 90), z = r.unif(-180, 180);
  float obst = r.pick({0.f, r.unif(0.1f, 30.f)});
  bool facing = r.chance(0.5);
  auto g = costFunction(PolarPoint(e, z, 1.f), obst, in.goal, in.pos, in.vel, in.p, in.line, facing);
  auto w = cost((float)e, (float)z, obst, in, facing);
  geo::Pol fl = geo::hist(geo::d(in.line), geo::d(in.pos));
  double horiz = std::hypot(in.goal.x() - in.pos.x(), in.goal.y() - in.pos.y());
  if (horiz < 0.05 || fl.r < 0.05) return;
  double near = (in.goal - in.pos).norm();
  double tol = 2e-3 * std::fabs(w.second) + 1e-4 * in.p.velocity_cost_param * (0.1 + in.vel.norm()) + 0.05 * (in.p.yaw_cost_param + in.p.pitch_cost_param) * (near < 5 ? 30 / near / near : 1) + 0.01;
  if (std::fabs(near - 5) < 1e-3) return;
  std::string ctx = fmt("direction (e %g, z %g) obstacle %g goal offset (%g %g %g) velocity (%g %g %g) facing %d", e, z, obst, in.goal.x() - in.pos.x(), in.goal.y() - in.pos.y(), in.goal.z() - in.pos.z(),
                        in.vel.x(), in.vel.y(), in.vel.z(), facing);
  if (!vh::close(g.first, w.first, 0.2, 1e-3)) c.fail("obstacle-cost", ctx + fmt(": %g, expected %g", g.first, w.first));
  if (!vh::close(g.second, w.second, tol)) c.fail("goal-cost", ctx + fmt(": %g, expected %g (tolerance %g)", g.second, w.second, tol));
  if (!(g.first >= 0) || !(g.second >= -tol)) c.fail("negative-cost", ctx + fmt(": %g %g", g.first, g.second));
  // a nearer obstacle never costs less
  if (obst > 0) {
    float nearer = obst * r.unif(0.1f, 0.95f);
    auto gn = costFunction(PolarPoint(e, z, 1.f), nearer, in.goal, in.pos, in.vel, in.p, in.line, facing);
    if (gn.first < g.first - 0.2f || gn.second != g.second) c.fail("nearer-is-cheaper", ctx + fmt(": %g m costs %g, %g m costs %g", obst, g.first, nearer, gn.first));
  }
  c.count(obst > 0 ? "blocked directions" : "free directions");
  c.distinct(vh::Hasher() << (int)(e / 10) << (int)(z / 10) << (obst > 0) << (int)near << facing);
  c.digest(vh::Hasher() << g.first << g.second);
}

VH_SUITE(matrix, 500, 15000) {
  auto& r = c.rng;
  In in = draw(r);
  geo::Pol gp = geo::hist(geo::d(in.goal), geo::d(in.pos));
  double hz = std::hypot(in.goal.x() - in.pos.x(), in.goal.y() - in.pos.y());
  if (geo::bin(gp, ALPHA_RES, 0.01).amb || hz < 0.1 || std::fabs(gp.r - 5) < 1e-2) {
    c.count("not judged (goal on a bin border)");
    return;
  }
  float lo = r.pick({0.2f, 1.f}), hi = r.pick({8.f, 15.f});
  Histogram h(ALPHA_RES);
  double dist[E][Z] = {};
  int occupied = 0;
  if (r.chance(0.9)) {
    int blobs = r.range(1, 6);
    for (int b = 0; b < blobs; b++) {
      int e0 = r.chance(0.5) ? r.range(0, E - 1) : (int)((gp.e + 90) / ALPHA_RES) + r.range(-4, 4), z0 = r.chance(0.5) ? r.range(0, Z - 1) : (int)((gp.z + 180) / ALPHA_RES) + r.range(-7, 7);
      float d = r.unif(0.1f, hi * 1.2f);
      int he = r.range(0, 2), wz = r.range(0, 5);
      for (int e = e0; e <= e0 + he; e++)
        for (int z = z0; z <= z0 + wz; z++) {
          int ee = std::min(E - 1, std::max(0, e)), zz = ((z % Z) + Z) % Z;
          float dd = d + r.unif(0, 0.3f);
          h.set_dist(ee, zz, dd);
          dist[ee][zz] = dd;
          occupied++;
        }
    }
  }
  float margin = r.pick({0.f, 6.f, 30.f, 40.f, 90.f, r.unif(0, 90)});
  Eigen::MatrixXf got;
  if (r.chance(0.5)) got = Eigen::MatrixXf::Constant(r.range(1, 60), r.range(1, 60), 1e9f);
  std::vector<uint8_t> img(r.range(0, 10), 9);
  getCostMatrix(h, in.goal, in.pos, in.vel, in.p, margin, in.line, hi, lo, got, img);
  // reference
  bool facing = false;
  for (int j = -2; j <= 2; j++)
    for (int i = -5; i <= 5; i++) {
      double e = gp.e + j * ALPHA_RES, z = gp.z + i * ALPHA_RES;
      geo::wrap(e, z);
      geo::Bin b = geo::bin({e, z, 1}, ALPHA_RES);
      if (dist[b.e][b.z] > lo && dist[b.e][b.z] < hi) facing = true;
    }
  Eigen::MatrixXd D(E, Z), O(E, Z);
  for (int e = 0; e < E; e++) {
    double ce = e * ALPHA_RES + ALPHA_RES / 2.0 - 90;
    int step = (int)std::lround(1 / std::cos(ce / geo::R2D));
    std::vector<int> knots;
    for (int z = 0; z < Z; z += step) {
      auto w = cost(ce, z * ALPHA_RES + ALPHA_RES / 2.0 - 180, dist[e][z], in, facing);
      D(e, z) = w.first;
      O(e, z) = w.second;
      knots.push_back(z);
    }
    for (size_t k = 0; k < knots.size(); k++) {
      int a = knots[k], b = k + 1 < knots.size() ? knots[k + 1] : Z;
      for (int z = a + 1; z < b; z++) {
        double t = double(z - a) / (b - a);
        D(e, z) = D(e, a) * (1 - t) + D(e, b % Z) * t;
        O(e, z) = O(e, a) * (1 - t) + O(e, b % Z) * t;
      }
    }
  }
  int rad = (int)std::ceil(margin / ALPHA_RES);
  Eigen::MatrixXd S = smooth(D, rad), T = S + O;
  std::string ctx = fmt("goal at (e %g, z %g, r %g), %d occupied, facing %d, margin %g", gp.e, gp.z, gp.r, occupied, facing, margin);
  if (got.rows() != E || got.cols() != Z) {
    c.fail("size", fmt("%d x %d", (int)got.rows(), (int)got.cols()));
    return;
  }
  double boost = gp.r < 5 ? 30 / gp.r / gp.r : 1, worst = 0;
  for (int e = 0; e < E; e++)
    for (int z = 0; z < Z; z++) {
      double tol = 2e-3 * std::fabs(T(e, z)) + 1e-3 * S.maxCoeff() * 0.01 + 2e-4 * in.p.velocity_cost_param * (0.1 + in.vel.norm()) + 0.05 * (in.p.yaw_cost_param + in.p.pitch_cost_param) * boost + 0.05;
      double err = std::fabs(got(e, z) - T(e, z));
      if (!(err <= tol)) {
        c.fail("matrix", ctx + fmt(": bin (%d,%d) costs %g, expected %g", e, z, got(e, z), T(e, z)));
        return;
      }
      worst = std::max(worst, err / (1 + std::fabs(T(e, z))));
      c.evals(1);
    }
  double mx = std::max(S.maxCoeff(), O.maxCoeff());
  if (img.size() != 3u * E * Z) {
    c.fail("image-size", fmt("%zu", img.size()));
  } else {
    for (int e = 0; e < E; e++)
      for (int z = 0; z < Z; z++) {
        int k = ((E - 1 - e) * Z + z) * 3;
        double t = 2 + 0.05 * (in.p.yaw_cost_param + in.p.pitch_cost_param) * boost * 255 / mx;
        if (std::fabs(img[k] - std::min(255.0, 255 * S(e, z) / mx)) > t || std::fabs(img[k + 1] - std::max(0.0, 255 * O(e, z) / mx)) > t || img[k + 2] != 0)
          c.fail("image", ctx + fmt(": bin (%d,%d) drawn (%d %d %d), expected (%g %g 0)", e, z, img[k], img[k + 1], img[k + 2], 255 * S(e, z) / mx, 255 * O(e, z) / mx));
        for (int q = 0; q < 3; q++)
          if (colorImageIndex(e, z, q) != k + q) c.fail("image-index", fmt("(%d,%d,%d)", e, z, q));
      }
  }
  c.count(facing ? "obstacle facing the goal" : "way to the goal free");
  if (occupied) c.distinct(vh::Hasher() << occupied << facing << rad << (int)gp.e << (int)gp.z);
  if (c.index < 3) c.sample(ctx);
  // free space, no velocity, not pulled to a line: the best direction is the goal's
  In f = in;
  f.vel.setZero();
  f.line = f.goal;
  if (f.p.yaw_cost_param > 0 && f.p.pitch_cost_param > 0 && std::fabs(gp.e) < 50) {
    getCostMatrix(Histogram(ALPHA_RES), f.goal, f.pos, f.vel, f.p, margin, f.line, hi, lo, got, img);
    std::vector<candidateDirection> cand;
    getBestCandidatesFromCostMatrix(got, 1, cand);
    // rows away from the horizon are evaluated on a coarser azimuth grid
    double step = std::lround(1 / std::cos((std::floor((gp.e + 90) / ALPHA_RES) * ALPHA_RES + ALPHA_RES / 2.0 - 90) / geo::R2D)) * ALPHA_RES;
    if (cand.size() != 1 || adiff(cand[0].azimuth_angle, gp.z) > step / 2 + 3.1 || (step == ALPHA_RES && std::fabs(cand[0].elevation_angle - gp.e) > 3.1))
      c.fail("free-space-direction", ctx + fmt(": flies (e %g, z %g)", cand.empty() ? NAN : cand[0].elevation_angle, cand.empty() ? NAN : cand[0].azimuth_angle));
    c.count("free-space choices");
  }
}

VH_SUITE(smoothing, 800, 20000) {
  auto& r = c.rng;
  int rows = r.pick({30, 30, 12, 6, 20}), cols = r.pick({60, 60, 24, 12, 8});
  int rad = r.range(0, std::min(rows, cols));
  Eigen::MatrixXf m(rows, cols);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) m(i, j) = r.chance(0.7) ? 0.f : r.unif(0, 100);
  Eigen::MatrixXd md = m.cast<double>();
  Eigen::MatrixXf pad;
  padPolarMatrix(m, rad, pad);
  auto f = [&](int e, int z) { return md(e, z); };
  if (pad.rows() != rows + 2 * rad || pad.cols() != cols + 2 * rad)
    c.fail("padding-size", fmt("%d x %d", (int)pad.rows(), (int)pad.cols()));
  else
    for (int i = -rad; i < rows + rad; i++)
      for (int j = -rad; j < cols + rad; j++)
        if (pad(i + rad, j + rad) != (float)at(f, i, j, rows, cols)) {
          c.fail("padding", fmt("%dx%d padded by %d: (%d,%d) is %g, expected %g", rows, cols, rad, i, j, pad(i + rad, j + rad), at(f, i, j, rows, cols)));
          i = rows + rad;
          break;
        }
  Eigen::ArrayXf k = getConicKernel(rad);
  for (int i = 0; i < k.size(); i++)
    if (k.size() != 2 * rad + 1 || std::fabs(k(i) - (1 - std::abs(i - rad) / (rad + 1.0))) > 1e-5) c.fail("kernel", fmt("radius %d entry %d", rad, i));
  Eigen::MatrixXf s = m;
  smoothPolarMatrix(s, rad);
  Eigen::MatrixXd want = smooth(md, rad);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++)
      if (!vh::close(s(i, j), want(i, j), 1e-2, 1e-3)) {
        c.fail("smoothed", fmt("%dx%d radius %d: (%d,%d) is %g, expected %g", rows, cols, rad, i, j, s(i, j), want(i, j)));
        return;
      }
  c.count("smoothed cells compared", rows * cols);
  c.distinct(vh::Hasher() << rows << cols << rad << m.sum());
}

VH_SUITE(candidates, 4000, 100000) {
  auto& r = c.rng;
  Eigen::MatrixXf m(E, Z);
  int levels = r.pick({0, 0, 2, 10});
  for (int i = 0; i < E; i++)
    for (int j = 0; j < Z; j++) m(i, j) = levels ? (float)r.range(0, levels) : r.unif(0, 1e5f);
  unsigned n = r.pick({1, 8, 1, 40, 100, 0, 1799, 1800, 2500});
  std::vector<candidateDirection> v;
  if (r.chance(0.5)) v.push_back(candidateDirection(-1, 0, 0));
  getBestCandidatesFromCostMatrix(m, n, v);
  std::vector<float> all(m.data(), m.data() + m.size());
  std::sort(all.begin(), all.end());
  size_t want = std::min<size_t>(n, all.size());
  if (v.size() != want) {
    c.fail("count", fmt("asked for %u, got %zu", n, v.size()));
    return;
  }
  std::set<std::pair<int, int>> seen;
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].cost != all[i]) c.fail("not-the-cheapest", fmt("candidate %zu of %u costs %g, the %zu-th cheapest costs %g", i, n, v[i].cost, i, all[i]));
    double fe = (v[i].elevation_angle + 90) / ALPHA_RES - 0.5, fz = (v[i].azimuth_angle + 180) / ALPHA_RES - 0.5;
    int e = std::lround(fe), z = std::lround(fz);
    if (std::fabs(fe - e) > 1e-3 || std::fabs(fz - z) > 1e-3 || e < 0 || e >= E || z < 0 || z >= Z || m(e, z) != v[i].cost) c.fail("direction-of-candidate", fmt("(e %g, z %g) cost %g", v[i].elevation_angle, v[i].azimuth_angle, v[i].cost));
    if (!seen.insert({e, z}).second) c.fail("duplicate-candidate", fmt("(%d,%d)", e, z));
    PolarPoint p = v[i].toPolar(2.5f);
    if (p.e != v[i].elevation_angle || p.z != v[i].azimuth_angle || p.r != 2.5f) c.fail("candidate-polar", "");
  }
  c.count("candidates compared", v.size());
  c.distinct(vh::Hasher() << n << m.sum());
}
