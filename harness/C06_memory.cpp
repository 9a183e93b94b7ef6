// VH: libs=local_planner flavour=asan twin=1
// Obstacle memory: random flights feed clouds to the filter; a model that knows every measurement decides which points
// must, may and must not be in the planner's cloud after every step.
#include <local_planner/local_planner.h>
#include <local_planner/planner_functions.h>
#include <limits>
#include "geo.h"
#include "vh.h"
using namespace avoidance;
using Eigen::Vector3f;
using vh::fmt;
typedef pcl::PointCloud<pcl::PointXYZ> Cloud;
typedef pcl::PointCloud<pcl::PointXYZI> Memory;

namespace {
struct Pt {
  float x, y, z, age;
  bool operator<(const Pt& o) const { return std::tie(x, y, z, age) < std::tie(o.x, o.y, o.z, o.age); }
  bool operator==(const Pt& o) const { return x == o.x && y == o.y && z == o.z && age == o.age; }
};
geo::T inRange(double d2, float lo, float hi, bool useLo) {
  double d = std::sqrt(d2), t = 1e-5 * (1 + d);
  geo::T t1 = d < hi - t ? geo::YES : d > hi + t ? geo::NO : geo::AMB;
  geo::T t2 = !useLo ? geo::YES : d > lo + t ? geo::YES : d < lo - t ? geo::NO : geo::AMB;
  return geo::both(t1, t2);
}
}  // namespace

VH_SUITE(flight, 1200, 30000) {
  auto& r = c.rng;
  const float nan = NAN, inf = std::numeric_limits<float>::infinity();
  float lo = r.pick({0.f, 0.2f, 1.f, 3.f}), hi = r.pick({5.f, 12.f, 15.f, 40.f});
  float maxAge = r.pick({0.f, 1.f, 10.f, 20.f});
  int minPts = r.pick({1, 1, 2, 3, 5});
  std::vector<FOV> fov = geo::rig(r);
  Vector3f pos(r.unif(-20, 20), r.unif(-20, 20), r.unif(0, 10));
  float yaw = r.unif(-180, 180), pitch = r.chance(0.5) ? 0.f : r.unif(-30, 30);
  Memory mem;
  // landmarks seen again and again from a moving vehicle
  std::vector<Vector3f> world;
  for (int i = 0, n = r.range(0, 80); i < n; i++) {
    Vector3f d = Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.5f).normalized();
    world.push_back(pos + d * r.unif(0.1f, hi * 1.3f));
  }
  // what an earlier flight may have left, in any order and of any age
  if (r.chance(0.3))
    for (int i = 0, n = r.range(1, 30); i < n; i++) {
      Vector3f p = pos + Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.5f).normalized() * r.unif(0.3f, hi * 1.1f);
      pcl::PointXYZI q;
      q.x = p.x(), q.y = p.y(), q.z = p.z(), q.intensity = r.unif(0.f, maxAge * 1.2f);
      mem.push_back(q);
    }
  vh::Hasher h;
  for (int step = 0, n = r.range(1, 12); step < n; step++) {
    std::vector<Cloud> clouds(r.range(1, 3));
    for (auto& cl : clouds) {
      for (int i = 0, k = r.pick({0, 3, 20, 60}); i < k; i++) {
        Vector3f p;
        if (!world.empty() && r.chance(0.7))
          p = world[r.below(world.size())];
        else
          p = pos + Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.5f).normalized() * r.unif(0.f, hi * 1.2f);
        int rep = r.chance(0.3) ? r.range(1, 6) : 1;  // several returns from about the same direction
        for (int q = 0; q < rep; q++) {
          Vector3f pp = pos + (p - pos) * r.pick({1.f, 1.f, r.unif(0.5f, 1.2f)});
          cl.push_back(pcl::PointXYZ(pp.x(), pp.y(), pp.z()));
        }
        if (r.chance(0.1)) cl.push_back(pcl::PointXYZ(r.pick({nan, inf, -inf, 1.f}), r.pick({nan, 0.f}), r.pick({nan, inf, 2.f})));
      }
      cl.header.frame_id = "local_origin";
      cl.header.stamp = 1000 + step;
    }
    float elapsed = r.pick({0.f, 0.1f, 0.5f, 3.f});
    Memory before = mem;
    processPointcloud(mem, clouds, fov, yaw, pitch, pos, lo, hi, maxAge, elapsed, minPts);
    c.evals(1);

    // the model
    bool amb = false;
    std::map<std::pair<int, int>, int> cnt;
    std::vector<Pt> want;
    Eigen::Vector3d o = geo::d(pos);
    size_t fresh = 0, kept = 0, nAged = 0, nInFov = 0, nCovered = 0, nFar = 0;
    for (auto& cl : clouds)
      for (auto& p : cl.points) {
        Eigen::Vector3d q(p.x, p.y, p.z);
        if (!q.allFinite()) continue;
        geo::T in = inRange((q - o).squaredNorm(), lo, hi, true);
        if (in == geo::AMB) amb = true;
        if (in != geo::YES) continue;
        geo::Bin b = geo::bin(geo::hist(q, o), ALPHA_RES / 3, 1e-3 + 2e-4 / (0.01 + (q - o).norm()));
        amb |= b.amb;
        if (++cnt[{b.e, b.z}] == minPts) want.push_back({p.x, p.y, p.z, 0.f}), fresh++;
      }
    for (auto& p : before.points) {
      Eigen::Vector3d q(p.x, p.y, p.z);
      geo::T in = inRange((q - o).squaredNorm(), lo, hi, false);
      if (in == geo::AMB) amb = true;
      if (in != geo::YES) {
        nFar++;
        continue;
      }
      geo::Bin b = geo::bin(geo::hist(q, o), ALPHA_RES / 3, 1e-3 + 2e-4 / (0.01 + (q - o).norm()));
      geo::Pol f = geo::fcu(q, o);
      double e = f.e - pitch, z = f.z - yaw;
      geo::wrap(e, z);
      geo::T see = geo::inAny(fov, e, z, 0.01 + 2e-3 / (0.01 + std::hypot(q.x() - o.x(), q.y() - o.y())));
      if (!(p.intensity < maxAge)) {
        nAged++;
        continue;
      }
      if (see == geo::YES) {
        nInFov++;
        continue;
      }
      if (b.amb || see == geo::AMB) amb = true;
      int& k = cnt[{b.e, b.z}];
      if (k >= minPts) {
        nCovered++;
        continue;
      }
      k = minPts;
      want.push_back({p.x, p.y, p.z, p.intensity + elapsed});
      kept++;
    }
    std::vector<Pt> got;
    for (auto& p : mem.points) got.push_back({p.x, p.y, p.z, p.intensity});
    std::string ctx = fmt("step %d, position (%g %g %g) yaw %g pitch %g, range %g..%g, max age %g, %d per cell, elapsed %g, cameras ", step, pos.x(), pos.y(), pos.z(), yaw, pitch, lo, hi,
                          maxAge, minPts, elapsed) + geo::show(fov);
    // sound for every input: every point is finite and came from somewhere
    if (mem.width != mem.points.size() || mem.height != 1) c.fail("size-fields", fmt("%zu points, width %u height %u", mem.points.size(), mem.width, mem.height));
    if (mem.header.frame_id != clouds[0].header.frame_id || mem.header.stamp != clouds[0].header.stamp) c.fail("header", "frame or stamp of the cloud lost");
    for (auto& g : got)
      if (!std::isfinite(g.x) || !std::isfinite(g.y) || !std::isfinite(g.z) || !(g.age >= 0)) c.fail("not-a-point", ctx + fmt("(%g %g %g) age %g", g.x, g.y, g.z, g.age));
    if (amb) {
      c.count("steps not judged (a point on a cell, range or view boundary)");
    } else {
      auto a = want, b = got;
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      if (!(a == b)) {
        std::vector<Pt> miss, extra;
        std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(miss));
        std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(extra));
        std::string d = fmt("%zu expected, %zu in the cloud; ", a.size(), b.size());
        if (!miss.empty()) d += fmt("missing (%g %g %g) age %g; ", miss[0].x, miss[0].y, miss[0].z, miss[0].age);
        if (!extra.empty()) d += fmt("unexpected (%g %g %g) age %g; ", extra[0].x, extra[0].y, extra[0].z, extra[0].age);
        const char* key = !miss.empty() && miss[0].age == 0 ? "obstacle-lost" : !miss.empty() ? "memory-lost" : !extra.empty() && extra[0].age == 0 ? "noise-or-range" : "stale-kept";
        c.fail(key, d + ctx);
      }
      c.count("steps judged");
      c.count("fresh points kept", fresh);
      c.count("remembered points kept", kept);
      c.count("dropped: too old", nAged);
      c.count("dropped: seen free", nInFov);
      c.count("dropped: cell measured again", nCovered);
      c.count("dropped: out of range", nFar);
      if (fresh + kept) h << (int)fresh << (int)kept << (int)nAged << (int)nInFov << (int)nCovered;
    }
    vh::Hasher dg;
    for (auto& g : got) dg << g.x << g.y << g.z << g.age;
    c.digest(dg);
    // fly on
    pos += Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.3f) * r.pick({0.f, 0.1f, 0.5f, 4.f});
    yaw = wrapAngleToPlusMinus180(yaw + r.gauss() * r.pick({0.f, 5.f, 60.f}));
    if (r.chance(0.3)) pitch = r.unif(-30, 30);
  }
  c.distinct(h);
  if (c.index < 3) c.sample(fmt("range %g..%g, max age %g s, %d points per cell, %zu cameras, %zu points remembered at the end", lo, hi, maxAge, minPts, fov.size(), mem.points.size()));
}

// the planner keeps the memory from one iteration to the next: with its cameras, its attitude and the time that passed
VH_SUITE(planner, 150, 4000) {
  auto& r = c.rng;
  rosmock::reset();
  double now = r.pick({1.0, 1000.0, 1.6e9});
  rosmock::setTime(now);
  LocalPlanner p;
  p.setDefaultPx4Parameters();
  LocalPlannerNodeConfig cfg = LocalPlannerNodeConfig::__getDefault__();
  cfg.n_expanded_nodes_ = 2;
  cfg.min_sensor_range_ = r.pick({0.2, 1.0});
  cfg.max_sensor_range_ = r.pick({8.0, 15.0, 40.0});
  cfg.max_point_age_s_ = r.pick({0.5, 3.0, 20.0});
  cfg.min_num_points_per_cell_ = r.pick({1, 1, 2});
  p.dynamicReconfigureSetParams(cfg, 0);
  std::vector<FOV> fov = geo::rig(r);
  for (size_t i = 0; i < fov.size(); i++) p.setFOV(i, fov[i]);
  Vector3f pos(r.unif(-20, 20), r.unif(-20, 20), r.unif(0, 10));
  p.setGoal(pos + Vector3f(30, 0, 0));
  p.setPreviousGoal(pos);
  std::vector<Vector3f> world;
  for (int i = 0, n = r.range(5, 40); i < n; i++)
    world.push_back(pos + Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.3f).normalized() * r.unif(1.2f, (float)cfg.max_sensor_range_ * 0.9f));
  float yaw = r.unif(-3.f, 3.f), pitch = 0;
  Memory mem;
  double last = now;
  vh::Hasher h;
  for (int step = 0, n = r.range(3, 25); step < n; step++) {
    Eigen::Quaternionf q = Eigen::AngleAxisf(yaw, Vector3f::UnitZ()) * Eigen::AngleAxisf(pitch, Vector3f::UnitY());
    p.setState(pos, Vector3f(0, 0, 0), q);
    Cloud cl;
    cl.header.frame_id = "local_origin";
    if (r.chance(0.6))
      for (auto& w : world)
        if (r.chance(0.4)) cl.push_back(pcl::PointXYZ(w.x(), w.y(), w.z()));
    p.original_cloud_vector_.assign(1, cl);
    rosmock::setTime(now += r.pick({0.05, 0.1, 0.4, 2.0}));
    double elapsed = now - last;
    last = now;
    p.runPlanner();
    Memory before = mem;
    auto run = [&](float dy, float dp) {
      Memory m = before;
      processPointcloud(m, {cl}, fov, getYawFromQuaternion(q) + dy, getPitchFromQuaternion(q) + dp, pos, cfg.min_sensor_range_, cfg.max_sensor_range_, cfg.max_point_age_s_, (float)elapsed,
                        cfg.min_num_points_per_cell_);
      return m;
    };
    mem = run(0, 0);
    const Memory& got = p.getPointcloud();
    auto same = [](const Memory& a, const Memory& b, std::string* why) {
      if (a.size() != b.size()) {
        if (why) *why = fmt("%zu points, expected %zu", b.size(), a.size());
        return false;
      }
      for (size_t i = 0; i < a.size(); i++)
        if (a.points[i].x != b.points[i].x || a.points[i].y != b.points[i].y || a.points[i].z != b.points[i].z || !vh::close(a.points[i].intensity, b.points[i].intensity, 1e-4, 1e-5)) {
          if (why) *why = fmt("(%g %g %g) aged %g s, expected (%g %g %g) aged %g s", b.points[i].x, b.points[i].y, b.points[i].z, b.points[i].intensity, a.points[i].x, a.points[i].y, a.points[i].z, a.points[i].intensity);
          return false;
        }
      return true;
    };
    std::string why;
    if (!same(mem, got, &why)) {
      bool amb = false;
      for (float dy : {-0.01f, 0.01f})
        for (float dp : {-0.01f, 0.01f}) amb |= !same(mem, run(dy, dp), nullptr);
      for (auto& pt : before.points) amb |= std::fabs(pt.intensity - cfg.max_point_age_s_) < 1e-3;
      if (amb) {
        c.count("iterations not judged (a point on a view or age boundary)");
        break;
      }
      c.fail("planner-memory", fmt("iteration %d, %g s after the one before, max age %g: ", step, elapsed, cfg.max_point_age_s_) + why);
      return;
    }
    c.count("planner iterations compared");
    c.count("points in the planner's memory", got.size());
    for (auto& pt : got.points)
      if (pt.intensity > 0) c.count("of them remembered");
    h << (int)got.size();
    c.digest(vh::Hasher() << (int)got.size());
    pos += Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.3f) * r.pick({0.f, 0.1f, 0.5f});
    yaw += r.gauss() * r.pick({0.f, 0.1f, 1.f});
    if (r.chance(0.3)) pitch = r.unif(-0.5f, 0.5f);
  }
  c.distinct(h);
}
