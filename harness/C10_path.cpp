// VH: libs=local_planner flavour=asan twin=1
// The setpoint taken from a planned path: the point reached by travelling along it at the given speed.
#include <local_planner/planner_functions.h>
#include "geo.h"
#include "vh.h"
using namespace avoidance;
using Eigen::Vector3d;
using Eigen::Vector3f;
using vh::fmt;

VH_SUITE(setpoint, 40000, 1000000) {
  auto& r = c.rng;
  int n = r.pick({0, 1, 2, 3, 3, 4, 5, 6, r.range(3, 30)});
  double node = r.pick({2.0, 1.0, 0.5, 5.0});
  bool uneven = r.chance(0.4);
  // built the way it was planned: from the vehicle outwards, stored last node first
  std::vector<Vector3f> path(n);
  Vector3d p(r.uni(-100, 100), r.uni(-100, 100), r.uni(0, 50));
  Vector3d dir = Vector3d(r.gauss(), r.gauss(), 0.2 * r.gauss()).normalized();
  for (int i = n - 1; i >= 0; i--) {
    path[i] = p.cast<float>();
    dir = (dir + 0.5 * Vector3d(r.gauss(), r.gauss(), 0.3 * r.gauss())).normalized();
    p += dir * (uneven ? node * r.uni(0.2, 2) : node);
  }
  double total = 0;
  for (int i = n - 2; i > 0; i--) total += (geo::d(path[i - 1]) - geo::d(path[i])).norm();
  double t0 = r.pick({0.28, 1000.0, 1.6e9});
  ros::Time gen(t0);
  double v = r.pick({(float)1, 3.f, 0.f, r.unif(0.1f, 10.f)});
  double age = r.pick({0.0, r.uni(0, 5), r.uni(0, 60), v > 0 ? total / v * r.uni(0.8, 1.1) : 1.0});
  ros::Time now = gen + ros::Duration(age);
  double dist = (float)((now - gen).toSec()) * v;
  Vector3f sp(7, 7, 7);
  bool ok = getSetpointFromPath(path, gen, (float)v, now, sp);
  std::string ctx = fmt("path of %d nodes, %g m to travel, %g m/s for %g s (%g m)", n, total, v, age, dist);
  c.digest(vh::Hasher() << ok << (n >= 2 ? sp.x() : 0.f));
  if (n < 2) {
    if (ok) c.fail("nothing-to-follow", ctx);
    c.count("paths too short");
    return;
  }
  if (n == 2) {
    if (!ok || sp != path[0]) c.fail("single-segment", ctx + fmt(": %d (%g %g %g)", ok, sp.x(), sp.y(), sp.z()));
    c.count("single segments");
    return;
  }
  if (std::fabs(dist - total) < 1e-4 * (1 + total)) {
    c.count("not judged (exactly at the end)");
    return;
  }
  if (ok != (dist < total)) {
    c.fail("validity", ctx + fmt(": reported %s", ok ? "valid" : "used up"));
    return;
  }
  if (!ok) {
    c.count("used up");
    return;
  }
  // walk it
  double left = dist;
  Vector3d want = geo::d(path[n - 2]);
  for (int i = n - 2; i > 0; i--) {
    Vector3d s = geo::d(path[i - 1]) - geo::d(path[i]);
    if (left <= s.norm()) {
      want = geo::d(path[i]) + s * (left / s.norm());
      break;
    }
    left -= s.norm();
  }
  double err = (geo::d(sp) - want).norm();
  if (!(err < 2e-3 + 1e-5 * want.norm())) c.fail("setpoint", ctx + fmt(": (%g %g %g), expected (%g %g %g)", sp.x(), sp.y(), sp.z(), want.x(), want.y(), want.z()));
  c.count("setpoints compared");
  c.distinct(vh::Hasher() << n << (int)(dist * 10) << (int)(total * 10));
  if (c.index < 20) c.sample(ctx);
}

// following one path while time passes: the setpoint moves continuously forward and, once used up, it stays used up
VH_SUITE(follow, 3000, 60000) {
  auto& r = c.rng;
  int n = r.range(3, 20);
  std::vector<Vector3f> path(n);
  Vector3d p(r.uni(-50, 50), r.uni(-50, 50), r.uni(0, 20)), dir = Vector3d(r.gauss(), r.gauss(), 0).normalized();
  for (int i = n - 1; i >= 0; i--) {
    path[i] = p.cast<float>();
    dir = (dir + 0.4 * Vector3d(r.gauss(), r.gauss(), 0.3 * r.gauss())).normalized();
    p += dir * r.uni(0.5, 3);
  }
  ros::Time gen(r.pick({1.0, 1.6e9}));
  float v = r.unif(0.2f, 8.f);
  bool over = false;
  Vector3f last;
  double step = r.pick({0.1, 0.05, 0.02});
  for (int k = 0; k < 1000; k++) {
    Vector3f sp;
    bool ok = getSetpointFromPath(path, gen, v, gen + ros::Duration(k * step), sp);
    if (over && ok) {
      c.fail("revived", "a path that was used up became valid again");
      break;
    }
    if (ok && k && !((sp - last).norm() <= v * step * 1.01 + 2e-3)) {
      c.fail("jump", fmt("the setpoint moved %g m in %g s at %g m/s", (sp - last).norm(), step, v));
      break;
    }
    c.evals(1);
    last = sp;
    if (!ok && over) break;
    over = !ok;
  }
  if (!over) c.count("paths longer than the watch");
  else c.count("followed to the end");
  c.distinct(vh::Hasher() << n << v << step);
}
