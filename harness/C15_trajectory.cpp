// VH: libs=local_planner/src/utils/trajectory_simulator.cpp ros=0 flavour=asan
// Simulated trajectories: physically consistent, inside every limit, reaching the velocity asked for.
#include <local_planner/trajectory_simulator.h>
#include "vh.h"
using namespace avoidance;
using vh::fmt;

VH_SUITE(trajectory, 6000, 150000) {
  auto& r = c.rng;
  simulation_limits l;
  l.max_jerk_norm = r.unif(1.f, 30.f);
  l.max_acceleration_norm = r.unif(1.f, 15.f);
  l.max_xy_velocity_norm = r.unif(0.5f, 15.f);
  l.max_z_velocity = r.unif(0.3f, 6.f);
  l.min_z_velocity = -r.unif(0.3f, 4.f);
  const double a = std::min(2 * std::sqrt((double)l.max_jerk_norm), (double)l.max_acceleration_norm);
  simulation_state s;
  s.time = r.pick({0.f, r.unif(0.f, 100.f)});
  s.position = Eigen::Vector3f(r.unif(-50.f, 50.f), r.unif(-50.f, 50.f), r.unif(-5.f, 50.f));
  double ang = r.uni(-3.14, 3.14), vv = r.pick({0.0, 1.0, r.unit()}) * l.max_xy_velocity_norm;
  s.velocity = Eigen::Vector3f(vv * cos(ang), vv * sin(ang), r.pick({0.f, r.unif(l.min_z_velocity, l.max_z_velocity)}));
  if (r.chance(0.2)) s.velocity.setZero();
  Eigen::Vector3f ad(r.gauss(), r.gauss(), r.gauss());
  bool steady = r.chance(0.5);
  s.acceleration = steady ? Eigen::Vector3f(0, 0, 0) : Eigen::Vector3f(ad.normalized() * a * r.pick({0.999, r.unit()}));
  float step = r.pick({0.1f, 0.05f, 0.02f, 0.2f});
  Eigen::Vector3f g(r.gauss(), r.gauss(), r.gauss() * 0.5);
  switch (r.below(8)) {
    case 0: g.setZero(); break;
    case 1: g.head<2>().setZero(); break;
    case 2: g.z() = 0; break;
    case 3: g = -s.velocity; break;
    default: g *= r.unif(0.01f, 100.f);
  }
  double T = r.pick({0.0, r.uni(0, 1), r.uni(0, 10), r.uni(10, 60), r.uni(10, 60)});
  TrajectorySimulator sim(l, s, step);
  auto v = sim.generate_trajectory(g, (float)T);
  std::string ctx = fmt("jerk<=%.3g acc<=%.3g vxy<=%.3g vz in [%.3g, %.3g], start v (%.3g %.3g %.3g) a (%.3g %.3g %.3g), goal (%.3g %.3g %.3g), step %g duration %.4g", l.max_jerk_norm, l.max_acceleration_norm,
                        l.max_xy_velocity_norm, l.min_z_velocity, l.max_z_velocity, s.velocity.x(), s.velocity.y(), s.velocity.z(), s.acceleration.x(), s.acceleration.y(), s.acceleration.z(), g.x(), g.y(), g.z(), step, T);
  double ratio = (double)(float)T / step;
  if (std::fabs(ratio - std::round(ratio)) > 1e-3 || T == 0)
    if (v.size() != (size_t)std::ceil(ratio)) c.fail("length", ctx + fmt(": %zu states", v.size()));
  auto again = sim.generate_trajectory(g, (float)T);
  bool same = again.size() == v.size();
  for (size_t i = 0; same && i < v.size(); i++) same = v[i].position == again[i].position && v[i].time == again[i].time;
  if (!same) {
    bool nan = false;
    for (auto& q : v) nan |= !q.position.allFinite();
    if (!nan) c.fail("not-repeatable", ctx);
  }
  // velocity asked for: along the goal direction, at the speed the limits allow
  Eigen::Vector3d u = g.norm() > 0 ? Eigen::Vector3d(g.cast<double>().normalized()) : Eigen::Vector3d(0, 0, 0);
  Eigen::Vector3d d = u * std::hypot(l.max_xy_velocity_norm, u.z() > 0 ? l.max_z_velocity : l.min_z_velocity);
  if (d.head<2>().norm() > l.max_xy_velocity_norm) d.head<2>() *= l.max_xy_velocity_norm / d.head<2>().norm();
  d.z() = std::min((double)l.max_z_velocity, std::max((double)l.min_z_velocity, d.z()));
  double P = l.max_jerk_norm * 10 / (std::sqrt(a * a + l.max_jerk_norm * d.norm()) + a);
  bool resolved = std::sqrt(P) * step < 0.45;  // the step is short against the controller's own time constant
  simulation_state p = s;
  for (size_t i = 0; i < v.size(); i++) {
    auto& q = v[i];
    if (!std::isfinite(q.time) || !q.position.allFinite() || !q.velocity.allFinite() || !q.acceleration.allFinite()) {
      c.fail("not-finite", ctx + fmt(": state %zu", i));
      return;
    }
    double dt = (double)q.time - p.time, te = 2e-7 * std::fabs(q.time) + 1e-7;  // rounding of the time stamps
    if (!(dt > 0) || dt > step + te * 4) {
      c.fail("time-step", ctx + fmt(": step %zu takes %g s", i, dt));
      return;
    }
    Eigen::Vector3d j = (q.acceleration - p.acceleration).cast<double>() / dt;
    double je = te * 4 / dt;
    if (dt > 1e-3 && j.norm() > l.max_jerk_norm * (1.001 + je)) c.fail("jerk", ctx + fmt(": step %zu jerk %g", i, j.norm()));
    if (q.acceleration.norm() > a * 1.001) c.fail("acceleration", ctx + fmt(": step %zu acceleration %g", i, q.acceleration.norm()));
    // motion between two states is that of one constant jerk
    Eigen::Vector3d da = (q.acceleration - p.acceleration).cast<double>();
    Eigen::Vector3d pv = p.velocity.cast<double>() + dt * p.acceleration.cast<double>() + 0.5 * dt * da;
    Eigen::Vector3d pp = p.position.cast<double>() + dt * p.velocity.cast<double>() + 0.5 * dt * dt * p.acceleration.cast<double>() + dt * dt * da / 6;
    double vt = 1e-4 + te * 4 * a + 1e-6 * q.velocity.norm(), pt = 1e-3 + te * 4 * (q.velocity.norm() + 1) + 1e-6 * q.position.norm();
    if ((pv - q.velocity.cast<double>()).norm() > vt) c.fail("velocity-kinematics", ctx + fmt(": step %zu off by %g", i, (pv - q.velocity.cast<double>()).norm()));
    if ((pp - q.position.cast<double>()).norm() > pt) c.fail("position-kinematics", ctx + fmt(": step %zu off by %g", i, (pp - q.position.cast<double>()).norm()));
    if (resolved && steady) {
      if (q.velocity.head<2>().norm() > l.max_xy_velocity_norm + 2e-3) c.fail("horizontal-speed", ctx + fmt(": step %zu speed %g", i, q.velocity.head<2>().norm()));
      if (q.velocity.z() > l.max_z_velocity + 2e-3 || q.velocity.z() < l.min_z_velocity - 2e-3) c.fail("vertical-speed", ctx + fmt(": step %zu vz %g", i, q.velocity.z()));
    }
    p = q;
  }
  c.count("steps", v.size());
  double tt = (s.velocity.cast<double>() - d).norm() / a + 2 * a / l.max_jerk_norm + 10 / std::sqrt(P);
  if (resolved && T > 2 * tt && !v.empty()) {
    c.count("convergence_judged");
    double e = (v.back().velocity.cast<double>() - d).norm();
    if (e > 0.02) c.fail("never-reaches-velocity", ctx + fmt(": %g m/s off after %g s (expected settled after %g)", e, T, tt));
    c.distinct(vh::Hasher() << (int)(d.norm() * 4) << (int)T << (int)(a * 3) << steady);
  }
  if (c.index == 4) c.sample(ctx);
}

VH_SUITE(clamp, 10000, 200000) {
  auto& r = c.rng;
  Eigen::Vector3f x(r.gauss() * 5, r.gauss() * 5, r.gauss() * 5);
  if (r.chance(0.1)) x.setZero();
  float m = r.pick({0.f, r.unif(0.f, 20.f), x.norm()});
  Eigen::Vector3f y = norm_clamp<3>(x, m);
  Eigen::Vector2f x2 = x.head<2>(), y2 = norm_clamp<2>(x2, m);
  if (!(y.norm() <= m * 1.00001f + 1e-6f) || (x.norm() <= m * 0.99999f && y != x) || !((y * x.norm() - x * y.norm()).norm() < 1e-3f * (1 + x.squaredNorm())) ||
      (x.norm() > m * 1.0001f && std::fabs(y.norm() - m) > 1e-4f * (1 + m)) || y.dot(x) < -1e-6f)
    c.fail("norm-clamp", fmt("(%g %g %g) to %g -> (%g %g %g)", x.x(), x.y(), x.z(), m, y.x(), y.y(), y.z()));
  if (!(y2.norm() <= m * 1.00001f + 1e-6f) || (x2.norm() > m * 1.0001f && std::fabs(y2.norm() - m) > 1e-4f * (1 + m)) || (x2.norm() <= m * 0.99999f && y2 != x2)) c.fail("norm-clamp-2d", fmt("(%g %g) to %g -> (%g %g)", x2.x(), x2.y(), m, y2.x(), y2.y()));
  c.distinct(vh::Hasher() << m << x.x());
}
