// VH: libs=local_planner flavour=asan twin=1
// The setpoint sent to the flight controller: speed, smoothing and heading over whole flights, against a double-precision
// model, plus bounds that hold whatever the model; and flights in free space that must arrive.
#include "vh.h"
#include "wg_model.h"
using namespace wg;
using vh::fmt;

static double yawOf(const Eigen::Quaternionf& q) { return std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()), 1 - 2.0 * (q.y() * q.y() + q.z() * q.z())); }

VH_SUITE(flight, 1500, 40000) {
  auto& r = c.rng;
  Flight f(r);
  Gen g;
  Model m;
  Vector3f sp = f.in.pos;
  double yaw = 0;
  f.in.now = ros::Time(f.t);
  f.in.q = quat(f.in.yaw, f.in.pitch);
  if (r.chance(0.5)) f.plan();
  if (r.chance(0.3))  // camera models arrive in any order
    for (size_t i = f.in.fov.size(); i-- > 0;) g.setFOV(i, f.in.fov[i]);
  vh::Hasher h;
  for (int k = 0, n = r.range(5, 120); k < n; k++) {
    waypointResult w = g.step(f.in);
    Out o = m.step(f.in);
    c.evals(1);
    std::string ctx = fmt("call %d in %s: ", k, name(o.state)) + f.show();
    // whatever the model says
    if (!w.position_wp.allFinite() || !w.smoothed_goto_position.allFinite() || !w.adapted_goto_position.allFinite() || !w.goto_position.allFinite() || !w.orientation_wp.coeffs().allFinite()) {
      c.fail("not-finite", ctx);
      return;
    }
    if (w.position_wp != w.smoothed_goto_position) c.fail("sent-differs", ctx + ": the position sent is not the smoothed one");
    if (std::fabs(w.orientation_wp.norm() - 1) > 1e-4 || std::fabs(w.orientation_wp.x()) + std::fabs(w.orientation_wp.y()) > 1e-5) c.fail("attitude", ctx + ": heading setpoint is not level");
    if (std::isfinite(w.angular_velocity_wp.z())) c.fail("yaw-rate", ctx + fmt(": yaw rate %g although none is commanded", w.angular_velocity_wp.z()));
    c.digest(vh::Hasher() << w.position_wp.x() << w.position_wp.z() << w.orientation_wp.z() << (int)w.waypoint_type << std::isfinite(w.angular_velocity_wp.x()));
    if (o.amb) {
      c.count("flights cut where rounding decides");
      break;
    }
    if (o.lag) {
      c.count("calls not judged: from landing to offboard");
      f.advance(f.in.pos, f.in.yaw / geo::R2D);
      continue;
    }
    double tol = 5e-3 + 2e-6 * f.in.pos.norm();
    Vector3d a = geo::d(w.adapted_goto_position), s = geo::d(w.smoothed_goto_position);
    if (!((a - o.adapted).norm() < tol)) {
      c.fail("speed", ctx + fmt(": heads for %g m away (%g %g %g), expected %g m (%g %g %g)", (a - geo::d(f.in.pos)).norm(), a.x(), a.y(), a.z(), (o.adapted - geo::d(f.in.pos)).norm(), o.adapted.x(), o.adapted.y(), o.adapted.z()));
      return;
    }
    double reach = (a - geo::d(f.in.pos)).norm(), far = (geo::d(f.in.goal) - geo::d(f.in.pos)).norm();
    if (o.state != S::ALTITUDE_CHANGE && reach > far + tol) c.fail("beyond-goal", ctx + fmt(": %g m ahead, goal %g m away", reach, far));
    if (!((s - o.smoothed).norm() < 4 * tol)) {
      c.fail("smoothing", ctx + fmt(": sends (%g %g %g), expected (%g %g %g)", s.x(), s.y(), s.z(), o.smoothed.x(), o.smoothed.y(), o.smoothed.z()));
      return;
    }
    if (!(std::fabs(pi(yawOf(w.orientation_wp) - o.yaw)) < 5e-3)) {
      c.fail("heading", ctx + fmt(": heading %g, expected %g deg", yawOf(w.orientation_wp) * geo::R2D, o.yaw * geo::R2D));
      return;
    }
    c.count((std::string("calls in ") + name(o.state)).c_str());
    h << (int)o.state << (int)(o.speed * 5);
    sp = w.position_wp;
    yaw = yawOf(w.orientation_wp);
    f.advance(sp, yaw);
  }
  c.distinct(h);
  if (c.index < 3) c.sample(f.show());
}

// free space: a vehicle that follows the setpoints turns towards the goal, reaches it and stays
VH_SUITE(arrival, 200, 3000) {
  auto& r = c.rng;
  Gen g;
  In in;
  in.pos = Vector3f(r.unif(-20, 20), r.unif(-20, 20), r.unif(2, 10));
  double ang = r.uni(-3.14, 3.14), d = r.uni(3, 25);
  in.goal = in.pos + Vector3f(d * cos(ang), d * sin(ang), r.unif(-0.3f, 0.3f) * d * 0.5f);
  in.prev = in.pos;
  in.vel.setZero();
  in.want = Vector3f(NAN, NAN, NAN);
  in.yaw = r.unif(-180, 180);
  in.fov = {FOV(0, 0, r.pick({59.f, 87.f, 120.f}), r.pick({46.f, 58.f}))};
  in.nav = r.pick({N::mission, N::auto_loiter, N::auto_rtgs});
  in.plan.cruise_velocity = r.pick({1.f, 3.f, r.unif(0.5f, 5.f)});
  double t = r.pick({5.0, 1.6e9}), dt = r.pick({0.1, 0.05});
  Vector3d p = geo::d(in.pos), v(0, 0, 0);
  double T = 60 + 4 * d / in.plan.cruise_velocity, first = -1;
  double vmax = 0;
  std::string ctx = fmt("goal %g m away, %g deg off the nose, h-fov %g, cruise %g, period %g", d, vh::angDiff(ang * geo::R2D, in.yaw), in.fov[0].h_fov_deg, in.plan.cruise_velocity, dt);
  Vector3f last;
  for (double el = 0; el < T; el += dt) {
    in.now = ros::Time(t + el);
    in.pos = p.cast<float>();
    in.vel = v.cast<float>();
    in.q = quat(in.yaw, 0);
    waypointResult w = g.step(in);
    c.evals(1);
    if (el > 0 && !((w.position_wp - last).norm() < (in.plan.cruise_velocity + 1) * 12 * dt + 0.05)) c.fail("jump", ctx + fmt(": the setpoint jumps by %g m in %g s", (w.position_wp - last).norm(), dt));
    last = w.position_wp;
    // first-order vehicle
    Vector3d want = geo::d(w.position_wp) - p;
    if (want.norm() > in.plan.cruise_velocity) want *= in.plan.cruise_velocity / want.norm();
    v += (want - v) * std::min(1.0, dt / 0.4);
    p += v * dt;
    in.yaw = vh::angDiff(in.yaw + vh::angDiff(yawOf(w.orientation_wp) * geo::R2D, in.yaw) * std::min(1.0, dt / 0.3), 0);
    vmax = std::max(vmax, v.norm());
    double left = (geo::d(in.goal) - p).norm();
    if (left < 0.5 && first < 0) first = el;
    if (first >= 0 && left > 1.2) {
      c.fail("left-the-goal", ctx + fmt(": %g m away again after arriving at %g s", left, first));
      return;
    }
  }
  if (first < 0) c.fail("never-arrives", ctx + fmt(": still %g m away after %g s", (geo::d(in.goal) - p).norm(), T));
  else c.count("arrivals");
  c.distinct(vh::Hasher() << first << d);
  if (c.index < 2) c.sample(ctx + fmt(": arrived after %g s", first));
}
