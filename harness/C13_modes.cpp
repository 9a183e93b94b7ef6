// VH: libs=local_planner flavour=asan twin=1
// Which mode the waypoint generator is in and where each mode heads, over whole flights against a model of the rules.
#include "vh.h"
#include "wg_model.h"
using namespace wg;
using vh::fmt;

VH_SUITE(modes, 3000, 80000) {
  auto& r = c.rng;
  Flight f(r);
  Gen g;
  Model m;
  Vector3f sp = f.in.pos;
  f.in.now = ros::Time(f.t);
  f.in.q = quat(f.in.yaw, f.in.pitch);
  vh::Hasher h;
  if (g.getState() != S::LOITER) c.fail("start", "does not start loitering");
  double yaw = 0;
  for (int k = 0, n = r.range(5, 100); k < n; k++) {
    waypointResult w = g.step(f.in);
    Out o = m.step(f.in);
    c.evals(1);
    std::string ctx = fmt("call %d in %s: ", k, name(o.state)) + f.show();
    c.digest(vh::Hasher() << (int)w.waypoint_type << w.goto_position.x());
    if (o.amb) {
      c.count("flights cut where rounding decides");
      break;
    }
    if (w.waypoint_type != o.next || g.getState() != o.next) {
      c.fail("mode", ctx + fmt(": goes to %s, expected %s", name(w.waypoint_type), name(o.next)));
      return;
    }
    double tol = 3e-3 + 2e-6 * (f.in.pos.norm() + f.in.goal.norm());
    Vector3d t = geo::d(w.goto_position);
    if (!((t - o.target).norm() < tol)) {
      c.fail(std::string("target-") + name(o.state), ctx + fmt(": heads for (%g %g %g), expected (%g %g %g)", t.x(), t.y(), t.z(), o.target.x(), o.target.y(), o.target.z()));
      return;
    }
    for (int i = 0; i < 3; i++)
      if (!vh::close(w.linear_velocity_wp[i], o.vel[i], 1e-6)) {
        c.fail("velocity-setpoint", ctx + fmt(": velocity setpoint (%g %g %g), expected (%g %g %g)", w.linear_velocity_wp.x(), w.linear_velocity_wp.y(), w.linear_velocity_wp.z(), o.vel.x(), o.vel.y(), o.vel.z()));
        return;
      }
    c.count((std::string(name(o.state)) + " -> " + name(o.next)).c_str());
    h << (int)o.state << (int)o.next << (int)f.in.nav;
    sp = w.position_wp;
    yaw = std::atan2(2.0 * w.orientation_wp.w() * w.orientation_wp.z(), 1 - 2.0 * w.orientation_wp.z() * w.orientation_wp.z());
    f.advance(sp, yaw);
  }
  c.distinct(h);
  if (c.index < 3) c.sample(f.show());
}

// told to stay, in the air: whatever was going on, it soon holds one position near where it was told
VH_SUITE(hold, 600, 15000) {
  auto& r = c.rng;
  Flight f(r);
  Gen g;
  f.in.now = ros::Time(f.t);
  f.in.q = quat(f.in.yaw, f.in.pitch);
  Vector3f sp = f.in.pos;
  double yaw = 0;
  for (int k = 0, n = r.range(1, 60); k < n; k++) {
    waypointResult w = g.step(f.in);
    sp = w.position_wp;
    f.advance(sp, yaw);
  }
  S s0 = g.getState();
  bool already = s0 == S::LOITER;
  f.in.stay = true;
  f.in.air = true;
  f.in.plan.path_node_positions.clear();
  f.in.vel.setZero();
  f.in.goal = f.in.pos + Vector3f(30, 5, 1);
  Vector3f at;
  for (int k = 0; k < 80; k++) {
    f.t += 0.1;
    f.in.now = ros::Time(f.t);
    waypointResult w = g.step(f.in);
    c.evals(1);
    if (k == 4) {
      at = w.goto_position;
      if (!already && (at - f.in.pos).norm() > 1e-3 + 1e-5 * at.norm()) c.fail("elsewhere", fmt("told to stay in %s, heads %g m away", name(s0), (at - f.in.pos).norm()));
    }
    if (k >= 4 && (w.waypoint_type != S::LOITER || w.goto_position != at)) {
      c.fail("not-holding", fmt("told to stay %d calls ago in %s, now in %s", k, name(s0), name(w.waypoint_type)));
      return;
    }
    if (k >= 70 && f.in.sxy * f.in.sz > 0.1 && (w.position_wp - at).norm() > 0.1 + 0.06 * std::max(1.f, std::isfinite(f.in.plan.cruise_velocity) ? f.in.plan.cruise_velocity : 2.f)) {
      c.fail("setpoint-not-holding", fmt("told to stay %d calls ago in %s, the setpoint is %g m from the held position (%s)", k, name(s0), (w.position_wp - at).norm(), f.show().c_str()));
      return;
    }
    // pushed around by the wind: the held position does not follow
    if (k > 4) f.in.pos = at + Vector3f(std::sin(k * 0.3f), std::cos(k * 0.3f), 0) * 0.05f;
  }
  c.count((std::string("held from ") + name(s0)).c_str());
  c.distinct(vh::Hasher() << (int)s0 << f.in.pos.x());
}
