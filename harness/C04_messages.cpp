// VH: libs=avoidance flavour=asan twin=1
// Messages handed to the flight controller: every field is either exactly the requested setpoint or explicitly unset.
#include <avoidance/common.h>
#include "vh.h"
using namespace avoidance;
using vh::fmt;
static bool allNan(const mavros_msgs::PositionTarget& p) {
  return std::isnan(p.position.x) && std::isnan(p.position.y) && std::isnan(p.position.z) && std::isnan(p.velocity.x) && std::isnan(p.velocity.y) && std::isnan(p.velocity.z) &&
         std::isnan(p.acceleration_or_force.x) && std::isnan(p.acceleration_or_force.y) && std::isnan(p.acceleration_or_force.z) && std::isnan(p.yaw) && std::isnan(p.yaw_rate);
}
static void dirty(vh::Rng& r, mavros_msgs::PositionTarget& p) {
  p.position.x = r.uni(-9, 9), p.position.y = r.uni(-9, 9), p.position.z = r.uni(-9, 9);
  p.velocity.x = r.uni(-9, 9), p.velocity.y = r.uni(-9, 9), p.velocity.z = r.uni(-9, 9);
  p.acceleration_or_force.x = r.uni(-9, 9), p.acceleration_or_force.y = 1, p.acceleration_or_force.z = 2;
  p.yaw = 1, p.yaw_rate = 2;
}
static double val(vh::Rng& r) { return r.pick({0.0, (double)NAN, r.uni(-5, 5), r.uni(-1000, 1000), 1e6}); }
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

VH_SUITE(waypoint, 30000, 600000) {
  auto& r = c.rng;
  rosmock::setTime(r.uni(1, 1e6));
  mavros_msgs::Trajectory t;
  if (r.chance(0.7)) {  // the caller may reuse a message
    dirty(r, t.point_1), dirty(r, t.point_2), dirty(r, t.point_3), dirty(r, t.point_4), dirty(r, t.point_5);
    for (int i = 0; i < 5; i++) t.point_valid[i] = r.chance(0.5), t.time_horizon[i] = r.unif(0, 9);
    t.type = r.range(0, 3);
  }
  geometry_msgs::PoseStamped p;
  p.pose.position.x = val(r), p.pose.position.y = val(r), p.pose.position.z = val(r);
  double yaw = r.uni(-3.14, 3.14);
  double s = r.pick({1.0, 1.0, -1.0});
  p.pose.orientation.w = s * cos(yaw / 2), p.pose.orientation.z = s * sin(yaw / 2), p.pose.orientation.x = 0, p.pose.orientation.y = 0;
  geometry_msgs::Twist v;
  v.linear.x = val(r), v.linear.y = val(r), v.linear.z = val(r), v.angular.x = val(r), v.angular.y = val(r), v.angular.z = val(r);
  transformToTrajectory(t, p, v);
  std::string ctx = fmt("pos (%g %g %g) yaw %g vel (%g %g %g) rate %g", p.pose.position.x, p.pose.position.y, p.pose.position.z, yaw, v.linear.x, v.linear.y, v.linear.z, v.angular.z);
  auto& q = t.point_1;
  if (t.type != 0) c.fail("type", "not a waypoint trajectory");
  if (!(t.header.stamp == ros::Time::now())) c.fail("stamp", "stale stamp");
  if (!eq(q.position.x, p.pose.position.x) || !eq(q.position.y, p.pose.position.y) || !eq(q.position.z, p.pose.position.z)) c.fail("position", ctx);
  if (!eq(q.velocity.x, v.linear.x) || !eq(q.velocity.y, v.linear.y) || !eq(q.velocity.z, v.linear.z)) c.fail("velocity", ctx);
  if (!std::isnan(q.acceleration_or_force.x) || !std::isnan(q.acceleration_or_force.y) || !std::isnan(q.acceleration_or_force.z)) c.fail("acceleration-set", ctx);
  if (std::fabs(vh::angDiff(q.yaw * 180 / M_PI, yaw * 180 / M_PI)) > 1e-3) c.fail("yaw", ctx + fmt(" -> %g", q.yaw));
  if (!eq(q.yaw_rate, (float)-v.angular.z)) c.fail("yaw-rate", ctx + fmt(" -> %g", q.yaw_rate));
  if (!allNan(t.point_2) || !allNan(t.point_3) || !allNan(t.point_4) || !allNan(t.point_5)) c.fail("unused-points-set", ctx);
  for (int i = 0; i < 5; i++) {
    if ((bool)t.point_valid[i] != (i == 0)) c.fail("validity", fmt("point_valid[%d] = %d", i, (int)t.point_valid[i]));
    if (!std::isnan(t.time_horizon[i])) c.fail("time-horizon", fmt("time_horizon[%d] = %g", i, t.time_horizon[i]));
  }
  c.distinct(vh::Hasher() << q.position.x << q.yaw << q.velocity.z);
  if (c.index == 1) c.sample(ctx);
}

VH_SUITE(bezier, 20000, 400000) {
  auto& r = c.rng;
  rosmock::setTime(r.uni(1, 1e6));
  mavros_msgs::Trajectory t;
  for (int i = 0; i < 5; i++) t.point_valid[i] = r.chance(0.5), t.time_horizon[i] = r.unif(0, 9);
  std::array<Eigen::Vector4d, 5> cp;
  for (auto& p : cp) p = Eigen::Vector4d(r.uni(-100, 100), r.uni(-100, 100), r.uni(-100, 100), r.uni(-3.14, 3.14));
  double dur = r.pick({0.0, r.uni(0, 30), 1.0});
  transformToBezier(t, cp, dur);
  const mavros_msgs::PositionTarget* q[5] = {&t.point_1, &t.point_2, &t.point_3, &t.point_4, &t.point_5};
  if (t.type != 1 || !(t.header.stamp == ros::Time::now())) c.fail("bezier-header", "type or stamp wrong");
  for (int i = 0; i < 5; i++) {
    if (!t.point_valid[i]) c.fail("bezier-validity", fmt("control point %d not valid", i));
    if (i < 4 ? !std::isnan(t.time_horizon[i]) : std::fabs(t.time_horizon[4] - dur) > 1e-4) c.fail("bezier-duration", fmt("time_horizon[%d] = %g, duration %g", i, t.time_horizon[i], dur));
    if (std::fabs(q[i]->position.x - cp[i].y()) > 1e-3 || std::fabs(q[i]->position.y - cp[i].x()) > 1e-3 || std::fabs(q[i]->position.z + cp[i].z()) > 1e-3)
      c.fail("bezier-position", fmt("control point %d (%g %g %g) NED sent as (%g %g %g)", i, cp[i].x(), cp[i].y(), cp[i].z(), q[i]->position.x, q[i]->position.y, q[i]->position.z));
    if (std::fabs(vh::angDiff(q[i]->yaw * 180 / M_PI, 90 - cp[i][3] * 180 / M_PI)) > 0.01) c.fail("bezier-yaw", fmt("control point %d yaw %g sent as %g", i, cp[i][3], q[i]->yaw));
  }
  c.distinct(vh::Hasher() << cp[0].x() << cp[4][3]);
}
