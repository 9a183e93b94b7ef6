// Reference model, in double precision, of the local planner's waypoint generator: mode machine, target of each mode, speed,
// smoothing and heading. amb: an input so close to a threshold that rounding decides; the history is not judged further.
#pragma once
#include <local_planner/planner_functions.h>
#include <local_planner/waypoint_generator.h>
#include "geo.h"

namespace wg {
using namespace avoidance;
using Eigen::Vector3d;
using Eigen::Vector3f;
typedef PlannerState S;
typedef NavigationState N;
struct In {
  Vector3f pos, goal, prev, vel, want;
  Eigen::Quaternionf q;
  float yaw = 0, pitch = 0;  // of q, degrees
  bool stay = false, air = true, land = false, takeoff = false;
  N nav = N::mission;
  ros::Time now;
  avoidanceOutput plan;
  std::vector<FOV> fov;
  float sxy = 10, sz = 3;
};
struct Out {
  S state;          // in which the step was made
  S next;           // and the mode reported afterwards
  Vector3d target;  // goto
  Vector3d adapted, smoothed;
  double yaw;
  Vector3d vel;
  bool amb = false;
  bool lag = false;  // switched from landing to offboard within the mode: the position follows one call later
  double dt = 0, speed = 0;
};
inline double pi(double a) { return std::remainder(a, 2 * M_PI); }

// the generator with a clock of our own
struct Gen : WaypointGenerator {
  ros::Time t;
  ros::Time getSystemTime() override { return t; }
  waypointResult step(const In& in) {
    t = in.now;
    for (size_t i = 0; i < in.fov.size(); i++) setFOV(i, in.fov[i]);
    setSmoothingSpeed(in.sxy, in.sz);
    setPlannerInfo(in.plan);
    updateState(in.pos, in.q, in.goal, in.prev, in.vel, in.stay, in.air, in.nav, in.land, in.takeoff, in.want);
    return getWaypoints();
  }
};

struct Model {
  S s = S::LOITER;
  bool changed = false;
  bool first = true;
  ros::Time last;
  bool init = false;  // smoothing point defined
  Vector3d sp, sv;
  double yaw = 0, yawRate = 0;
  bool reached = false, landing = false;
  Vector3d hover, altPos;
  bool hoverSet = false;
  double altYaw = NAN, goalYaw = NAN, speed = 0;
  bool goalYawSet = false;

  Out step(const In& in) {
    Out o;
    const double eps = 2e-3;
    Vector3d pos = geo::d(in.pos), goal = geo::d(in.goal), vel = geo::d(in.vel);
    double cy = in.yaw / geo::R2D;
    // the state handed in
    if (!in.air || !init) {
      sp = pos;
      sv.setZero();
      yaw = cy;
      yawRate = 0;
      reached = false;
      init = true;
    }
    if (landing) {
      sp = pos;
      sv.setZero();
    }
    double raw = first ? 0 : (float)(in.now - last).toSec();
    o.dt = raw > 0 ? raw : 0.0001;
    last = in.now;
    first = false;
    o.vel = Vector3d(NAN, NAN, NAN);
    o.state = s;
    // target of the mode
    Vector3f along = in.pos;
    bool tree = getSetpointFromPath(in.plan.path_node_positions, in.plan.last_path_time, in.plan.cruise_velocity, in.now, along);
    Vector3d t = pos;
    switch (s) {
      case S::LOITER:
        if (changed || !hoverSet) hover = pos, hoverSet = true;
        landing = false;
        t = hover;
        break;
      case S::TRY_PATH: {
        Vector3d d = geo::d(along) - pos;
        if (d.allFinite() && d.norm() < 1e-3 && d.norm() > 0) o.amb = true;
        if (d.allFinite() && d.norm() > 0) t = pos + d.normalized();
        break;
      }
      case S::DIRECT: {
        Vector3d d = goal - pos;
        if (d.norm() > 0) t = pos + d.normalized();
        break;
      }
      case S::ALTITUDE_CHANGE:
        if (changed) altYaw = cy, altPos = pos;
        if (in.nav == N::offboard) {
          goal.x() = pos.x();
          goal.y() = pos.y();
          if (in.air) t.z() += in.pos.z() <= in.goal.z() ? 1 : -1;
        } else if (std::hypot(vel.x(), vel.y()) > 0.5) {
          o.vel = Vector3d(0, 0, NAN);
          altPos = pos;
        } else {
          t = Vector3d(altPos.x(), altPos.y(), goal.z());
          o.vel = geo::d(in.want);
        }
        if (std::fabs(std::hypot(vel.x(), vel.y()) - 0.5) < 1e-4) o.amb = true;
        break;
    }
    // heading
    double want = cy, flat = (t - pos).head<2>().norm();
    if (flat > 0.1) want = std::atan2(t.y() - pos.y(), t.x() - pos.x());
    if (std::fabs(flat - 0.1) < 1e-4) o.amb = true;
    if (s == S::ALTITUDE_CHANGE) want = altYaw;
    if (in.sxy <= 0.01f)
      yaw = want;
    else {
      double diff = std::isfinite(want) ? pi(want - yaw) : 0;
      if (std::fabs(std::fabs(diff) - M_PI) < 1e-3) o.amb = true;
      double P = in.sxy, D = 2 * std::sqrt(P);
      yawRate += (diff * P - yawRate * D) * o.dt;
      yaw = pi(yaw + yawRate * o.dt);
    }
    o.adapted = o.smoothed = t;
    o.lag = landing && in.nav == N::offboard;
    if (!landing) {
      // speed
      double a = o.dt / (0.9 + o.dt), v = std::isfinite(in.plan.cruise_velocity) ? in.plan.cruise_velocity : 2;
      double far = (goal - pos).norm();
      if (std::fabs(far - 1) < 1e-4) o.amb = true;
      if (far < 1) {
        t = goal;
        v = far;
        if (!goalYawSet) goalYaw = cy, goalYawSet = true;
        yaw = goalYaw;
      } else {
        if (s != S::ALTITUDE_CHANGE) {
          geo::Pol p = geo::fcu(t, pos);
          double e = p.e - in.pitch, z = p.z - in.yaw;
          if ((t - pos).head<2>().norm() < 0.02) o.amb = true;
          if ((t - pos).norm() > 0) {
            geo::wrap(e, z);
            float f0 = scaleToFOV(in.fov, PolarPoint(e, z, 1));
            for (double de : {-0.05, 0.05})
              for (double dz : {-0.05, 0.05}) {
                double e1 = e + de, z1 = z + dz;
                geo::wrap(e1, z1);
                if (std::fabs(scaleToFOV(in.fov, PolarPoint(e1, z1, 1)) - f0) > 0.03) o.amb = true;
              }
            v *= f0;
          } else
            o.amb = true;
        }
        goalYawSet = false;
      }
      speed = std::min(a * v + (1 - a) * speed, far);
      Vector3d d = t - pos;
      double n = d.norm();
      if (std::fabs(n - 0.1) < 1e-4) o.amb = true;
      if (n > 0.1) d /= n;
      o.adapted = pos + d * speed;
      // smoothing
      o.smoothed = o.adapted;
      if (in.sxy >= 0.01f && in.sz >= 0.01f) {
        Vector3d P(in.sxy, in.sxy, in.sz), D = 2 * P.cwiseSqrt();
        double near = (o.adapted - goal).norm();
        if (std::fabs(near - 0.1) < 1e-3) o.amb = true;
        Vector3d wv = near < 0.1 ? Vector3d(0, 0, 0) : vel;
        Vector3d dv = wv - sv;
        if (!dv.allFinite()) dv.setZero();
        sv += ((o.adapted - sp).cwiseProduct(P) + dv.cwiseProduct(D)) * o.dt;
        sp += sv * o.dt;
        o.smoothed = sp;
      }
    }
    o.target = t;
    o.yaw = yaw;
    o.speed = speed;
    // mode
    auto altitude = [&] {
      bool climb = in.pos.z() <= in.goal.z() - 0.8f;
      if (in.nav == N::auto_rtl && std::fabs(in.pos.z() - in.goal.z() + 0.8) < eps) o.amb = true;
      bool takeoff = in.nav == N::auto_takeoff || (in.nav == N::mission && in.takeoff) || (in.nav == N::auto_rtl && climb);
      landing = in.nav == N::auto_land || (in.nav == N::mission && in.land);
      if (in.nav == N::offboard) {
        if (reached) return false;
        if (in.pos.z() >= in.goal.z()) {
          reached = true;
          return false;
        }
        return true;
      }
      return takeoff || landing;
    };
    S n = s;
    switch (s) {
      case S::LOITER:
        n = in.stay ? S::LOITER : S::TRY_PATH;
        break;
      case S::TRY_PATH:
        n = in.stay ? S::LOITER : altitude() ? S::ALTITUDE_CHANGE : tree ? S::TRY_PATH : S::DIRECT;
        break;
      case S::ALTITUDE_CHANGE:
        n = in.stay ? S::LOITER : altitude() ? S::ALTITUDE_CHANGE : S::TRY_PATH;
        break;
      case S::DIRECT:
        n = tree ? S::TRY_PATH : altitude() ? S::ALTITUDE_CHANGE : in.stay ? S::LOITER : S::DIRECT;
        break;
    }
    changed = n != s;
    s = n;
    o.next = s;
    return o;
  }
};

inline Eigen::Quaternionf quat(double yawDeg, double pitchDeg) {
  return Eigen::Quaternionf(Eigen::AngleAxisf(yawDeg / geo::R2D, Vector3f::UnitZ()) * Eigen::AngleAxisf(pitchDeg / geo::R2D, Vector3f::UnitY()));
}
inline const char* name(S s) { return s == S::LOITER ? "LOITER" : s == S::TRY_PATH ? "TRY_PATH" : s == S::DIRECT ? "DIRECT" : "ALTITUDE_CHANGE"; }
inline const char* name(N n) {
  static const char* k[] = {"mission", "takeoff", "land", "rtl", "rtgs", "offboard", "loiter", "none"};
  return k[(int)n];
}
// a random flight: the vehicle more or less follows what it is sent
struct Flight {
  vh::Rng& r;
  In in;
  double t;
  double period;
  int calm = 0;
  explicit Flight(vh::Rng& rng) : r(rng) {
    t = r.pick({1.0, 100.0, 1.6e9, 0.3});
    period = r.pick({0.1, 0.1, 0.05, 0.033});
    in.pos = Vector3f(r.unif(-20, 20), r.unif(-20, 20), r.unif(0, 10));
    in.vel.setZero();
    in.want = Vector3f(NAN, NAN, NAN);
    in.yaw = r.unif(-180, 180);
    in.fov = geo::rig(r);
    if (in.fov.empty()) in.fov.push_back(FOV(0, 0, 59, 46));
    in.prev = in.pos;
    goal();
    in.air = r.chance(0.8);
    mode();
    in.sxy = r.pick({10.f, 10.f, 0.f, 3.f, 20.f});
    in.sz = r.pick({3.f, 3.f, 0.f, 10.f});
    in.plan.cruise_velocity = r.pick({3.f, 1.f, NAN, 0.f, r.unif(0.2f, 8.f)});
    in.plan.last_path_time = ros::Time(t);
  }
  void goal() {
    in.prev = in.goal.allFinite() ? in.goal : in.pos;
    float d = r.pick({0.3f, 2.f, 10.f, 50.f, 0.f});
    in.goal = in.pos + Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.4f) * d;
    if (r.chance(0.2)) in.goal.z() = in.pos.z() + r.pick({-5.f, 5.f, 0.5f, -0.5f});
  }
  void mode() {
    in.nav = r.pick({N::mission, N::mission, N::offboard, N::offboard, N::auto_takeoff, N::auto_land, N::auto_rtl, N::auto_rtgs, N::auto_loiter, N::none});
    in.land = r.chance(0.25);
    in.takeoff = !in.land && r.chance(0.25);
    in.want = r.chance(0.5) ? Vector3f(NAN, NAN, NAN) : Vector3f(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1));
  }
  void plan() {
    in.plan.last_path_time = ros::Time(t);
    int n = r.pick({0, 1, 2, 3, 4, 5, 6});
    in.plan.path_node_positions.assign(n, in.pos);
    Vector3f p = in.pos, d = (in.goal - in.pos).normalized();
    for (int i = n - 1; i >= 0; i--) {
      in.plan.path_node_positions[i] = p;
      p += (d + Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.2f) * 0.4f).normalized() * 2.f;
    }
  }
  // what happens before the next call
  void advance(const Vector3f& setpoint, double yaw) {
    double dt = period * r.pick({1.0, 1.0, 1.0, 0.5, 1.3, 0.0});
    t += dt;
    in.now = ros::Time(t);
    if (r.chance(0.7)) {
      Vector3f d = setpoint - in.pos;
      if (d.allFinite() && d.norm() < 20) {
        in.vel = in.vel * 0.5f + d * 0.5f;
        in.pos += in.vel * dt;
      }
      in.yaw += vh::angDiff(yaw * geo::R2D, in.yaw) * 0.2;
    } else if (r.chance(0.3)) {
      in.pos += Vector3f(r.gauss(), r.gauss(), r.gauss()) * r.pick({0.01f, 0.1f, 1.f});
      in.vel = Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.3f) * r.pick({0.1f, 0.4f, 2.f});
      in.yaw += r.gauss() * 20;
    }
    in.yaw = vh::angDiff(in.yaw, 0);
    if (r.chance(0.2)) in.pitch = r.chance(0.5) ? 0 : r.unif(-20, 20);
    in.q = quat(in.yaw, in.pitch);
    if (r.chance(0.1)) plan();
    if (r.chance(0.03)) in.plan.path_node_positions.clear();
    if (r.chance(0.03)) goal();
    if (r.chance(0.04)) mode();
    if (r.chance(0.03)) in.stay = !in.stay;
    if (r.chance(0.02)) in.air = !in.air;
    if (r.chance(0.02)) in.plan.cruise_velocity = r.pick({3.f, 1.f, NAN, r.unif(0.2f, 8.f)});
  }
  std::string show() const {
    return vh::fmt("nav %s%s%s%s%s, position (%g %g %g), goal offset (%g %g %g), velocity (%g %g %g), yaw %g pitch %g, cruise %g, path of %zu, smoothing %g/%g", name(in.nav), in.land ? " land-item" : "",
                   in.takeoff ? " takeoff-item" : "", in.stay ? " stay" : "", in.air ? "" : " on-ground", in.pos.x(), in.pos.y(), in.pos.z(), in.goal.x() - in.pos.x(), in.goal.y() - in.pos.y(),
                   in.goal.z() - in.pos.z(), in.vel.x(), in.vel.y(), in.vel.z(), in.yaw, in.pitch, in.plan.cruise_velocity, in.plan.path_node_positions.size(), in.sxy, in.sz);
  }
};
}  // namespace wg
