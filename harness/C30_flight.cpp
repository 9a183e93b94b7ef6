// VH: libs=local_planner flavour=plain
// Simulated flights with the local planner in the loop: a depth camera renders the world, the planner and the waypoint
// generator (connected as in the planner node, see C28) produce setpoints, and a vehicle follows them.
#define private public
#define protected public
#include <local_planner/local_planner.h>
#include <local_planner/waypoint_generator.h>
#undef private
#undef protected
#include <memory>
#include "vh.h"

using namespace avoidance;
using vh::fmt;
using Cfg = avoidance::LocalPlannerNodeConfig;
typedef Eigen::Vector3f V3;

namespace {
std::string str(const V3& v) { return fmt("(%.2f, %.2f, %.2f)", v.x(), v.y(), v.z()); }
struct Gen : WaypointGenerator {  // on the simulated clock
  ros::Time getSystemTime() override { return ros::Time::now(); }
};
struct Plan : LocalPlanner {};
struct Box {
  V3 lo, hi;
  float dist(const V3& p) const { return (p - p.cwiseMax(lo).cwiseMin(hi)).norm(); }
  float hit(const V3& o, const V3& d) const {  // along the ray, or infinity
    float t0 = 0, t1 = INFINITY;
    for (int k = 0; k < 3; k++) {
      if (std::fabs(d[k]) < 1e-9f) {
        if (o[k] < lo[k] || o[k] > hi[k]) return INFINITY;
        continue;
      }
      float a = (lo[k] - o[k]) / d[k], b = (hi[k] - o[k]) / d[k];
      if (a > b) std::swap(a, b);
      t0 = std::max(t0, a), t1 = std::min(t1, b);
      if (t0 > t1) return INFINITY;
    }
    return t0;
  }
};
enum Kind { FREE, PILLAR, FOREST, WALL, GATE, LOW };
const char* KIND[] = {"free", "pillar", "forest", "wall", "gate", "low"};
}  // namespace

VH_SUITE_WD(flight, 80, 2400, 120) {
  auto& r = c.rng;
  rosmock::reset();
  rosmock::bus().record = false;
  rosmock::setTime(r.uni(100, 1000));
  const Kind kind = (Kind)r.pick({(int)FREE, (int)PILLAR, (int)PILLAR, (int)FOREST, (int)FOREST, (int)WALL, (int)GATE, (int)LOW});
  const float L = r.unif(15, 30), alt = r.unif(3, 4), head = r.unif(-3.1f, 3.1f);
  const V3 dir(std::cos(head), std::sin(head), 0), side(-dir.y(), dir.x(), 0);
  V3 pos(r.unif(-5, 5), r.unif(-5, 5), alt), vel(0, 0, 0);
  const V3 start = pos;
  const bool mission = r.chance(0.3);
  const V3 goal = start + dir * L + V3(0, 0, mission ? r.unif(-1, 2) : r.unif(-1, 1));
  std::vector<Box> world;
  const bool ground = r.chance(0.7);
  auto box = [&](float x, float y, float wx, float wy, float h) {
    V3 m = start + dir * x + side * y;
    Box b;
    b.lo = V3(m.x() - wx / 2, m.y() - wy / 2, 0), b.hi = V3(m.x() + wx / 2, m.y() + wy / 2, h);
    world.push_back(b);
  };
  auto wallOf = [&](float x, float y0, float y1, float h) {
    for (float y = y0; y <= y1; y += 0.5f) box(x, y, 0.6f, 0.6f, h);
  };
  switch (kind) {
    case PILLAR: box(r.unif(6, L - 5), r.unif(-0.6, 0.6), r.unif(0.4, 2), r.unif(0.4, 2), 12); break;
    case FOREST:
      for (int i = 0; i < 60; i++) {
        float x = r.unif(5, L - 4), y = r.unif(-10, 10), w = r.unif(0.3, 1.0);
        V3 m = start + dir * x + side * y;
        bool near = false;
        for (auto& b : world) near = near || b.dist(V3(m.x(), m.y(), 2)) < 3.5f;
        if (!near) box(x, y, w, w, r.unif(8, 15));
      }
      break;
    case WALL: {
      float m = r.unif(-2, 2), w = r.unif(1.5, 4);
      wallOf(r.unif(7, L - 5), m - w, m + w, 15);
      break;
    }
    case GATE: {
      float x = r.unif(7, L - 5), m = r.unif(-2, 2), g = r.unif(2.5, 4);
      wallOf(x, m - g - 6, m - g, 15), wallOf(x, m + g, m + g + 6, 15);
      break;
    }
    case LOW: wallOf(r.unif(7, L - 5), -6, 6, alt + r.unif(-1, 0.5)); break;
    default: break;
  }
  struct Cam {
    float yaw;
    pcl::PointCloud<pcl::PointXYZ> last;
  };
  std::vector<Cam> cams(1);
  cams[0].yaw = 0;
  if (r.chance(0.3)) cams = {{0}, {60}, {-60}};
  const float hfov = 59, vfov = 46;
  const float res = 1.2f;
  float yaw = r.chance(0.8) ? head + r.unif(-0.3, 0.3) : r.unif(-3.1, 3.1), yawRate = 0;

  Plan plan;
  Gen gen;
  Cfg cfg = Cfg();
  cfg.goal_z_param = goal.z();
  plan.dynamicReconfigureSetParams(cfg, ~0u);
  gen.setSmoothingSpeed(cfg.smoothing_speed_xy_, cfg.smoothing_speed_z_);
  ModelParameters px4;
  px4.param_mpc_xy_cruise = r.pick({3.f, 2.f, 4.f});
  px4.param_mpc_acc_hor = 3, px4.param_mpc_jerk_max = 8, px4.param_mpc_acc_up_max = 4, px4.param_mpc_acc_down_max = 3;
  px4.param_mpc_z_vel_max_up = 3, px4.param_mpc_z_vel_max_dn = 1, px4.param_mpc_land_speed = 0.7, px4.param_nav_acc_rad = 2;
  px4.param_mpc_yawrauto_max = 45, px4.param_cp_dist = -1;
  for (size_t i = 0; i < cams.size(); i++) {
    FOV f(cams[i].yaw, 0, hfov, vfov);
    plan.setFOV(i, f), gen.setFOV(i, f);
  }
  plan.setGoal(goal), plan.setPreviousGoal(start);
  V3 lastWp = V3::Zero(), drift(0, 0, 0);  // of the position estimate
  float closest = 1e9, minGoal = 1e9;
  V3 where = pos;
  int reached = -1, nodes = 0, points = 0;
  vh::Hasher h;
  const int steps = (int)(10 * (L / 1.0f + 60));
  int stay = 0;
  std::vector<V3> track;
  for (int k = 0; k < steps; k++) {
    rosmock::advance(0.1);
    Eigen::Quaternionf att(Eigen::AngleAxisf(yaw, V3::UnitZ()));
    for (int a = 0; a < 3; a++) drift[a] = 0.9f * drift[a] + 0.015f * r.gauss();
    const V3 est = pos + drift;
    // ---- what the cameras see
    plan.original_cloud_vector_.resize(cams.size());
    for (size_t i = 0; i < cams.size(); i++) {
      auto& pc = plan.original_cloud_vector_[i];
      pc.clear();
      for (float a = -hfov / 2; a <= hfov / 2; a += res)
        for (float e = -vfov / 2; e <= vfov / 2; e += res) {
          float z = yaw + (cams[i].yaw + a) * M_PI / 180, el = e * M_PI / 180;
          V3 d(std::cos(z) * std::cos(el), std::sin(z) * std::cos(el), std::sin(el));
          float t = INFINITY;
          for (auto& b : world) t = std::min(t, b.hit(pos, d));
          if (ground && d.z() < -1e-3) t = std::min(t, -pos.z() / d.z());
          if (t > 0.2f && t < 18) {
            V3 p = est + d * (t + r.unif(-0.02, 0.02));
            pc.push_back(pcl::PointXYZ(p.x(), p.y(), p.z()));
          }
        }
      points += pc.size();
    }
    plan.setState(est, vel, att);
    plan.currently_armed_ = true, plan.px4_ = px4, plan.mission_item_speed_ = NAN, plan.last_sent_waypoint_ = lastWp;
    plan.runPlanner();
    auto out = plan.getAvoidanceOutput();
    nodes += out.path_node_positions.size();
    gen.setPlannerInfo(out);
    gen.updateState(est, att, goal, start, vel, false, true, mission ? NavigationState::mission : NavigationState::offboard, false, false, V3(NAN, NAN, NAN));
    waypointResult w = gen.getWaypoints();
    lastWp = w.smoothed_goto_position;
    // ---- what the vehicle does
    V3 sp = w.position_wp;
    if (!sp.allFinite()) {
      c.fail("setpoint", "setpoint " + str(sp));
      return;
    }
    float ysp = getYawFromQuaternion(w.orientation_wp) * M_PI / 180;
    for (int s = 0; s < 5; s++) {
      const float dt = 0.02;
      V3 want = 0.95f * (sp - pos - drift);
      float n = want.head<2>().norm(), cap = px4.param_mpc_xy_cruise;
      if (n > cap) want.head<2>() *= cap / n;
      want.z() = std::max(-1.f, std::min(3.f, want.z()));
      V3 acc = 3.f * (want - vel);
      if (acc.norm() > 4) acc *= 4 / acc.norm();
      vel += acc * dt, pos += vel * dt;
      float dy = std::remainder(ysp - yaw, 2 * (float)M_PI), rate = std::max(-0.785f, std::min(0.785f, 2.8f * dy));
      yaw = std::remainder(yaw + rate * dt, 2 * (float)M_PI);
      for (auto& b : world) {
        float d = b.dist(pos);
        if (d < closest) closest = d, where = pos;
      }
    }
    if (c.verbose && k % 5 == 0) fprintf(stderr, "%4d pos %s v %s yaw %.0f sp %s path %zu state %d\n", k, str(pos).c_str(), str(vel).c_str(), yaw * 57.3, str(sp).c_str(), out.path_node_positions.size(), (int)w.waypoint_type);
    minGoal = std::min(minGoal, (goal - pos).norm());
    if ((goal - pos).norm() < 1.0) stay++;
    if (stay > 20) {
      reached = k;
      break;
    }
    c.evals(1);
  }
  std::string k = KIND[kind];
  c.count((k + " flights").c_str());
  if (reached >= 0) c.count((k + " reached").c_str());
  if (closest < 0.6) c.fail(k + ": too close", fmt("%.2f m from an obstacle at ", closest) + str(where) + fmt(", on a flight of %.1f m with %zu camera(s)", L, cams.size()));
  if (kind != FREE) c.count(closest < 1.5 ? "closest 0.6-1.5 m" : closest < 3 ? "closest 1.5-3 m" : "closest over 3 m");
  if (reached < 0 && (kind == FREE || kind == PILLAR || kind == WALL))
    c.fail(k + ": goal not reached", fmt("in %.0f s of a flight of %.1f m with %zu camera(s) the vehicle came within %.1f m of the goal", steps * 0.1, L, cams.size(), minGoal));
  if (c.verbose) fprintf(stderr, "%s L %.1f cams %zu closest %.2f at %s goal %.2f reached %d\n", k.c_str(), L, cams.size(), closest, str(where).c_str(), minGoal, reached);
  h << reached << (int)(closest * 10);
  c.distinct(h);
}
