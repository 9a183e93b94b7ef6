// VH: libs=local_planner flavour=asanfc
// The local planner node end to end: clouds, poses, goals, modes and parameters in; obstacle scan, setpoints and health out.
#define private public
#define protected public
#include <local_planner/local_planner_nodelet.h>
#undef private
#undef protected
#include <local_planner/planner_functions.h>
#include <local_planner/tree_node.h>
#include <chrono>
#include <memory>
#include <thread>
#include "vh.h"

using namespace avoidance;
using vh::fmt;
using Cfg = avoidance::LocalPlannerNodeConfig;
typedef Eigen::Vector3f V3;

namespace {
std::string str(const V3& v) { return fmt("(%.4f, %.4f, %.4f)", v.x(), v.y(), v.z()); }
bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool same(const V3& a, const V3& b) { return same(a.x(), b.x()) && same(a.y(), b.y()) && same(a.z(), b.z()); }
Cfg config(vh::Rng& r) {
  Cfg g = Cfg();
  g.max_sensor_range_ = r.pick({15.0, r.uni(3, 20)});
  g.min_sensor_range_ = r.pick({0.2, r.uni(0, 1)});
  g.pitch_cost_param_ = r.pick({25.0, r.uni(0, 30)});
  g.yaw_cost_param_ = r.pick({3.0, r.uni(0, 20)});
  g.velocity_cost_param_ = r.pick({6000.0, r.uni(0, 50000)});
  g.obstacle_cost_param_ = r.pick({8.5, r.uni(0, 30)});
  g.tree_heuristic_weight_ = r.pick({35.0, r.uni(0, 50)});
  g.goal_z_param = r.pick({3.5, 3.5, 3.5, r.uni(0, 10)});
  g.timeout_startup_ = r.pick({5.0, 5.0, r.uni(0, 10)});
  g.timeout_critical_ = r.pick({0.5, 0.5, r.uni(0.2, 3)});
  g.timeout_termination_ = r.pick({15.0, 15.0, r.uni(3, 30)});
  g.max_point_age_s_ = r.pick({20.0, r.uni(0, 30)});
  g.min_num_points_per_cell_ = r.pick({1, 1, 3});
  g.smoothing_speed_xy_ = r.pick({10.0, 0.0, r.uni(0, 30)});
  g.smoothing_speed_z_ = r.pick({3.0, 0.0, r.uni(0, 30)});
  g.smoothing_margin_degrees_ = r.pick({40.0, r.uni(0, 60)});
  g.children_per_node_ = r.range(1, 8);
  g.n_expanded_nodes_ = r.range(1, 8);
  g.tree_node_distance_ = r.pick({2.0, r.uni(0.5, 4)});
  return g;
}
struct Camera {
  std::string topic, frame;
  Eigen::Quaterniond toFcu;
  Eigen::Vector3d offset;
  bool registered = false;
  bool pending = false;      // received, transform not known yet
  bool transformed = false;  // waiting for the planner
  double stamp = 0;          // of the cloud that counts
  std::vector<Eigen::Vector3d> pts;  // finite points, camera frame
  FOV fov;
};
// motion of the vehicle as the transform tree sees it
struct Motion {
  Eigen::Vector3d p, v;
  double yaw, pitch;
  Eigen::Vector3d pos(double t) const { return p + v * t; }
  Eigen::Quaterniond att() const { return Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * Eigen::Quaterniond::Identity(); }
};
struct World {  // shared with the nodelet's transform thread
  std::mutex m;
  double t0 = 0;
  Motion mo;
  std::vector<Camera>* cams = nullptr;
  double stamp = 0;        // newest transform
  std::map<std::pair<std::string, std::string>, int> seen;  // lookups answered with that stamp
  bool up = true;
};
template <class F>
bool until(F&& f, double s = 30) {
  auto e = std::chrono::steady_clock::now() + std::chrono::duration<double>(s);
  while (!f()) {
    if (std::chrono::steady_clock::now() > e) return false;
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  return true;
}
std::string tname(MAV_STATE s) { return std::to_string((int)s); }
}  // namespace

VH_SUITE_WD(history, 250, 4000, 60) {
  auto& r = c.rng;
  rosmock::reset();
  rosmock::setTime(r.uni(100, 1000));
  rosmock::bus().services["mavros/param/get"] = [](void*) { return false; };
  const int ncam = r.pick({1, 1, 2, 3});
  std::vector<Camera> cams(ncam);
  std::vector<std::string> topics;
  for (int i = 0; i < ncam; i++) {
    cams[i].topic = fmt("/cam%d/points", i), cams[i].frame = fmt("cam%d", i);
    cams[i].toFcu = Eigen::AngleAxisd(r.uni(-3.1, 3.1), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(r.uni(-0.3, 0.3), Eigen::Vector3d::UnitY()) * Eigen::Quaterniond::Identity();
    cams[i].offset = Eigen::Vector3d(r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), r.uni(-0.1, 0.1));
    topics.push_back(cams[i].topic);
  }
  auto& B = rosmock::bus();
  B.lparams["/local_planner_nodelet/pointcloud_topics"] = topics;
  V3 goal(r.unif(-30, 30), r.unif(-30, 30), r.unif(1, 9)), prevGoal(0, 0, 0);
  if (r.chance(0.1)) goal = V3(0, 0, 3.5);
  bool zGiven = r.chance(0.9);
  B.dparams["goal_x_param"] = goal.x(), B.dparams["goal_y_param"] = goal.y();
  if (zGiven) B.dparams["goal_z_param"] = goal.z(); else goal.z() = 0;
  bool accept = r.chance(0.6);
  if (accept || r.chance(0.5)) B.bparams["accept_goal_input_topic"] = accept;

  World w;
  w.cams = &cams;
  w.t0 = rosmock::clockNs() * 1e-9;
  w.stamp = w.t0 - 0.01;
  w.mo.p = Eigen::Vector3d(r.uni(-5, 5), r.uni(-5, 5), r.uni(0, 8)), w.mo.v = Eigen::Vector3d(r.uni(-2, 2), r.uni(-2, 2), r.uni(-0.3, 0.3));
  w.mo.yaw = r.uni(-3.1, 3.1), w.mo.pitch = r.uni(-0.3, 0.3);
  auto toTf = [](const Eigen::Quaterniond& q, const Eigen::Vector3d& t, tf::StampedTransform& o) {
    o.setRotation(tf::Quaternion(q.x(), q.y(), q.z(), q.w()));
    o.setOrigin(tf::Vector3(t.x(), t.y(), t.z()));
  };
  rosmock::setTf([&w, toTf](const std::string& to, const std::string& from, const ros::Time&, tf::StampedTransform& out) {
    std::lock_guard<std::mutex> l(w.m);
    if (!w.up) return false;
    for (auto& k : *w.cams) {
      if (k.frame != from) continue;
      out.stamp_ = ros::Time(w.stamp);
      if (to == "fcu")
        toTf(k.toFcu, k.offset, out);
      else if (to == "local_origin")
        toTf(w.mo.att() * k.toFcu, w.mo.pos(w.stamp - w.t0) + w.mo.att() * k.offset, out);
      else
        return false;
      w.seen[{from, to}]++;
      return true;
    }
    return false;
  });
  auto node = std::unique_ptr<LocalPlannerNodelet>(new LocalPlannerNodelet());
  node->onInit();
  const double start = rosmock::clockNs() * 1e-9;
  // the model: what the node was told
  LocalPlanner plan;
  WaypointGenerator gen;
  plan.applyGoal();
  Cfg cfg = Cfg();
  if (zGiven) cfg.goal_z_param = goal.z();
  {
    Cfg k = cfg;
    plan.dynamicReconfigureSetParams(k, ~0u);
    gen.setSmoothingSpeed(cfg.smoothing_speed_xy_, cfg.smoothing_speed_z_);
  }
  V3 pos(0, 0, 0), vel(0, 0, 0), desired(NAN, NAN, NAN), lastWp(0, 0, 0);
  Eigen::Quaternionf att(1, 0, 0, 0);
  V3 item(0, 0, 0);
  bool armed = false, land = false, takeoff = false, posed = false, dead = false;
  NavigationState nav = NavigationState::none;
  ModelParameters px4 = node->avoidance_node_->getPX4Parameters();
  float speed = NAN;
  double lastPlan = 0;
  MAV_STATE status = MAV_STATE::MAV_STATE_BOOT;
  vh::Hasher h;
  auto bad = [&](const char* k, const std::string& d) {
    if (!dead) c.fail(k, d);
    dead = true;
  };
  auto now = [] { return rosmock::clockNs() * 1e-9; };
  auto tfTo = [&](double t) {  // the transform tree moves on, and the node has picked that up
    {
      std::lock_guard<std::mutex> l(w.m);
      w.stamp = t;
      w.seen.clear();
    }
    std::vector<std::string> f;
    for (auto& k : cams)
      if (k.registered) f.push_back(k.frame);
    if (!until([&] {
          std::lock_guard<std::mutex> l(w.m);
          for (auto& k : f)
            if (w.seen[{k, "fcu"}] < 4 || w.seen[{k, "local_origin"}] < 4) return false;
          return true;
        }))
      bad("transforms", "the node stopped asking for transforms");
  };
  auto sendPose = [&] {
    geometry_msgs::PoseStamped m;
    Eigen::Vector3d p = w.mo.pos(now() - w.t0);
    Eigen::Quaterniond q = w.mo.att();
    m.header.stamp = ros::Time::now();
    m.pose.position.x = p.x(), m.pose.position.y = p.y(), m.pose.position.z = p.z();
    m.pose.orientation.x = q.x(), m.pose.orientation.y = q.y(), m.pose.orientation.z = q.z(), m.pose.orientation.w = q.w();
    rosmock::deliver("mavros/local_position/pose", m);
    pos = p.cast<float>(), att = Eigen::Quaternionf(q.w(), q.x(), q.y(), q.z());
    posed = true;
  };
  long iters = rosmock::publishedCount("pointcloud_size");
  auto iterations = [&] { return rosmock::publishedCount("pointcloud_size"); };

  auto seen = [&](Camera& k) {  // the field of view, as seen from the vehicle, grows with every cloud
    pcl::PointCloud<pcl::PointXYZ> pc;
    for (auto& p : k.pts) pc.push_back(pcl::PointXYZ(p.x(), p.y(), p.z()));
    pcl::PointCloud<pcl::PointXYZ> mx = removeNaNAndGetMaxima(pc);
    for (auto& p : mx) {
      Eigen::Vector3d e = k.toFcu * Eigen::Vector3d(p.x, p.y, p.z) + k.offset;
      p.x = e.x(), p.y = e.y(), p.z = e.z();
    }
    updateFOVFromMaxima(k.fov, mx);
  };
  // one planner iteration happened (or must happen): compare everything it was given and everything it decided
  auto iterated = [&] {
    if (!until([&] { return iterations() > iters; })) return bad("planner-stalled", fmt("all %d clouds and their transforms are there, and the planner does not run", ncam));
    { std::lock_guard<std::mutex> l(node->running_mutex_); }
    iters++;
    if (iterations() != iters) return bad("planner-iterations", "the planner ran twice on one set of clouds");
    const LocalPlanner& lp = *node->local_planner_;
    for (int i = 0; i < ncam; i++) {
      auto& k = cams[i];
      const auto& got = lp.original_cloud_vector_;
      if ((int)got.size() != ncam) return bad("clouds", fmt("%zu clouds for %d cameras", got.size(), ncam));
      if (got[i].size() != k.pts.size()) return bad("cloud-points", fmt("camera %d: %zu points reach the planner, the cloud has %zu (stamps %.6f, %.6f)", i, got[i].size(), k.pts.size(), got[i].header.stamp * 1e-6, k.stamp));
      Eigen::Quaterniond q = w.mo.att() * k.toFcu;
      Eigen::Vector3d t = w.mo.pos(k.stamp - w.t0) + w.mo.att() * k.offset;
      for (size_t j = 0; j < k.pts.size(); j++) {
        Eigen::Vector3d e = q * k.pts[j] + t, g(got[i][j].x, got[i][j].y, got[i][j].z);
        if (!((e - g).norm() < 2e-3 + 1e-5 * e.norm())) return bad("cloud-points", fmt("camera %d point %zu: (%.4f, %.4f, %.4f) instead of (%.4f, %.4f, %.4f)", i, j, g.x(), g.y(), g.z(), e.x(), e.y(), e.z()));
      }
      const FOV f = lp.getFOV().size() > (size_t)i ? lp.getFOV()[i] : FOV();
      if (lp.getFOV().size() != (size_t)ncam || std::fabs(vh::angDiff(f.yaw_deg, k.fov.yaw_deg)) > 0.1 || std::fabs(f.pitch_deg - k.fov.pitch_deg) > 0.1 || std::fabs(f.h_fov_deg - k.fov.h_fov_deg) > 0.1 || std::fabs(f.v_fov_deg - k.fov.v_fov_deg) > 0.1) {
        // the widest view is chosen among nearly equal candidates by rounding; then the view stays that way
        return bad("fov", fmt("camera %d: yaw %g pitch %g h %g v %g, expected %g %g %g %g", i, f.yaw_deg, f.pitch_deg, f.h_fov_deg, f.v_fov_deg, k.fov.yaw_deg, k.fov.pitch_deg, k.fov.h_fov_deg, k.fov.v_fov_deg));
      }
      k.fov = f;
      plan.setFOV(i, f), gen.setFOV(i, f);
      k.transformed = false;
    }
    if (!same(lp.getPosition(), pos)) return bad("planner-position", str(lp.getPosition()) + " instead of " + str(pos));
    if (!same(lp.getGoal(), goal)) return bad("planner-goal", str(lp.getGoal()) + " instead of " + str(goal));
    if (lp.currently_armed_ != armed) return bad("planner-armed", "the planner does not know the armed state");
    if (!same(lp.mission_item_speed_, speed)) return bad("planner-speed", fmt("mission speed %g instead of %g", lp.mission_item_speed_, speed));
    if (!same(lp.px4_.param_mpc_xy_cruise, px4.param_mpc_xy_cruise) || !same(lp.px4_.param_mpc_acc_hor, px4.param_mpc_acc_hor) || !same(lp.px4_.param_mpc_jerk_max, px4.param_mpc_jerk_max) || !same(lp.px4_.param_cp_dist, px4.param_cp_dist))
      return bad("planner-px4", "the flight controller's parameters do not reach the planner");
    if (!same(lp.last_sent_waypoint_, lastWp)) return bad("planner-last-waypoint", str(lp.last_sent_waypoint_) + " instead of " + str(lastWp));
    plan.original_cloud_vector_ = lp.original_cloud_vector_;
    plan.setState(pos, vel, att);
    plan.currently_armed_ = armed, plan.px4_ = px4, plan.mission_item_speed_ = speed, plan.last_sent_waypoint_ = lastWp;
    plan.setGoal(goal), plan.setPreviousGoal(prevGoal);
    plan.runPlanner();
    avoidanceOutput a = lp.getAvoidanceOutput(), b = plan.getAvoidanceOutput();
    bool eq = a.path_node_positions.size() == b.path_node_positions.size() && same(a.cruise_velocity, b.cruise_velocity) && a.last_path_time == b.last_path_time;
    for (size_t i = 0; eq && i < a.path_node_positions.size(); i++) eq = same(a.path_node_positions[i], b.path_node_positions[i]);
    if (!eq) return bad("plan", fmt("path of %zu nodes at cruise %g planned at %.3f; from what the node was told follow %zu nodes, %g, %.3f", a.path_node_positions.size(), a.cruise_velocity, a.last_path_time.toSec(), b.path_node_positions.size(), b.cruise_velocity, b.last_path_time.toSec()));
    const sensor_msgs::LaserScan& s = plan.distance_data_;
    auto sent = rosmock::taken<sensor_msgs::LaserScan>("mavros/obstacle/send");
    bool want = !(px4.param_cp_dist < 0) && s.angle_increment > 0;
    if (sent.size() != (want ? 1u : 0u)) return bad("scan", fmt("%zu obstacle scans sent in an iteration with CP_DIST %g", sent.size(), px4.param_cp_dist));
    if (want) {
      bool q = sent[0].ranges.size() == s.ranges.size() && sent[0].angle_increment == s.angle_increment && sent[0].range_min == s.range_min && sent[0].range_max == s.range_max && sent[0].header.stamp == s.header.stamp;
      for (size_t i = 0; q && i < s.ranges.size(); i++) q = same(sent[0].ranges[i], s.ranges[i]);
      if (!q) return bad("scan", "the scan sent is not the one planned with");
      c.count("scans");
    }
    auto gm = rosmock::taken<visualization_msgs::MarkerArray>("goal_position");
    if (gm.size() != 1) bad("goal-shown", fmt("%zu goal markers", gm.size()));
    rosmock::clearLog();
    gen.setPlannerInfo(b);
    lastPlan = now();
    c.count("planner iterations");
    c.count("path nodes", b.path_node_positions.size());
    h << (int)b.path_node_positions.size() << (int)want;
  };
  auto quiet = [&](const char* why) {
    std::this_thread::sleep_for(std::chrono::milliseconds(8));
    if (iterations() != iters) bad("planner-early", fmt("the planner ran %s", why));
  };
  auto settle = [&] {  // every received cloud whose transform is known is transformed
    bool ok = until([&] {
      for (int i = 0; i < ncam; i++) {
        std::lock_guard<std::mutex> l(*node->cameras_[i].camera_mutex_);
        if (node->cameras_[i].received_) return false;
      }
      return true;
    });
    if (!ok) bad("transform-stalled", "a cloud whose transforms are known is not transformed");
  };
  auto cloud = [&](int i, double stamp) {
    auto& k = cams[i];
    sensor_msgs::PointCloud2 m;
    pcl::PointCloud<pcl::PointXYZ> pc;
    std::vector<Eigen::Vector3d> pts;
    for (int n = r.pick({0, 1, 10, 60}); n > 0; n--) {
      float yaw = r.unif(-0.5, 0.5), pitch = r.unif(-0.4, 0.4), d = r.pick({r.unif(0.1, 20), r.unif(2, 6)});
      V3 p(d * std::cos(yaw) * std::cos(pitch), d * std::sin(yaw) * std::cos(pitch), d * std::sin(pitch));
      if (r.chance(0.05)) {
        pc.push_back(pcl::PointXYZ(NAN, p.y(), p.z()));
        continue;
      }
      pc.push_back(pcl::PointXYZ(p.x(), p.y(), p.z()));
      pts.push_back(p.cast<double>());
    }
    pc.is_dense = false;
    pcl::toROSMsg(pc, m);
    m.header.frame_id = k.frame;
    m.header.stamp = ros::Time(stamp);
    // a cloud is passed over while a recent one still waits for its transform
    bool pass = k.pending && (ros::Time(stamp) - ros::Time(k.stamp)) < ros::Duration(0.3);
    rosmock::deliver(k.topic, m);
    if (!pass) k.pts = pts, k.stamp = stamp, k.pending = true, k.transformed = false;
    k.registered = true;
    c.count(pass ? "clouds passed over" : "clouds");
  };
  auto command = [&] {
    double pr = r.unit();
    int waits = 0;
    bool lost = false;
    if (pr < 0.85 && !posed) sendPose();
    if (!posed) {  // the node waits; the position comes later, or very late
      int n = r.pick({1, 2, 5, r.range(1, 40)});
      double t0 = now();
      rosmock::bus().onGlobalCallAvailable = [&, n, t0](double) {
        waits++;
        if (waits > 1 && now() - t0 > cfg.timeout_termination_ + 0.05) {
          lost = true;
          if (node->getSystemStatus() != MAV_STATE::MAV_STATE_FLIGHT_TERMINATION) bad("status-no-position", fmt("status %d after %.2f s without a position", (int)node->getSystemStatus(), now() - t0));
        }
        rosmock::advance(0.4);
        if (waits >= n) sendPose();
      };
    }
    rosmock::fire(0.1);
    rosmock::bus().onGlobalCallAvailable = nullptr;
    posed = false;
    if (dead) return;
    if (waits) c.count("waits for a position");
    double sl = now() - lastPlan, ss = now() - start;
    auto near = [](double a, double b) { return std::fabs(a - b) < 1e-6; };
    if (near(sl, cfg.timeout_termination_) || near(ss, cfg.timeout_termination_) || near(sl, cfg.timeout_critical_) || near(ss, cfg.timeout_startup_)) {
      dead = true;  // to the microsecond
      return;
    }
    MAV_STATE want = sl > cfg.timeout_termination_ && ss > cfg.timeout_termination_ ? MAV_STATE::MAV_STATE_FLIGHT_TERMINATION : sl > cfg.timeout_critical_ && ss > cfg.timeout_startup_ ? MAV_STATE::MAV_STATE_CRITICAL : MAV_STATE::MAV_STATE_ACTIVE;
    if (node->getSystemStatus() != want) return bad("status", fmt("status %d, %.3f s after the last plan and %.3f s after the start, with timeouts %g/%g/%g: expected %d", (int)node->getSystemStatus(), sl, ss, cfg.timeout_startup_, cfg.timeout_critical_, cfg.timeout_termination_, (int)want));
    if (want != status) c.count("status changes");
    status = want;
    rosmock::fire(0.2);
    auto st = rosmock::taken<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status");
    if (st.empty() || st.back().state != (int)want || st.back().component != 196) return bad("status-sent", "the health sent is not the health decided");
    auto ps = rosmock::taken<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
    auto tr = rosmock::taken<mavros_msgs::Trajectory>("mavros/trajectory/generated");
    rosmock::clearLog();
    if (want != MAV_STATE::MAV_STATE_ACTIVE) {
      if (!ps.empty() || !tr.empty()) return bad("setpoint-when-unhealthy", "a setpoint is sent although the planner reports that it cannot plan");
      return;
    }
    gen.updateState(pos, att, goal, prevGoal, vel, false, armed && nav != NavigationState::none, nav, land, takeoff, desired);
    waypointResult w2 = gen.getWaypoints();
    lastWp = w2.smoothed_goto_position;
    if (ps.size() != 1 || tr.size() != 1) return bad("setpoint-count", fmt("%zu positions and %zu trajectories sent in one command loop", ps.size(), tr.size()));
    V3 sp = toEigen(ps[0].pose.position);
    if (c.verbose && !same(sp, w2.position_wp)) {
      auto show = [](WaypointGenerator& g) { printf("  pos %s vel %s goal %s prev %s speed %g cruise %g state %d loiter %d air %d nav %d land %d path %zu smooth %s v %s yaw %g fov0 %g %g sp %g %g dv %s\n", str(g.position_).c_str(), str(g.velocity_).c_str(), str(g.goal_).c_str(), str(g.prev_goal_).c_str(), g.speed_, g.planner_info_.cruise_velocity, (int)g.getState(), g.loiter_, g.is_airborne_, (int)g.nav_state_, g.is_land_waypoint_, g.planner_info_.path_node_positions.size(), str(g.smoothed_goto_location_).c_str(), str(g.smoothed_goto_location_velocity_).c_str(), g.curr_yaw_rad_, g.fov_fcu_frame_.empty() ? 0 : g.fov_fcu_frame_[0].yaw_deg, g.fov_fcu_frame_.empty() ? 0 : g.fov_fcu_frame_[0].h_fov_deg, g.smoothing_speed_xy_, g.smoothing_speed_z_, str(g.desired_vel_).c_str()); };
      show(*node->wp_generator_), show(gen);
    }
    if (!same(sp, w2.position_wp)) return bad("setpoint", "setpoint " + str(sp) + " instead of " + str(w2.position_wp));
    if (!same(toEigen(tr[0].point_1.position), w2.position_wp) || !same(toEigen(tr[0].point_1.velocity), w2.linear_velocity_wp) || tr[0].point_valid[0] != true)
      return bad("trajectory", "trajectory to " + str(toEigen(tr[0].point_1.position)) + " at " + str(toEigen(tr[0].point_1.velocity)) + " instead of " + str(w2.position_wp) + " at " + str(w2.linear_velocity_wp));
    if (std::isfinite(tr[0].point_1.yaw) && std::fabs(vh::angDiff(tr[0].point_1.yaw * 180 / M_PI, getYawFromQuaternion(w2.orientation_wp))) > 0.1) return bad("trajectory-yaw", fmt("yaw %g", tr[0].point_1.yaw));
    if (!same(tr[0].point_1.yaw_rate, w2.angular_velocity_wp.z())) return bad("trajectory-yaw", fmt("yaw rate %g instead of %g", tr[0].point_1.yaw_rate, w2.angular_velocity_wp.z()));
    c.count("setpoints");
    h << (int)w2.waypoint_type;
  };
  auto tell = [&] {  // something new from outside
    int e = r.range(0, 10);
    V3 p(r.unif(-30, 30), r.unif(-30, 30), r.unif(1, 9));
    auto gp = [](const V3& v) { geometry_msgs::Point q; q.x = v.x(), q.y = v.y(), q.z = v.z(); return q; };
    if (e == 0) {
      geometry_msgs::PoseStamped m;
      m.pose.position = gp(p);
      rosmock::deliver("move_base_simple/goal", m);
      prevGoal = goal;
      goal.x() = p.x(), goal.y() = p.y();
      c.count("clicked goals");
    } else if (e == 1) {
      visualization_msgs::MarkerArray m;
      int n = r.range(0, 2);
      for (int i = 0; i < n; i++) {
        visualization_msgs::Marker k;
        k.pose.position = gp(i ? V3(9, 9, 9) : p);
        m.markers.push_back(k);
      }
      rosmock::deliver("input/goal_position", m);
      if (n && accept) prevGoal = goal, goal = p;
      c.count("goals by topic");
    } else if (e == 2 || e == 3) {
      mavros_msgs::Trajectory m;
      V3 q = r.chance(0.4) ? item : V3(r.unif(-30, 30), r.unif(-30, 30), r.unif(1, 9));
      if (r.chance(0.1)) q = item + V3(0.005f, 0, 0);
      V3 v(r.unif(-2, 2), r.unif(-2, 2), r.unif(-1, 1));
      if (r.chance(0.5)) v = V3(NAN, NAN, NAN);
      bool known = std::isfinite(goal.x()) && std::isfinite(goal.y());
      if (r.chance(0.25)) p = V3(NAN, NAN, p.z());
      m.point_valid[0] = r.chance(0.8), m.point_valid[1] = r.chance(0.8);
      m.point_1.position = gp(p), m.point_2.position = gp(q);
      m.point_1.velocity.x = v.x(), m.point_1.velocity.y = v.y(), m.point_1.velocity.z = v.z();
      m.command[0] = r.pick({16, 21, 22, 65535}), m.command[1] = r.pick({16, 65535, 65535});
      V3 q2 = toEigen(m.point_2.position);
      bool update = (q2 - item).norm() > 0.01 || !known;
      if (std::fabs((q2 - item).norm() - 0.01) < 1e-4 && known) return;
      rosmock::deliver("mavros/trajectory/desired", m);
      if (m.point_valid[0] && update) {
        prevGoal = goal, goal = p, desired = v;
        land = m.command[0] == 21, takeoff = m.command[0] == 22;
      }
      if (m.point_valid[1]) {
        item = q2;
        if (m.command[1] == 65535) goal = q2, desired = V3(NAN, NAN, NAN);
      }
      c.count("flight controller goals");
    } else if (e == 4) {
      mavros_msgs::State m;
      m.armed = armed = r.chance(0.8);
      m.mode = r.pick({std::string("AUTO.MISSION"), std::string("AUTO.TAKEOFF"), std::string("AUTO.LAND"), std::string("AUTO.RTL"), std::string("AUTO.RTGS"), std::string("AUTO.LOITER"), std::string("OFFBOARD"), std::string("MANUAL"), std::string("")});
      nav = m.mode == "AUTO.MISSION" ? NavigationState::mission : m.mode == "AUTO.TAKEOFF" ? NavigationState::auto_takeoff : m.mode == "AUTO.LAND" ? NavigationState::auto_land : m.mode == "AUTO.RTL" ? NavigationState::auto_rtl : m.mode == "AUTO.RTGS" ? NavigationState::auto_rtgs : m.mode == "AUTO.LOITER" ? NavigationState::auto_loiter : m.mode == "OFFBOARD" ? NavigationState::offboard : NavigationState::none;
      rosmock::deliver("mavros/state", m);
    } else if (e == 5) {
      geometry_msgs::TwistStamped m;
      vel = V3(r.unif(-3, 3), r.unif(-3, 3), r.unif(-1, 1));
      m.twist.linear.x = vel.x(), m.twist.linear.y = vel.y(), m.twist.linear.z = vel.z();
      rosmock::deliver("mavros/local_position/velocity_local", m);
    } else if (e == 6) {
      mavros_msgs::Param m;
      int k = r.range(0, 3);
      static const char* names[] = {"CP_DIST", "MPC_XY_CRUISE", "MPC_ACC_HOR", "MPC_JERK_MAX"};
      m.param_id = names[k];
      float v = k == 0 ? r.pick({-1.f, 0.f, 4.f, 4.f, 2.f, NAN}) : r.unif(0.5, 8);
      m.value.real = v;
      (k == 0 ? px4.param_cp_dist : k == 1 ? px4.param_mpc_xy_cruise : k == 2 ? px4.param_mpc_acc_hor : px4.param_mpc_jerk_max) = v;
      rosmock::deliver("mavros/param/param_value", m);
    } else if (e == 7) {
      mavros_msgs::WaypointList m;
      m.waypoints.resize(2);
      m.waypoints[0].command = 178, m.waypoints[0].param1 = 1, m.waypoints[0].param2 = speed = r.unif(0.5, 10);
      m.waypoints[1].is_current = true;
      rosmock::deliver("mavros/mission/waypoints", m);
    } else if (e == 8) {
      Cfg o = cfg;
      cfg = config(r);
      if (r.chance(0.6)) cfg.goal_z_param = o.goal_z_param;
      rosmock::reconfigure<Cfg>(cfg, 0);
      Cfg k = cfg;
      plan.dynamicReconfigureSetParams(k, 0);
      gen.setSmoothingSpeed(cfg.smoothing_speed_xy_, cfg.smoothing_speed_z_);
      if (o.goal_z_param != cfg.goal_z_param) goal.z() = cfg.goal_z_param;  // asked for
      c.count("reconfigurations");
    } else if (e == 9) {
      geometry_msgs::PointStamped m;
      m.point.x = r.pick({0.0, r.uni(-50, 50), (double)NAN, 1e30, (double)pos.x()});
      m.point.y = r.pick({0.0, r.uni(-50, 50), (double)NAN, (double)pos.y()}), m.point.z = r.pick({0.0, 5.0, (double)NAN, 1e30, (double)pos.z()});
      rosmock::deliver("clicked_point", m);
    } else {
      mavros_msgs::Altitude m;
      m.bottom_clearance = r.pick({NAN, 1.f});
      rosmock::deliver("mavros/altitude", m);
    }
  };
  for (int k = 0; k < 4 && r.chance(0.7); k++) {  // parameters usually arrive early
    mavros_msgs::Param m;
    static const char* names[] = {"CP_DIST", "MPC_XY_CRUISE", "MPC_ACC_HOR", "MPC_JERK_MAX"};
    m.param_id = names[k];
    float v = m.value.real = r.unif(1, 8);
    (k == 0 ? px4.param_cp_dist : k == 1 ? px4.param_mpc_xy_cruise : k == 2 ? px4.param_mpc_acc_hor : px4.param_mpc_jerk_max) = v;
    rosmock::deliver("mavros/param/param_value", m);
  }
  // ---- the history
  const int N = r.range(4, c.thorough ? 40 : 25);
  for (int it = 0; it < N && !dead; it++) {
    rosmock::advance(r.pick({0.1, 0.1, 0.05, r.uni(0.01, 0.3), r.uni(0.3, 1.0), r.chance(0.1) ? r.uni(1, 20) : 0.1}) + r.uni(0, 1e-3));
    for (int k = r.pick({0, 0, 1, 2}); k > 0 && !dead; k--) tell();
    if (r.chance(0.85)) sendPose();
    if (r.chance(0.8)) {
      double t = now() - r.uni(0.001, 0.009);  // clouds are a little older than the newest transform
      bool fresh = false;
      for (auto& k : cams) fresh = fresh || !k.registered;
      bool late = r.chance(0.25);
      std::vector<int> who;
      for (int i = 0; i < ncam; i++)
        if (r.chance(0.9)) who.push_back(i);
      // while a camera's newer cloud is on its way its older one counts: not judged which one an iteration starting then uses
      bool newer = false;
      for (int i : who) newer = newer || cams[i].transformed;
      for (int i : who)
        if (!newer || cams[i].transformed) cloud(i, t + r.uni(0, 1e-4));
      if (fresh || t - w.stamp > 4) {
        tfTo(t - 0.01);  // the first transforms of a camera, or after a gap: before the cloud
        if (dead) break;
      }
      if (late) {
        quiet("before the transforms of its clouds were known");
        if (dead) break;
        if (r.chance(0.3)) {
          for (int i = 0; i < ncam; i++)
            if (r.chance(0.5) && cams[i].registered && cams[i].pending) cloud(i, t + r.uni(2e-4, 3e-4));
          c.count("second clouds");
        }
      }
      // the transform tree reaches the present
      tfTo(now());
      settle();
      if (dead) break;
      bool all = true;
      for (auto& k : cams) {
        if (k.pending) k.pending = false, k.transformed = true, seen(k);
        all = all && k.transformed;
      }
      if (all)
        iterated();
      else
        quiet("although a camera has not delivered");
      if (dead) break;
    }
    if (r.chance(0.8)) command();
  }
  c.count("histories");
  c.evals(N);
  auto t0 = std::chrono::steady_clock::now();
  node.reset();
  double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (took > 3) c.fail("shutdown", fmt("unloading the node took %.1f s", took));
  rosmock::setTf(nullptr);
  c.distinct(h);
}
