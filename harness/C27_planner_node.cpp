// VH: libs=global_planner flavour=asan
// The global planner node end to end: maps, poses and goals in; paths, setpoints, goals and health out.
#include <global_planner/global_planner_node.h>
#include <memory>
#include "gp_world.h"
using namespace gpw;
using vh::fmt;
using avoidance::MAV_STATE;
using Cfg = global_planner::GlobalPlannerNodeConfig;
typedef geometry_msgs::Point P;

namespace {
P pt(double x, double y, double z) {
  P p;
  p.x = x, p.y = y, p.z = z;
  return p;
}
double dist(const P& a, const P& b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
std::string str(const P& p) { return fmt("(%.4f, %.4f, %.4f)", p.x, p.y, p.z); }
geometry_msgs::PoseStamped poseMsg(const P& p, double yaw) {
  geometry_msgs::PoseStamped m;
  m.pose.position = p;
  m.pose.orientation = tf::createQuaternionMsgFromYaw(yaw);
  return m;
}
bool same(const geometry_msgs::Quaternion& a, const geometry_msgs::Quaternion& b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
Cfg config(vh::Rng& r, bool cells) {
  Cfg g = Cfg();
  g.max_altitude_ = r.range(5, 20);
  g.smooth_factor_ = r.pick({20.0, r.uni(0, 100)});
  g.neighbor_risk_flow_ = r.pick({1.0, r.uni(0, 1)});
  g.explore_penalty_ = r.pick({0.005, r.uni(0, 0.01)});
  g.search_time_ = r.pick({0.5, 0.0, r.uni(0, 1)});
  g.min_overestimate_factor_ = r.pick({1.03, 1.0, r.uni(1, 1.5)});
  g.max_overestimate_factor_ = r.pick({2.0, r.uni(1, 5)});
  g.risk_threshold_risk_based_speedup_ = r.pick({0.5, r.uni(0, 1)});
  g.default_speed_ = r.pick({1.0, r.uni(0.1, 10)});
  g.max_speed_ = r.pick({3.0, r.uni(1, 10)});
  g.max_iterations_ = r.pick({300, 300, 50, 0});
  g.goal_must_be_free_ = r.chance(0.7);
  g.use_current_yaw_ = r.chance(0.7);
  g.use_risk_heuristics_ = r.chance(0.7);
  g.use_speedup_heuristics_ = r.chance(0.7);
  g.use_risk_based_speedup_ = r.chance(0.6);
  g.clicked_goal_alt_ = r.pick({3.5, r.uni(0, 10)});
  g.clicked_goal_radius_ = r.pick({1.0, r.uni(0, 10)});
  g.simplify_iterations_ = r.pick({1, 0, r.range(0, 10)});
  g.simplify_margin_ = r.pick({1.01, r.uni(0, 2)});
  g.default_node_type_ = r.pick({std::string("SpeedNode"), std::string("Node"), std::string("NodeWithoutSmooth")});
  g.SPEEDNODE_RADIUS = r.pick({5.0, r.uni(0, 6)});
  if (cells) g.CELL_SCALE = r.pick({1.0, 0.5, 2.0, r.uni(0.5, 2)});
  return g;
}
World anyWorld(vh::Rng& r) {
  World w;
  if (r.chance(0.2)) return w;  // nothing mapped yet
  for (int x = -12; x < 12; x++)
    for (int y = -12; y < 12; y++)
      for (int z = 0; z < 8; z++)
        if (!r.chance(0.02)) w.voxel[T3(x, y, z)] = -2.f;
  for (int k = r.range(0, 8); k > 0; k--) {
    int x = r.range(-12, 11), y = r.range(-12, 11), h = r.range(1, 8);
    for (int i = 0; i < r.range(1, 4); i++)
      for (int z = 0; z < h; z++) w.voxel[T3(x + i, y, z)] = anyLogOdds(r);
  }
  return w;
}
octomap_msgs::Octomap mapMsg(const octomap::OcTree* t) {
  octomap_msgs::Octomap m;
  octomap_msgs::fullMapToMsg(*t, m);
  m.header.stamp = ros::Time::now();
  return m;
}
struct Goal {
  P at;  // centre of the goal's cell
  double radius = 1;
  bool temporary = false;
};
P centre(double x, double y, double z) { return pt((std::floor(x / CELL_SCALE) + 0.5) * CELL_SCALE, (std::floor(y / CELL_SCALE) + 0.5) * CELL_SCALE, (std::floor(z / CELL_SCALE) + 0.5) * CELL_SCALE); }
bool apart(const P& a, const P& b) { return std::fabs(a.x - b.x) > 1e-3 || std::fabs(a.y - b.y) > 1e-3 || std::fabs(a.z - b.z) > 1e-3; }
double manhattan(const P& a, const P& b) { return std::fabs(a.x - b.x) + std::fabs(a.y - b.y) + std::fabs(a.z - b.z); }

// Everything the node should currently believe
struct Twin {
  vh::Case& c;
  std::unique_ptr<GlobalPlannerNode> node;
  Cfg cfg;
  Goal goal;
  std::vector<Goal> next;
  P pos;
  double yaw = 0, speed = 0;
  geometry_msgs::PoseStamped target;
  std::vector<geometry_msgs::PoseStamped> path;
  std::vector<geometry_msgs::PoseStamped> flown;
  int poses = 0;
  double start = 0, lastMap = 0, mapUnsure = -1;
  bool dead = false;
  octomap::OcTree* tree = nullptr;

  explicit Twin(vh::Case& cc) : c(cc) {}
  GlobalPlanner& gp() { return node->global_planner_; }
  void bad(const char* key, const std::string& d) {
    c.fail(key, d);
    dead = true;
  }
  void create(vh::Rng& r) {
    rosmock::reset();
    CELL_SCALE = 1, SPEEDNODE_RADIUS = 5;
    rosmock::setTime(r.uni(100, 1000));
    rosmock::bus().services["mavros/param/get"] = [](void*) { return false; };
    P sp = pt(0.5, 0.5, 3.5);
    if (r.chance(0.5)) {
      sp = pt(r.uni(-5, 5), r.uni(-5, 5), r.uni(0, 6));
      rosmock::bus().dparams["start_pos_x"] = sp.x, rosmock::bus().dparams["start_pos_y"] = sp.y, rosmock::bus().dparams["start_pos_z"] = sp.z;
    }
    ros::NodeHandle nh("~"), nhp("");
    node.reset(new GlobalPlannerNode(nh, nhp));
    start = rosmock::clockNs() * 1e-9;
    goal.at = centre(sp.x, sp.y, sp.z);
    target = poseMsg(sp, 0);
    pos = pt(0, 0, 0);
    cfg = Cfg();
    speed = cfg.default_speed_;
    rosmock::clearLog();
  }
  // goals announced since the last look
  void announced(const std::vector<Goal>& want, const char* when) {
    auto all = rosmock::taken<geometry_msgs::PointStamped>("global_temp_goal");
    auto fin = rosmock::taken<geometry_msgs::PointStamped>("global_goal");
    size_t f = 0;
    if (all.size() != want.size()) return bad("goal-announced", fmt("%s: %zu goals announced, expected %zu", when, all.size(), want.size()));
    for (size_t i = 0; i < want.size(); i++) {
      if (apart(all[i].point, want[i].at)) return bad("goal-announced", fmt("%s: goal %s announced, expected %s", when, str(all[i].point).c_str(), str(want[i].at).c_str()));
      if (want[i].temporary) continue;
      if (f >= fin.size() || apart(fin[f].point, want[i].at)) return bad("goal-announced", fmt("%s: goal %s was not announced as final", when, str(want[i].at).c_str()));
      f++;
    }
    if (f != fin.size()) bad("goal-announced", fmt("%s: an intermediate goal was announced as final", when));
  }
  void goals(const char* when) {
    auto& g = gp().goal_pos_;
    if (apart(g.toPoint(), goal.at) || std::fabs(g.radius_ - goal.radius) > 1e-9 || g.is_temporary_ != goal.temporary)
      return bad("goal", fmt("%s: the goal is %s (radius %g, %s), expected %s (radius %g, %s)", when, str(g.toPoint()).c_str(), g.radius_, g.is_temporary_ ? "intermediate" : "final", str(goal.at).c_str(), goal.radius, goal.temporary ? "intermediate" : "final"));
    if (node->waypoints_.size() != next.size()) return bad("goals-waiting", fmt("%s: %zu goals wait, expected %zu", when, node->waypoints_.size(), next.size()));
    for (size_t i = 0; i < next.size(); i++)
      if (apart(node->waypoints_[i].toPoint(), next[i].at) || std::fabs(node->waypoints_[i].radius_ - next[i].radius) > 1e-9) return bad("goals-waiting", fmt("%s: goal %zu in the queue is %s, expected %s", when, i, str(node->waypoints_[i].toPoint()).c_str(), str(next[i].at).c_str()));
  }
  void setPose(const P& p, double y) {
    pos = p, yaw = y;
    auto m = poseMsg(p, y);
    rosmock::clearLog();
    rosmock::deliver("mavros/local_position/pose", m);
    if (poses++ % 10 == 0) flown.push_back(m);
    auto ap = rosmock::taken<nav_msgs::Path>("actual_path");
    if (ap.size() != (poses % 10 == 1 ? 1u : 0u)) return bad("flown-path", fmt("%zu flown paths published after pose %d", ap.size(), poses));
    if (ap.size()) {
      if (ap[0].poses.size() != flown.size()) return bad("flown-path", fmt("%zu poses in the flown path, expected %zu", ap[0].poses.size(), flown.size()));
      for (size_t i = 0; i < flown.size(); i++)
        if (dist(ap[0].poses[i].pose.position, flown[i].pose.position) > 0) return bad("flown-path", "a pose in the flown path was never flown");
    }
    double d = dist(target.pose.position, p);
    if (!path.empty() && std::fabs(d - speed) < 1e-9) {  // either is right: look
      dead = true;
      return;
    }
    if (!path.empty() && d < speed) {
      target = path[0];
      path.erase(path.begin());
      c.count("waypoints-reached");
    }
  }
  void command() {
    rosmock::clearLog();
    double was = speed;
    (void)was;
    speed = cfg.default_speed_;
    if (cfg.use_risk_based_speedup_) {
      double k = std::sqrt(gp().getRisk(Cell(pos.x, pos.y, pos.z)));
      if (std::fabs(k - cfg.risk_threshold_risk_based_speedup_) < 1e-9) k = cfg.risk_threshold_risk_based_speedup_;
      if (k < cfg.risk_threshold_risk_based_speedup_) {
        speed = cfg.default_speed_ + (cfg.max_speed_ - cfg.default_speed_) * (1 - k);
        c.count("speedups");
      }
    }
    rosmock::fire(0.1);
    auto sp = rosmock::taken<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
    auto cs = rosmock::taken<geometry_msgs::PoseStamped>("current_setpoint");
    auto tr = rosmock::taken<mavros_msgs::Trajectory>("mavros/trajectory/generated");
    if (sp.size() != 1 || cs.size() != 1 || tr.size() != 1) return bad("setpoint-count", fmt("%zu, %zu and %zu setpoints in one control cycle", sp.size(), cs.size(), tr.size()));
    P s = sp[0].pose.position, t = target.pose.position;
    if (!std::isfinite(s.x) || !std::isfinite(s.y) || !std::isfinite(s.z)) return bad("setpoint-finite", "setpoint " + str(s));
    double len = dist(t, pos), want = len < 1 ? len : std::min(speed, len);
    P e = len > 0 ? pt(pos.x + (t.x - pos.x) * want / len, pos.y + (t.y - pos.y) * want / len, pos.z + (t.z - pos.z) * want / len) : pos;
    if (dist(e, s) > 1e-6) return bad("setpoint", fmt("setpoint %s, expected %s: %.4f m from the vehicle %s to the path point %s, %.4f m away (speed %.4f)", str(s).c_str(), str(e).c_str(), want, str(pos).c_str(), str(t).c_str(), len, speed));
    if (!same(sp[0].pose.orientation, target.pose.orientation)) return bad("setpoint-heading", "the setpoint does not have the heading of the path point");
    if (dist(cs[0].pose.position, s) > 0) return bad("setpoint-shown", "the setpoint shown is not the one sent");
    auto& q = tr[0].point_1;
    auto err = [](double a, double b) { return std::fabs(a - b) > 1e-4 * (1 + std::fabs(b)); };
    if (!tr[0].point_valid[0] || tr[0].point_valid[1] || tr[0].point_valid[2] || tr[0].point_valid[3] || tr[0].point_valid[4] || tr[0].type != 0) return bad("trajectory", "not exactly one valid waypoint");
    if (err(q.position.x, s.x) || err(q.position.y, s.y) || err(q.position.z, s.z)) return bad("trajectory", "the trajectory's point is not the setpoint");
    if (std::isfinite(q.velocity.x) || std::isfinite(q.velocity.y) || std::isfinite(q.velocity.z) || std::isfinite(q.acceleration_or_force.x)) return bad("trajectory", "a velocity or acceleration is demanded");
    if (std::fabs(std::remainder(q.yaw - tf::getYaw(target.pose.orientation), 2 * M_PI)) > 1e-5) return bad("trajectory", "heading");
    // health
    double now = rosmock::clockNs() * 1e-9, age = now - lastMap, up = now - start;
    auto near = [](double a, double b) { return std::fabs(a - b) < 1e-6; };
    if (mapUnsure < 0 && !near(age, 15) && !near(up, 15) && !near(age, .5) && !near(up, 5)) {
      int w = (int)(age > 15 && up > 15 ? MAV_STATE::MAV_STATE_FLIGHT_TERMINATION : age > .5 && up > 5 ? MAV_STATE::MAV_STATE_CRITICAL : MAV_STATE::MAV_STATE_ACTIVE);
      rosmock::clearLog();
      rosmock::fire(0.2);
      auto st = rosmock::taken<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status");
      if (st.size() != 1) return bad("heartbeat", fmt("%zu status messages", st.size()));
      if (st[0].state != w) return bad("health", fmt("state %d, expected %d: the last map came %.3f s ago, the node started %.3f s ago", st[0].state, w, age, up));
      c.count(w == (int)MAV_STATE::MAV_STATE_ACTIVE ? "healthy" : w == (int)MAV_STATE::MAV_STATE_CRITICAL ? "critical" : "termination");
    }
    c.count("setpoints");
    c.evals(1);
  }
  void plan(vh::Hasher& h) {
    rosmock::clearLog();
    std::vector<Goal> want;
    bool reached = manhattan(goal.at, pos) < goal.radius, blocked = gp().goal_is_blocked_;
    if (std::fabs(manhattan(goal.at, pos) - goal.radius) < 1e-9) {
      dead = true;  // either is right
      return;
    }
    bool stopped = false;
    if (reached || blocked) {
      if (!next.empty()) {
        goal = next[0];
        next.erase(next.begin());
        want.push_back(goal);
        c.count(reached ? "next-goal-after-reached" : "next-goal-after-blocked");
      } else if (blocked) {
        goal = Goal();
        goal.at = centre(pos.x, pos.y, pos.z);
        stopped = true;
        c.count("stops");
      }
    }
    if (stopped) h << 1;
    rosmock::fire(1.0);
    auto tp = rosmock::taken<nav_msgs::Path>("global_temp_path");
    auto smo = rosmock::taken<nav_msgs::Path>("smooth_path");
    if (tp.size() != 2 || smo.size() != 2) return bad("paths-published", fmt("%zu paths and %zu smooth paths in one planning cycle", tp.size(), smo.size()));
    bool found = !gp().goal_is_blocked_ && !gp().current_cell_blocked_;
    h << (int)found << (int)tp[0].poses.size();
    if (found && gp().overestimate_factor_ > 1.05 && tp[0].poses.size() > 10) {
      next.insert(next.begin(), goal);
      goal.at = tp[0].poses[tp[0].poses.size() / 2].pose.position;
      goal.radius = tp[0].poses.size() / 4;
      goal.temporary = true;
      want.push_back(goal);
      c.count("intermediate-goals");
    }
    announced(want, "planning");
    if (dead) return;
    goals("after planning");
    if (dead) return;
    c.count(found ? "paths-found" : "no-path");
    for (int k = 0; k < 2; k++) {
      for (auto& p : tp[k].poses) {
        if (apart(p.pose.position, centre(p.pose.position.x, p.pose.position.y, p.pose.position.z))) return bad("path-cells", "a published path point is not the centre of a cell: " + str(p.pose.position));
        if (p.header.frame_id != "local_origin") return bad("path-frame", p.header.frame_id);
      }
      auto sm = smoothPath(tp[k]);
      bool eq = sm.poses.size() == smo[k].poses.size();
      for (size_t i = 0; eq && i < sm.poses.size(); i++) eq = dist(sm.poses[i].pose.position, smo[k].poses[i].pose.position) == 0;
      if (!eq) return bad("smooth-path", "the smooth path published does not belong to the path published with it");
    }
    // the simplified path is made of the points of the full one, in their order
    size_t at = 0;
    for (size_t i = 0; i < tp[1].poses.size(); i++) {
      if (at && !apart(tp[0].poses[at - 1].pose.position, tp[1].poses[i].pose.position)) continue;  // the end, repeated to stop there
      while (at < tp[0].poses.size() && apart(tp[0].poses[at].pose.position, tp[1].poses[i].pose.position)) at++;
      if (at == tp[0].poses.size()) return bad("simplified", fmt("point %zu of the simplified path, %s, does not follow on the full path", i, str(tp[1].poses[i].pose.position).c_str()));
      at++;
    }
    auto simple = simplifyPath(&gp(), gp().curr_path_, cfg.simplify_margin_, (int)cfg.simplify_iterations_);
    bool eq = simple.size() == tp[1].poses.size();
    for (size_t i = 0; eq && i < simple.size(); i++) eq = !apart(simple[i].toPoint(), tp[1].poses[i].pose.position);
    if (!eq) return bad("simplification", fmt("the path was not simplified with margin %g in %d rounds: %zu points instead of %zu", cfg.simplify_margin_, (int)cfg.simplify_iterations_, tp[1].poses.size(), simple.size()));
    if (simple.size() < tp[0].poses.size()) c.count("simplified");
    if (tp[0].poses.size() && (!tp[1].poses.size() || apart(tp[0].poses[0].pose.position, tp[1].poses[0].pose.position) || apart(tp[0].poses.back().pose.position, tp[1].poses.back().pose.position))) return bad("simplified-ends", "the simplified path does not have the ends of the full one");
    if (found) {
      if (tp[0].poses.size() < 2) return bad("path-empty", fmt("a path was found but %zu points were published", tp[0].poses.size()));
      P s = centre(pos.x + gp().curr_vel_.x * cfg.search_time_, pos.y + gp().curr_vel_.y * cfg.search_time_, pos.z + gp().curr_vel_.z * cfg.search_time_);
      if (apart(tp[0].poses[1].pose.position, s)) return bad("path-start", fmt("the path starts at %s, the vehicle will be in %s", str(tp[0].poses[1].pose.position).c_str(), str(s).c_str()));
    }
    auto& f = tp[1].poses;
    if (f.size() >= 2) {
      target = f[1];
      path.assign(f.begin() + 2, f.end());
    } else if (f.size() == 1) {
      target = f[0];
      path.clear();
    } else
      path.clear();
    if (stopped && !found && (path.size() || dist(target.pose.position, goal.at) > 1e-9)) return bad("stop", "stopping does not lead to the current position");
    c.evals(1);
  }
  void sendMap(const octomap_msgs::Octomap& m, bool usable) {
    double now = rosmock::clockNs() * 1e-9;
    bool edge = std::fabs(now - lastMap - 0.2) < 1e-6 || mapUnsure >= 0;
    auto* before = gp().octree_;
    size_t nb = before ? before->size() : 0;
    rosmock::deliver("octomap_full", m);
    if (!usable) {
      if (gp().octree_ != before || (before && before->size() != nb)) bad("unusable-map", "a map that is not an occupancy octree replaced the current one");
      if (now - lastMap >= 0.2 - 1e-6) mapUnsure = now;  // may or may not count as a sign of life
      c.count("unusable-maps");
      return;
    }
    bool accept = now - lastMap >= 0.2;
    bool got = gp().octree_ != before || (gp().octree_ && gp().octree_->size() != nb);
    if (edge) {
      if (mapUnsure >= 0 && now - mapUnsure > 0.2 + 1e-6) {
        lastMap = now, mapUnsure = -1;
      } else
        mapUnsure = now;
      return;
    }
    if (got && !accept) return bad("map-rate", fmt("a map %.3f s after the last one was not ignored", now - lastMap));
    if (accept) {
      lastMap = now;
      if (!gp().octree_) return bad("map-ignored", fmt("a map %.3f s after the last one was ignored", now - lastMap));
      c.count("maps");
    } else
      c.count("maps-skipped");
  }
};
}  // namespace

VH_SUITE(history, 2000, 50000) {
  quiet();
  auto& r = c.rng;
  Twin t(c);
  t.create(r);
  World w = anyWorld(r);
  std::unique_ptr<octomap::OcTree> tree(w.tree());
  bool cells = r.chance(0.25);
  vh::Hasher h;
  t.pos = pt(0, 0, 0);
  P at = pt(r.uni(-8, 8), r.uni(-8, 8), r.uni(1, 6));
  int n = r.range(10, 80);
  double mean = r.pick({0.05, 0.1, 0.1, 1.0});
  for (int k = 0; k < n && !t.dead; k++) {
    rosmock::advance(r.chance(0.02) ? r.uni(0, 20) : r.uni(0, 2 * mean));
    switch (r.below(16)) {
      case 0:
      case 1:
      case 2: {  // the vehicle moves: towards the setpoint, or somewhere
        if (r.chance(0.15))
          at = pt(r.uni(-10, 10), r.uni(-10, 10), r.uni(0, 7));
        else {
          double f = r.pick({0.2, 0.5, 0.9, 1.0});
          P g = t.target.pose.position;
          at = pt(at.x + (g.x - at.x) * f, at.y + (g.y - at.y) * f, at.z + (g.z - at.z) * f);
        }
        t.setPose(at, r.uni(-3.2, 3.2));
        h << 0 << (int)t.path.size();
        break;
      }
      case 3: {
        geometry_msgs::TwistStamped v;
        v.twist.linear.x = r.uni(-2, 2), v.twist.linear.y = r.uni(-2, 2), v.twist.linear.z = r.uni(-1, 1);
        rosmock::deliver("mavros/local_position/velocity", v);
        break;
      }
      case 4:
      case 5: {
        if (r.chance(0.3)) {
          w = anyWorld(r);
          tree.reset(w.tree());
        }
        t.sendMap(mapMsg(tree.get()), true);
        break;
      }
      case 6: {
        octomap_msgs::Octomap m = mapMsg(tree.get());
        m.id = r.pick({std::string("ColorOcTree"), std::string("nonsense")});
        if (r.chance(0.3)) t.sendMap(m, false);
        break;
      }
      case 7: {
        rosmock::clearLog();
        geometry_msgs::PoseStamped m = poseMsg(pt(r.uni(-11, 11), r.uni(-11, 11), r.pick({0.0, 5.0})), 1);
        rosmock::deliver("move_base_simple/goal", m);
        Goal g;
        g.at = centre(m.pose.position.x, m.pose.position.y, t.cfg.clicked_goal_alt_);
        g.radius = t.cfg.clicked_goal_radius_;
        t.goal = g;
        t.next.clear();
        t.announced({g}, "clicked goal");
        if (!t.dead) t.goals("after a clicked goal");
        c.count("clicked-goals");
        break;
      }
      case 8:
      case 9: {
        rosmock::clearLog();
        mavros_msgs::Trajectory m;
        bool valid = r.chance(0.8), repeat = r.chance(0.5);
        const Goal& fin = t.next.empty() ? t.goal : t.next.back();
        P p = repeat ? fin.at : pt(r.uni(-11, 11), r.uni(-11, 11), r.uni(0.5, 6));
        if (r.chance(0.2)) p = fin.at, p.z += r.pick({-2, 2}) * CELL_SCALE;
        m.point_valid[0] = r.chance(0.5), m.point_valid[1] = valid;
        m.point_1.position.x = r.uni(-11, 11), m.point_1.position.z = 3;
        m.point_2.position.x = p.x, m.point_2.position.y = p.y, m.point_2.position.z = p.z;
        Goal g;
        g.at = centre(p.x, p.y, p.z);
        bool fresh = valid && apart(fin.at, g.at);
        rosmock::deliver("mavros/trajectory/desired", m);
        if (fresh) {
          t.goal = g;
          t.next.clear();
        }
        t.announced(fresh ? std::vector<Goal>{g} : std::vector<Goal>{}, "goal from the flight controller");
        if (!t.dead) t.goals("after a goal from the flight controller");
        c.count(fresh ? "fcu-goals" : valid ? "fcu-goals-repeated" : "fcu-goals-invalid");
        break;
      }
      case 10: {
        geometry_msgs::PointStamped m;
        m.point = pt(r.uni(-30, 30), r.uni(-30, 30), r.uni(-2, 40));
        rosmock::deliver("clicked_point", m);
        t.goals("after a clicked point");
        break;
      }
      case 11: {
        if (!r.chance(0.4)) break;
        Cfg g = config(r, cells);
        uint32_t level = r.chance(0.5) ? 7 : (g.CELL_SCALE != t.cfg.CELL_SCALE ? 2 : 0) | 4;
        Goal og = t.goal;
        double os = CELL_SCALE;
        t.cfg = g;
        rosmock::reconfigure<Cfg>(g, level);
        // goals stay where they are, up to the raster
        auto moved = [&](Goal& q, const P& now) {
          if (os == CELL_SCALE ? apart(q.at, now) : manhattan(q.at, now) > 1.5 * CELL_SCALE + 1e-9) t.bad("goal-kept", fmt("changing the cell size from %g to %g moved a goal from %s to %s", os, CELL_SCALE, str(q.at).c_str(), str(now).c_str()));
          q.at = now;
        };
        if (CELL_SCALE != g.CELL_SCALE || SPEEDNODE_RADIUS != g.SPEEDNODE_RADIUS) t.bad("cell-size", fmt("cell size %g, configured %g", CELL_SCALE, g.CELL_SCALE));
        moved(t.goal, t.gp().goal_pos_.toPoint());
        if (t.next.size() != t.node->waypoints_.size()) t.bad("goals-kept", "goals got lost");
        for (size_t i = 0; i < t.next.size() && !t.dead; i++) moved(t.next[i], t.node->waypoints_[i].toPoint());
        if (os != CELL_SCALE) c.count("cell-size-changes");
        c.count("reconfigured");
        break;
      }
      case 12: t.plan(h); break;
      default: t.command(); h << 3;
    }
  }
  t.node.reset();
  CELL_SCALE = 1, SPEEDNODE_RADIUS = 5;
  c.distinct(h);
}

// Depth cameras: what they see is known space for the planner
VH_SUITE(cameras, 2000, 40000) {
  quiet();
  auto& r = c.rng;
  rosmock::reset();
  CELL_SCALE = 1;
  rosmock::setTime(500);
  rosmock::bus().services["mavros/param/get"] = [](void*) { return false; };
  std::vector<std::string> topics;
  for (int k = r.range(1, 3); k > 0; k--) topics.push_back(fmt("/cam%d/points", k));
  rosmock::bus().lparams["pointcloud_topics"] = topics;
  std::string frame = "camera_link";
  if (r.chance(0.5)) rosmock::bus().sparams["camera_frame_id"] = frame = "cam";
  ros::NodeHandle nh("~"), nhp("");
  std::unique_ptr<GlobalPlannerNode> node(new GlobalPlannerNode(nh, nhp));
  bool up = true;
  double y = r.uni(-3, 3);
  tf::Vector3 org(r.uni(-5, 5), r.uni(-5, 5), r.uni(0, 5));
  std::string asked;
  rosmock::setTf([&](const std::string& to, const std::string& from, const ros::Time&, tf::StampedTransform& out) {
    if (to != "local_origin") asked = "to " + to;
    if (from != frame) asked = "from " + from;
    tf::Transform tr;
    tr.setOrigin(org);
    tr.setRotation(tf::createQuaternionFromYaw(y));
    out = tf::StampedTransform(tr, ros::Time(0), to, from);
    return up;
  });
  std::set<T3> want, maybe;
  for (int k = 0, n = r.range(1, 5); k < n; k++) {
    up = r.chance(0.8);
    pcl::PointCloud<pcl::PointXYZ> pc;
    std::vector<std::pair<std::vector<double>, bool>> pts;
    for (int i = r.pick({0, 3, 30}); i > 0; i--) {
      pcl::PointXYZ q(r.unif(-8, 8), r.unif(-8, 8), r.unif(-8, 8));
      if (r.chance(0.2)) {
        float v = r.pick({NAN, INFINITY, -INFINITY});
        (r.chance(0.33) ? q.x : r.chance(0.5) ? q.y : q.z) = v;
      }
      pc.push_back(q);
      if (!up || !std::isfinite(q.x) || !std::isfinite(q.y) || !std::isfinite(q.z)) continue;
      double wx = org.x() + std::cos(y) * q.x - std::sin(y) * q.y, wy = org.y() + std::sin(y) * q.x + std::cos(y) * q.y, wz = org.z() + q.z;
      auto edge = [](double v) { return std::fabs(v - std::round(v)) < 1e-4; };
      T3 cell((int)std::floor(wx), (int)std::floor(wy), (int)std::floor(wz));
      if (edge(wx) || edge(wy) || edge(wz)) {
        for (int a = -1; a <= 1; a++)
          for (int b = -1; b <= 1; b++)
            for (int d = -1; d <= 1; d++) maybe.insert(T3(std::get<0>(cell) + a, std::get<1>(cell) + b, std::get<2>(cell) + d));
      } else
        want.insert(cell);
    }
    pc.is_dense = false;
    sensor_msgs::PointCloud2 m;
    pcl::toROSMsg(pc, m);
    m.header.frame_id = frame;
    m.header.stamp = ros::Time::now();
    rosmock::clearLog();
    rosmock::deliver(r.pick(topics), m);
    auto out = rosmock::taken<sensor_msgs::PointCloud2>("cloud_in");
    if (out.size() != (up ? 1u : 0u)) c.fail("cloud-forwarded", fmt("%zu clouds forwarded to the mapping, transform %d", out.size(), up));
    if (out.size() && (out[0].data != m.data || out[0].header.frame_id != frame)) c.fail("cloud-forwarded", "the cloud was changed");
    c.count(up ? "clouds" : "clouds-without-transform");
    rosmock::advance(0.1);
  }
  if (!asked.empty()) c.fail("frames", "a transform was asked for " + asked);
  auto& occ = node->global_planner_.occupied_;
  for (auto& k : want)
    if (!occ.count(Cell(k))) {
      c.fail("seen", gpw::str(Cell(k)) + " was seen but is not known space");
      break;
    }
  for (auto& k : occ)
    if (!want.count(k.tpl_) && !maybe.count(k.tpl_)) {
      c.fail("unseen", gpw::str(k) + " is known space but was never seen");
      break;
    }
  c.count("cells", occ.size());
  c.distinct(vh::Hasher() << (int)want.size() << (int)up);
}

// Flights: a vehicle that follows the setpoints, in a world that is known from the start
VH_SUITE(flight, 240, 6000) {
  quiet();
  auto& r = c.rng;
  Twin t(c);
  t.create(r);
  World w;
  const int R = 9;
  int boxes = r.pick({0, r.range(1, 7), r.range(8, 25)});
  for (int x = -R; x < R; x++)
    for (int y = -R; y < R; y++)
      for (int z = 0; z < 12; z++) w.voxel[T3(x, y, z)] = -2.f;
  for (int k = 0; k < boxes; k++) {
    int x = r.range(-R, R - 1), y = r.range(-R, R - 1), lx = r.pick({1, 1, 4}), ly = r.pick({1, 1, 4}), hgt = r.pick({3, 6, 10, 12});
    for (int i = 0; i < lx; i++)
      for (int j = 0; j < ly; j++)
        for (int z = 0; z < hgt; z++)
          if (x + i < R && y + j < R) w.voxel[T3(x + i, y + j, z)] = 3.5f;
  }
  const bool wall = r.chance(0.2);  // from side to side: over it, if that is allowed
  if (wall)
    for (int y = -R; y < R; y++)
      for (int z = 0, hgt = r.range(4, 9); z < hgt; z++) w.voxel[T3(0, y, z)] = 3.5f;
  boxes += wall;
  auto clear = [&](const P& p, int m) {
    for (int a = -m; a <= m; a++)
      for (int b = -m; b <= m; b++)
        for (int d = -m; d <= m; d++) {
          auto it = w.voxel.find(T3((int)std::floor(p.x) + a, (int)std::floor(p.y) + b, (int)std::floor(p.z) + d));
          if (it != w.voxel.end() && it->second > 0) return false;
        }
    return true;
  };
  P pos, goal;
  int tries = 0;
  do pos = pt(r.uni(-R + 1, R - 1), r.uni(-R + 1, R - 1), r.uni(2.2, 5));
  while (!clear(pos, 1) && tries++ < 200);
  do goal = pt(r.uni(-R + 1, R - 1), r.uni(-R + 1, R - 1), r.uni(2.2, 5));
  while (!clear(goal, 1) && tries++ < 200);
  if (tries >= 200) return;
  Cfg g = Cfg();
  g.use_risk_based_speedup_ = false;
  g.default_speed_ = r.pick({1.0, 0.5});
  g.default_node_type_ = r.pick({std::string("SpeedNode"), std::string("Node")});
  g.max_altitude_ = r.pick({(int)g.max_altitude_, r.range(6, 9)});
  t.cfg = g;
  rosmock::reconfigure<Cfg>(g, 7);
  std::unique_ptr<octomap::OcTree> tree(w.tree());
  t.setPose(pos, 0);
  t.sendMap(mapMsg(tree.get()), true);
  bool click = r.chance(0.5);
  if (click) {
    rosmock::deliver("move_base_simple/goal", poseMsg(goal, 0));
    t.goal = Goal();
    t.goal.at = centre(goal.x, goal.y, g.clicked_goal_alt_);
  } else {
    mavros_msgs::Trajectory m;
    m.point_valid[1] = true;
    m.point_2.position.x = goal.x, m.point_2.position.y = goal.y, m.point_2.position.z = goal.z;
    rosmock::deliver("mavros/trajectory/desired", m);
    Goal gl;
    gl.at = centre(goal.x, goal.y, goal.z);
    t.goal = gl;
  }
  const P mission = t.goal.at;
  vh::Hasher h;
  P vel = pt(0, 0, 0);
  double worst = 1e9, closest = 1e9, top = pos.z;
  int reachedAt = -1;
  bool gaveUp = false;
  for (int k = 0; k < 900 && !t.dead; k++) {
    rosmock::advance(0.1);
    geometry_msgs::TwistStamped v;
    v.twist.linear.x = vel.x, v.twist.linear.y = vel.y, v.twist.linear.z = vel.z;
    rosmock::deliver("mavros/local_position/velocity", v);
    t.setPose(pos, std::atan2(vel.y, vel.x) + r.uni(-0.1, 0.1));
    if (t.dead) break;
    if (k % 3 == 0) t.sendMap(mapMsg(tree.get()), true);
    if (k % 10 == 0) {
      t.plan(h);
      if (t.gp().goal_is_blocked_) gaveUp = true;
    }
    if (t.dead) break;
    t.command();
    if (t.dead) break;
    // one tenth of a second of flight towards the setpoint
    P s = t.target.pose.position;
    double len = dist(s, pos), want = len < 1 ? len : std::min(t.speed, len), f = len > 0 ? want / len : 0;
    vel = pt((s.x - pos.x) * f, (s.y - pos.y) * f, (s.z - pos.z) * f);
    pos = pt(pos.x + vel.x * 0.1, pos.y + vel.y * 0.1, pos.z + vel.z * 0.1);
    for (int a = -1; a <= 1; a++)
      for (int b = -1; b <= 1; b++)
        for (int d = -1; d <= 1; d++) {
          int x = (int)std::floor(pos.x) + a, y = (int)std::floor(pos.y) + b, z = (int)std::floor(pos.z) + d;
          auto it = w.voxel.find(T3(x, y, z));
          if (it == w.voxel.end() || it->second < 0) continue;
          auto gap = [](double p, int lo) { return std::max({0.0, lo - p, p - lo - 1}); };
          worst = std::min(worst, std::sqrt(std::pow(gap(pos.x, x), 2) + std::pow(gap(pos.y, y), 2) + std::pow(gap(pos.z, z), 2)));
        }
    closest = std::min(closest, manhattan(mission, pos)), top = std::max(top, (double)pos.z);
    if (manhattan(mission, pos) < 1.0) {
      reachedAt = k;
      break;
    }
    if (gaveUp) break;
  }
  if (!boxes && g.default_speed_ == 1.0 && closest > 5 && !t.dead) c.fail("goal-not-approached", fmt("nothing is in the way, but in 90 s the vehicle never came closer than %g m to the goal %s", closest, str(mission).c_str()));
  if (worst <= 0) c.fail("collision", fmt("the vehicle flew into an occupied voxel at %s", str(pos).c_str()));
  if (top > g.max_altitude_) c.fail("altitude", fmt("flew at %g m, the maximum altitude is %d m", top, (int)g.max_altitude_));
  c.count(reachedAt >= 0 ? "flights-to-the-goal" : gaveUp ? "flights-given-up" : "flights-unfinished");
  if (worst < 1e8) c.count(worst < 0.1 ? "closest-below-0.1m" : worst < 0.3 ? "closest-below-0.3m" : worst < 0.5 ? "closest-below-0.5m" : "closest-above-0.5m");
  h << reachedAt;
  t.node.reset();
  c.distinct(h);
}
