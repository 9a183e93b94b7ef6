// VH: libs=local_planner flavour=asan
// What the operator is shown of the local planner, against the planner's own state and the commands sent.
#define private public
#define protected public
#include <local_planner/local_planner_nodelet.h>
#undef private
#undef protected
#include <local_planner/tree_node.h>
#include <memory>
#include "geo.h"
#include "vh.h"
using namespace avoidance;
using vh::fmt;
typedef visualization_msgs::Marker M;
typedef Eigen::Vector3f V3;

namespace {
std::string str(const V3& v) { return fmt("(%.3f, %.3f, %.3f)", v.x(), v.y(), v.z()); }
template <class P>
bool at(const P& p, const V3& v, double tol = 2e-4) {
  auto one = [&](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * (1 + std::fabs(b) * 1e-2); };
  return one(p.x, v.x()) && one(p.y, v.y()) && one(p.z, v.z());
}
template <class T>
T only(vh::Case& c, const char* topic, bool& ok) {
  auto v = rosmock::taken<T>(topic);
  if (v.size() != 1) {
    c.fail("not-shown", fmt("%zu messages on %s", v.size(), topic));
    ok = false;
    return T();
  }
  return v[0];
}
bool marker(vh::Case& c, const char* topic, const M& m, int type, const char* frame = "local_origin") {
  bool seen = m.color.a > 0 || !m.colors.empty();
  if (m.type != type || m.action != M::ADD || m.header.frame_id != frame || !(m.header.stamp == ros::Time::now()) || !seen || !(m.scale.x > 0)) {
    c.fail("marker", fmt("%s: type %d (expected %d), action %d, frame %s, visible %d", topic, (int)m.type, type, (int)m.action, m.header.frame_id.c_str(), seen));
    return false;
  }
  return true;
}
}  // namespace

VH_SUITE(plan, 250, 6000) {
  auto& r = c.rng;
  rosmock::reset();
  double now = r.pick({1.0, 1000.0});
  rosmock::setTime(now);
  LocalPlanner p;
  p.setDefaultPx4Parameters();
  p.px4_.param_cp_dist = r.pick({4.f, -1.f});
  LocalPlannerNodeConfig cfg = LocalPlannerNodeConfig::__getDefault__();
  cfg.max_sensor_range_ = r.pick({15.0, r.uni(3, 20)});
  cfg.n_expanded_nodes_ = r.range(1, 10);
  cfg.min_num_points_per_cell_ = 1;
  p.dynamicReconfigureSetParams(cfg, 0);
  auto fov = geo::rig(r);
  for (size_t i = 0; i < fov.size(); i++) p.setFOV(i, fov[i]);
  LocalPlannerVisualization vis;
  ros::NodeHandle nh("");
  vis.initializePublishers(nh);
  V3 pos(r.unif(-20, 20), r.unif(-20, 20), r.unif(0, 10));
  vh::Hasher h;
  for (int step = 0, n = r.range(1, 4); step < n; step++) {
    V3 goal = pos + V3(r.gauss(), r.gauss(), r.gauss() * 0.2f) * r.pick({3.f, 15.f, 30.f});
    p.setGoal(goal);
    p.setPreviousGoal(pos);
    float yaw = r.unif(-3.1f, 3.1f);
    Eigen::Quaternionf q(Eigen::AngleAxisf(yaw, V3::UnitZ()) * Eigen::AngleAxisf(r.pick({0.f, r.unif(-0.4, 0.4)}), V3::UnitY()));
    p.setState(pos, V3(r.unif(-2, 2), r.unif(-2, 2), 0), q);
    p.original_cloud_vector_.assign(1, pcl::PointCloud<pcl::PointXYZ>());
    p.original_cloud_vector_[0].header.frame_id = "local_origin";
    if (r.chance(0.85))
      for (int i = 0, k = r.pick({1, 30, 300}); i < k; i++) {
        V3 d = V3(r.gauss(), r.gauss(), r.gauss() * 0.3f).normalized() * r.unif(0.3, 18);
        p.original_cloud_vector_[0].push_back(pcl::PointXYZ(pos.x() + d.x(), pos.y() + d.y(), pos.z() + d.z()));
      }
    rosmock::setTime(now += r.uni(0.05, 1));
    p.runPlanner();
    V3 wp = pos + V3(r.gauss(), r.gauss(), r.gauss() * 0.3f), ad = pos + V3(r.gauss(), r.gauss(), r.gauss() * 0.3f);
    rosmock::clearLog();
    vis.visualizePlannerData(p, wp, ad, pos, q);
    c.evals(1);
    bool ok = true;
    std::vector<TreeNode> tree;
    std::vector<int> closed;
    std::vector<V3> path;
    p.getTree(tree, closed, path);
    // points
    auto pc = only<pcl::PointCloud<pcl::PointXYZI>>(c, "local_pointcloud", ok);
    auto sz = only<std_msgs::UInt32>(c, "pointcloud_size", ok);
    if (!ok) return;
    const auto& own = p.getPointcloud();
    bool eq = pc.size() == own.size() && sz.data == own.size();
    for (size_t i = 0; eq && i < pc.size(); i++) eq = pc[i].x == own[i].x && pc[i].y == own[i].y && pc[i].z == own[i].z;
    if (!eq) c.fail("points", fmt("%zu points shown, size %u, the planner has %zu", pc.size(), sz.data, own.size()));
    c.count("points shown", pc.size());
    // tree: each closed node joined to its parent
    auto tm = only<M>(c, "complete_tree", ok);
    auto pm = only<M>(c, "tree_path", ok);
    if (!ok) return;
    if (marker(c, "complete_tree", tm, M::LINE_LIST)) {
      std::multiset<std::array<int, 6>> a, b;
      auto key = [](auto&& s, auto&& t) { return std::array<int, 6>{(int)std::lround(s.x * 1e3), (int)std::lround(s.y * 1e3), (int)std::lround(s.z * 1e3), (int)std::lround(t.x * 1e3), (int)std::lround(t.y * 1e3), (int)std::lround(t.z * 1e3)}; };
      for (size_t i = 0; i + 1 < tm.points.size(); i += 2) a.insert(std::min(key(tm.points[i], tm.points[i + 1]), key(tm.points[i + 1], tm.points[i])));
      for (int k : closed) {
        auto s = toPoint(tree[k].getPosition()), t = toPoint(tree[tree[k].origin_].getPosition());
        b.insert(std::min(key(s, t), key(t, s)));
      }
      if (a != b || tm.points.size() % 2) c.fail("tree", fmt("%zu lines drawn for %zu expanded nodes", tm.points.size() / 2, closed.size()));
      c.count("tree lines", closed.size());
    }
    if (marker(c, "tree_path", pm, M::LINE_LIST)) {
      bool good = pm.points.size() == (path.empty() ? 0 : 2 * (path.size() - 1));
      for (size_t i = 1; good && i < path.size(); i++) good = at(pm.points[2 * i - 2], path[i - 1]) && at(pm.points[2 * i - 1], path[i]);
      if (!good) c.fail("path", fmt("%zu points drawn for a path of %zu nodes", pm.points.size(), path.size()));
      c.count("path nodes", path.size());
    }
    // goal
    auto gm = only<visualization_msgs::MarkerArray>(c, "goal_position", ok);
    if (!ok) return;
    if (gm.markers.size() != 1 || !at(gm.markers[0].pose.position, goal)) c.fail("goal", "goal " + str(goal) + " is not where it is shown");
    else marker(c, "goal_position", gm.markers[0], M::SPHERE);
    // fields of view: a pyramid of four sides from the vehicle, one per camera
    auto fm = rosmock::taken<M>("fov");
    if (fm.size() != fov.size()) c.fail("views", fmt("%zu views shown for %zu cameras", fm.size(), fov.size()));
    std::set<int> ids;
    for (size_t i = 0; i < fm.size() && i < fov.size(); i++) {
      marker(c, "fov", fm[i], M::TRIANGLE_LIST, "fcu");
      if (!ids.insert(fm[i].id).second) c.fail("view-id", "two cameras' views share an id: one hides the other");
      double R = p.getSensorRange();
      const FOV& f = fov[i];
      std::vector<Eigen::Vector3d> corner;
      for (auto s : {std::make_pair(-1, 1), std::make_pair(1, 1), std::make_pair(1, -1), std::make_pair(-1, -1)}) {
        double e = (f.pitch_deg + s.first * f.v_fov_deg / 2) / geo::R2D, z = (f.yaw_deg + s.second * f.h_fov_deg / 2) / geo::R2D;
        corner.push_back(Eigen::Vector3d(std::cos(e) * std::cos(z), std::cos(e) * std::sin(z), -std::sin(e)) * R);
      }
      auto is = [&](const geometry_msgs::Point& a, const Eigen::Vector3d& b) { return (Eigen::Vector3d(a.x, a.y, a.z) - b).norm() < 1e-3 + 1e-4 * R; };
      std::set<std::pair<int, int>> sides;
      for (size_t t = 0; t + 2 < fm[i].points.size(); t += 3) {
        int nul = 0;
        std::vector<int> cs;
        for (int k = 0; k < 3; k++) {
          if (is(fm[i].points[t + k], Eigen::Vector3d::Zero())) nul++;
          for (int j = 0; j < 4; j++)
            if (is(fm[i].points[t + k], corner[j])) {
              cs.push_back(j);
              break;
            }
        }
        if (nul == 1 && cs.size() == 2) sides.insert({std::min(cs[0], cs[1]), std::max(cs[0], cs[1])});
      }
      bool small = false;  // corners on one another, as at the pole
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < a; b++) small |= (corner[a] - corner[b]).norm() < 0.01 * R;
      if (!small && (fm[i].points.size() != 12 || sides != std::set<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 3}, {0, 3}}))
        c.fail("view", fmt("camera %zu of yaw %g pitch %g, %g by %g degrees, range %g: %zu of 4 sides", i, f.yaw_deg, f.pitch_deg, f.h_fov_deg, f.v_fov_deg, R, sides.size()));
      c.count("views");
    }
    // obstacle scan: a sector per direction, as long as the distance; red to green
    auto rm = only<M>(c, "range_scan", ok);
    if (!ok) return;
    auto& sc = p.distance_data_;
    if (rm.points.size() != 3 * sc.ranges.size() || rm.colors.size() != rm.points.size()) {
      c.fail("scan", fmt("%zu points and %zu colours for %zu distances", rm.points.size(), rm.colors.size(), sc.ranges.size()));
    } else {
      marker(c, "range_scan", rm, M::TRIANGLE_LIST);
      for (size_t i = 0; i < sc.ranges.size(); i++) {
        double R = std::isfinite(sc.ranges[i]) ? std::min(sc.ranges[i], sc.range_max) : sc.range_max, inc = sc.angle_increment * geo::R2D;
        auto* t = &rm.points[3 * i];
        if (!at(t[0], pos)) c.fail("scan-centre", "a sector does not start at the vehicle");
        for (int k = 1; k < 3; k++) {
          geo::Pol g = geo::hist(Eigen::Vector3d(t[k].x, t[k].y, t[k].z), geo::d(pos));
          if (!vh::close(g.r, R, 2e-3, 2e-3) || std::fabs(g.e) > 0.5 / std::max(0.05, R)) c.fail("scan-length", fmt("distance %g shown as %g", sc.ranges[i], g.r));
          // on either side of the direction, which is (i + 1/2) increments clockwise from north; half an increment is not judged
          if (R > 0.05 && std::fabs(vh::angDiff(g.z, (i + 0.5) * inc)) > 1.05 * inc) c.fail("scan-direction", fmt("direction %zu (%g degrees) shown at %g", i, (i + 0.5) * inc, g.z));
        }
        auto& k = rm.colors[3 * i];
        double wr, wg;
        if (std::isnan(sc.ranges[i])) wr = 1, wg = 0;
        else if (sc.ranges[i] > sc.range_max) wr = 0, wg = 1;
        else wg = sc.ranges[i] / sc.range_max, wr = 1 - wg;
        for (int j = 0; j < 3; j++)
          if (!vh::close(rm.colors[3 * i + j].r, wr, 1e-3) || !vh::close(rm.colors[3 * i + j].g, wg, 1e-3) || rm.colors[3 * i + j].b != 0 || !(rm.colors[3 * i + j].a > 0)) c.fail("scan-colour", fmt("distance %g of at most %g: red %g green %g", sc.ranges[i], sc.range_max, k.r, k.g));
        c.count("scan sectors");
      }
    }
    // images
    auto hi = only<sensor_msgs::Image>(c, "histogram_image", ok);
    auto ci = only<sensor_msgs::Image>(c, "cost_image", ok);
    if (!ok) return;
    const int E = GRID_LENGTH_E, Z = GRID_LENGTH_Z;
    for (auto im : {&hi, &ci}) {
      int px = im == &hi ? 1 : 3;
      if ((int)im->height != E || (int)im->width != Z || im->encoding != (px == 1 ? "mono8" : "rgb8") || im->step != im->width * px || im->data.size() != (size_t)im->step * im->height || !(im->header.stamp == ros::Time::now()))
        c.fail("image-format", fmt("%s image of %u x %u with rows of %u bytes and %zu bytes", im->encoding.c_str(), im->width, im->height, im->step, im->data.size()));
    }
    if (hi.data.size() != (size_t)E * Z || ci.data.size() != (size_t)3 * E * Z) return;
    // nearer is brighter; nothing is black
    for (int e = 0; e < E; e++)
      for (int z = 0; z < Z; z++) {
        double d = p.polar_histogram_.get_dist(e, z), w = d > 0.01 ? std::min(255., std::max(0., 255 - 255 * d / p.getSensorRange())) : 0;
        if (std::fabs(hi.data[(E - 1 - e) * Z + z] - w) > 1.001) c.fail("depth", fmt("distance %g of at most %g shown as %d", d, p.getSensorRange(), (int)hi.data[(E - 1 - e) * Z + z]));
        c.count(d > 0.01 ? "obstacle pixels" : "free pixels");
      }
    geo::Bin hb = geo::bin({0, vh::angDiff(90 - (double)getYawFromQuaternion(q), 0), 1}, ALPHA_RES, 0.01);
    geo::Bin wb = geo::bin(geo::hist(geo::d(wp), geo::d(pos)), ALPHA_RES, 0.05), ab = geo::bin(geo::hist(geo::d(ad), geo::d(pos)), ALPHA_RES, 0.05);
    auto near = [&](const V3& v) { return (v - pos).head<2>().norm() < 0.05; };
    hb.amb = std::fabs(std::remainder(vh::angDiff(90 - (double)getYawFromQuaternion(q), 0) + 180, ALPHA_RES)) < 0.01;  // elevation zero is a border, but no rounding
    hb.e = E / 2;
    if (p.cost_image_data_.size() == ci.data.size() && !hb.amb && !wb.amb && !ab.amb && !near(wp) && !near(ad)) {
      std::vector<uint8_t> want = p.cost_image_data_;
      auto px = [&](const geo::Bin& b, int col) -> uint8_t& { return want[((E - 1 - b.e) * Z + b.z) * 3 + col]; };
      px(hb, 2) = 255;
      px(wb, 0) = px(wb, 1) = px(wb, 2) = 255;
      px(ab, 1) = px(ab, 2) = 255;
      for (size_t i = 0; i < want.size(); i++)
        if (want[i] != ci.data[i]) {
          c.fail("cost-image", fmt("row %zu column %zu colour %zu is %d, expected %d (heading %g degrees in column %d, waypoint %d/%d, adapted %d/%d)", i / 3 / Z, i / 3 % Z, i % 3, (int)ci.data[i], (int)want[i], getYawFromQuaternion(q), hb.z, wb.e, wb.z, ab.e, ab.z));
          break;
        }
      c.count("cost images");
    }
    h << (int)own.size() << (int)closed.size() << (int)path.size();
    pos += V3(r.gauss(), r.gauss(), 0) * 0.5f;
  }
  c.distinct(h);
  if (c.index < 2) c.sample(fmt("%zu cameras, range %g", fov.size(), p.getSensorRange()));
}

// the node: what is drawn is what is sent
VH_SUITE(commands, 120, 3000) {
  auto& r = c.rng;
  rosmock::reset();
  double now = r.uni(10, 1000);
  rosmock::setTime(now);
  rosmock::bus().services["mavros/param/get"] = [](void*) { return false; };
  V3 goal(r.unif(-30, 30), r.unif(-30, 30), r.unif(2, 8));
  rosmock::bus().dparams["goal_x_param"] = goal.x(), rosmock::bus().dparams["goal_y_param"] = goal.y(), rosmock::bus().dparams["goal_z_param"] = goal.z();
  auto node = std::unique_ptr<LocalPlannerNodelet>(new LocalPlannerNodelet());
  node->onInit();
  mavros_msgs::State st;
  st.armed = r.chance(0.8), st.mode = r.pick<const char*>({"OFFBOARD", "AUTO.MISSION", "AUTO.LOITER", "AUTO.RTL"});
  rosmock::deliver("mavros/state", st);
  V3 pos(r.unif(-20, 20), r.unif(-20, 20), r.pick({r.unif(0, 8), goal.z()})), last = pos;
  V3 lastEnd[3];
  int lastId[3];
  bool first = true;
  vh::Hasher h;
  for (int k = 0, n = r.range(3, 25); k < n; k++) {
    geometry_msgs::PoseStamped m;
    float yaw = r.unif(-3, 3);
    m.pose.position = toPoint(pos);
    m.pose.orientation.w = std::cos(yaw / 2), m.pose.orientation.z = std::sin(yaw / 2);
    m.header.stamp = ros::Time::now();
    rosmock::deliver("mavros/local_position/pose", m);
    rosmock::clearLog();
    rosmock::fire(0.1);
    auto sp = rosmock::taken<geometry_msgs::PoseStamped>("mavros/setpoint_position/local");
    auto tr = rosmock::taken<mavros_msgs::Trajectory>("mavros/trajectory/generated");
    if (sp.empty()) {
      c.count("cycles without a setpoint");
      break;
    }
    c.evals(1);
    bool ok = true;
    M w[3] = {only<M>(c, "original_waypoint", ok), only<M>(c, "adapted_waypoint", ok), only<M>(c, "smoothed_waypoint", ok)};
    M seg[3] = {only<M>(c, "path_actual", ok), only<M>(c, "path_waypoint", ok), only<M>(c, "path_adapted_waypoint", ok)};
    M arrow = only<M>(c, "current_setpoint", ok);
    M off[2] = {only<M>(c, "closest_point", ok), only<M>(c, "deg60_point", ok)};
    if (!ok) return;
    for (int i = 0; i < 3; i++) marker(c, "waypoint", w[i], M::SPHERE), marker(c, "segment", seg[i], M::LINE_STRIP);
    for (int i = 0; i < 2; i++) marker(c, "off-track point", off[i], M::SPHERE);
    marker(c, "current_setpoint", arrow, M::ARROW);
    V3 cp(NAN, NAN, NAN), d6(NAN, NAN, NAN);
    node->wp_generator_->getOfftrackPointsForVisualization(cp, d6);
    if (!at(off[0].pose.position, cp) || !at(off[1].pose.position, d6)) c.fail("off-track", "the off-track points are not where they are shown");
    V3 s = toEigen(sp[0].pose.position);
    if (std::isfinite(s.x()) && !at(w[2].pose.position, s)) c.fail("setpoint-shown", "the setpoint " + str(s) + " is shown at " + str(toEigen(w[2].pose.position)));
    auto& o = node->wp_generator_->output_;
    if (!at(w[0].pose.position, o.goto_position) || !at(w[1].pose.position, o.adapted_goto_position) || !at(w[2].pose.position, o.smoothed_goto_position)) c.fail("waypoints-shown", "a waypoint is not where it is shown");
    V3 end[3] = {pos, o.smoothed_goto_position, o.adapted_goto_position}, start[3] = {last, lastEnd[1], lastEnd[2]};
    for (int i = 0; i < 3; i++) {
      if (seg[i].points.size() != 2) {
        c.fail("segment-points", fmt("%zu points", seg[i].points.size()));
        return;
      }
      if (!at(seg[i].points[1], end[i])) c.fail("segment-end", fmt("segment %d ends at ", i) + str(toEigen(seg[i].points[1])) + " instead of " + str(end[i]));
      if (!first && !at(seg[i].points[0], start[i])) c.fail("segment-start", fmt("segment %d starts at ", i) + str(toEigen(seg[i].points[0])) + ", the one before ended at " + str(start[i]));
      if (!first && seg[i].id == lastId[i]) c.fail("segment-id", "a segment replaces the one before");
      lastId[i] = seg[i].id, lastEnd[i] = end[i];
    }
    if (arrow.points.size() != 2 || !at(arrow.points[0], pos) || !at(arrow.points[1], pos + o.linear_velocity_wp)) c.fail("arrow", "the arrow is not the commanded velocity from the vehicle");
    int t = (int)o.waypoint_type;
    const float col[4][3] = {{0, 1, 0}, {1, 0, 1}, {1, 1, 0}, {0, 0, 1}};  // try path, altitude change, loiter, direct
    static const std::map<int, int> row = {{(int)PlannerState::TRY_PATH, 0}, {(int)PlannerState::ALTITUDE_CHANGE, 1}, {(int)PlannerState::LOITER, 2}, {(int)PlannerState::DIRECT, 3}};
    auto* k3 = col[row.at(t)];
    if (arrow.color.r != k3[0] || arrow.color.g != k3[1] || arrow.color.b != k3[2]) c.fail("arrow-colour", fmt("mode %d shown in colour %g %g %g", t, arrow.color.r, arrow.color.g, arrow.color.b));
    c.count(fmt("cycles in mode %d", t).c_str());
    h << t << s.x();
    first = false;
    last = pos;
    if (r.chance(0.5) && std::isfinite(s.x())) pos = s;
    else pos += V3(r.gauss(), r.gauss(), r.gauss() * 0.3f) * 0.3f;
    rosmock::setTime(now += 0.1);
  }
  node.reset();
  c.distinct(h);
}
