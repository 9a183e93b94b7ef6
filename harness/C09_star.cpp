// VH: libs=local_planner flavour=asan twin=1
// The look-ahead tree and the path taken from it, replayed from its published form: every expansion, child, cost and the
// order of expansion; and what the planner feeds into it.
#include <local_planner/local_planner.h>
#include <local_planner/planner_functions.h>
#include <local_planner/star_planner.h>
#include <local_planner/tree_node.h>
#include "geo.h"
#include "vh.h"
using namespace avoidance;
using Eigen::Vector3d;
using Eigen::Vector3f;
using vh::fmt;
typedef pcl::PointCloud<pcl::PointXYZI> Cloud;

namespace {
struct In {
  Cloud cloud;
  Vector3f goal, pos, vel, line;
  costParameters cost;
  LocalPlannerNodeConfig cfg;
};
Cloud obstacles(vh::Rng& r, const Vector3f& pos, const Vector3f& goal) {
  Cloud c;
  int walls = r.range(0, 4);
  for (int w = 0; w < walls; w++) {
    Vector3f dir = r.chance(0.6) ? Vector3f((goal - pos).normalized()) : Vector3f(Vector3f(r.gauss(), r.gauss(), 0.1f).normalized());
    Vector3f o = pos + dir * r.unif(1.f, 12.f);
    Vector3f side = Vector3f(-dir.y(), dir.x(), 0).normalized();
    float wd = r.unif(0.5f, 6.f), h = r.unif(0.5f, 4.f), st = r.pick({0.3f, 0.5f, 0.8f});
    for (float a = -wd; a <= wd; a += st)
      for (float b = -h; b <= h; b += st) {
        Vector3f p = o + side * a + Vector3f(0, 0, b);
        pcl::PointXYZI q;
        q.x = p.x(), q.y = p.y(), q.z = p.z(), q.intensity = 0;
        c.push_back(q);
      }
  }
  return c;
}
In draw(vh::Rng& r) {
  In in;
  in.pos = Vector3f(r.unif(-30, 30), r.unif(-30, 30), r.unif(0, 20));
  Vector3f d = Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.2f).normalized();
  in.goal = in.pos + d * r.pick({r.unif(1.f, 6.f), r.unif(6.f, 40.f), 100.f});
  in.vel = r.chance(0.3) ? Vector3f(0, 0, 0) : Vector3f(Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.3f) * r.unif(0.1f, 3.f));
  in.line = r.chance(0.5) ? in.goal : Vector3f(in.pos + Vector3f(r.gauss(), r.gauss(), 0) * 6.f);
  in.cloud = obstacles(r, in.pos, in.goal);
  auto& f = in.cfg;
  f = LocalPlannerNodeConfig();
  f.children_per_node_ = r.pick({8, 1, 2, 20, 0, r.range(1, 12)});
  f.n_expanded_nodes_ = r.chance(0.08) ? r.pick({40, 60}) : r.pick({10, 5, 3, 1, 20, 0});
  f.tree_node_distance_ = r.pick({2.0, 1.0, 0.5, 4.0, 0.0, 0.15, r.uni(0.3, 5)});
  f.max_sensor_range_ = r.pick({15.0, 6.0, 3.0, 40.0, r.uni(1, 20)});
  f.min_sensor_range_ = r.pick({0.2, 0.0, 1.0});
  f.smoothing_margin_degrees_ = r.pick({40.0, 0.0, 12.0, 20.0});
  f.tree_heuristic_weight_ = r.pick({35.0, 0.0, 10.0, r.uni(0, 50)});
  f.pitch_cost_param_ = in.cost.pitch_cost_param = r.pick({25.f, 3.f, r.unif(0, 30)});
  f.yaw_cost_param_ = in.cost.yaw_cost_param = r.pick({3.f, 0.5f, r.unif(0, 20)});
  f.velocity_cost_param_ = in.cost.velocity_cost_param = r.pick({6000.f, 1.f, 0.f, r.unif(0, 20000)});
  f.obstacle_cost_param_ = in.cost.obstacle_cost_param = r.pick({8.5f, 5.f, r.unif(0, 20)});
  return in;
}
std::string show(const In& in) {
  Vector3f g = in.goal - in.pos;
  return fmt("goal offset (%g %g %g), %zu obstacle points, %d children, %d expansions, node distance %g, range %g, heuristic weight %g", g.x(), g.y(), g.z(), in.cloud.size(), in.cfg.children_per_node_,
             in.cfg.n_expanded_nodes_, in.cfg.tree_node_distance_, in.cfg.max_sensor_range_, in.cfg.tree_heuristic_weight_);
}
void feed(StarPlanner& s, const In& in) {
  s.dynamicReconfigureSetStarParams(in.cfg, 0);
  s.setParams(in.cost);
  s.setPose(in.pos, in.vel);
  s.setGoal(in.goal);
  s.setPointcloud(in.cloud);
  s.setClosestPointOnLine(in.line);
}
// Is this a tree the specification allows for these inputs?
void judge(vh::Case& c, const In& in, const std::vector<TreeNode>& t, const std::vector<int>& closed, const std::vector<Vector3f>& path) {
  const std::string ctx = show(in) + ": ";
  const double D = (float)in.cfg.tree_node_distance_, R = (float)in.cfg.max_sensor_range_, W = (float)in.cfg.tree_heuristic_weight_;
  const Vector3d pos = geo::d(in.pos), goal = geo::d(in.goal);
  auto P = [&](int i) { return geo::d(t[i].getPosition()); };
  if (t.empty() || t[0].getPosition() != in.pos || t[0].getVelocity() != in.vel || t[0].depth_ != 0) {
    c.fail("root", ctx + "the tree does not start at the vehicle");
    return;
  }
  double h0 = (goal - pos).norm() * W;
  if (!vh::close(t[0].heuristic_, h0, 1e-2, 1e-5) || !vh::close(t[0].total_cost_, t[0].heuristic_, 1e-3 + 1e-6 * h0)) {
    if (!(in.cfg.children_per_node_ == 0)) c.fail("root-cost", ctx + fmt("%g / %g, expected %g", t[0].heuristic_, t[0].total_cost_, h0));
  }
  if ((int)closed.size() > in.cfg.n_expanded_nodes_) {
    c.fail("expansions", ctx + fmt("%zu nodes expanded", closed.size()));
    return;
  }
  std::vector<char> isClosed(t.size(), 0);
  size_t T = 1;
  bool amb = false;
  for (size_t k = 0; k < closed.size(); k++) {
    int n = closed[k];
    if (n < 0 || n >= (int)T || isClosed[n]) {
      c.fail("expanded-node", ctx + fmt("expansion %zu is of node %d", k, n));
      return;
    }
    // the order of expansion: the cheapest open node within range
    if (k == 0) {
      if (n != 0) c.fail("first-expansion", ctx + fmt("node %d", n));
    } else {
      double best = HUGE_VAL;
      for (size_t i = 0; i < T; i++)
        if (!isClosed[i] && (P(i) - pos).norm() < R - 1e-3) best = std::min(best, (double)t[i].total_cost_);
      if (t[n].total_cost_ > best + 1e-3 + 1e-5 * std::fabs(best)) c.fail("order", ctx + fmt("expansion %zu takes node %d of cost %g although one of cost %g is open", k, n, t[n].total_cost_, best));
      if ((P(n) - pos).norm() > R + 1e-3) c.fail("out-of-range", ctx + fmt("expansion %zu takes node %d, %g m away", k, n, (P(n) - pos).norm()));
    }
    if (!t[n].closed_) c.fail("closed-flag", ctx + fmt("expanded node %d is not marked", n));
    isClosed[n] = 1;
    // its children
    Histogram hist(ALPHA_RES);
    generateNewHistogram(hist, in.cloud, t[n].getPosition());
    Eigen::MatrixXf cm;
    std::vector<uint8_t> img;
    std::vector<candidateDirection> cand;
    getCostMatrix(hist, in.goal, t[n].getPosition(), t[n].getVelocity(), in.cost, in.cfg.smoothing_margin_degrees_, in.line, R, in.cfg.min_sensor_range_, cm, img);
    getBestCandidatesFromCostMatrix(cm, in.cfg.children_per_node_, cand);
    size_t e = T;
    while (e < t.size() && t[e].origin_ == n) e++;
    size_t next = T;
    double g = (double)t[n].total_cost_ - t[n].heuristic_;
    for (auto& cd : cand) {
      Vector3d at = geo::unhist({cd.elevation_angle, cd.azimuth_angle, D}, P(n));
      double close = HUGE_VAL;
      for (size_t i = 0; i < next; i++) close = std::min(close, (P(i) - at).norm());
      bool here = next < e && (P(next) - at).norm() < 2e-3 + 1e-6 * at.norm();
      c.evals(1);
      if (std::fabs(close - 0.2) < 1e-3) {  // rounding decides
        amb = true;
        if (here) next++;
        continue;
      }
      if (close < 0.2) {
        if (here) {
          c.fail("crowded", ctx + fmt("node %zu lies %g m from another node", next, close));
          next++;
        }
        continue;
      }
      if (!here) {
        c.fail("child-missing", ctx + fmt("expansion %zu of node %d: no child towards (e %g, z %g); the %zu-th child is elsewhere", k, n, cd.elevation_angle, cd.azimuth_angle, next - T));
        return;
      }
      const TreeNode& x = t[next];
      double h = (goal - P(next)).norm() * W, want = g + cd.cost + h, mag = std::fabs(g) + std::fabs(cd.cost) + h + t[n].heuristic_;
      if (!vh::close(x.heuristic_, h, 1e-2, 1e-5)) c.fail("heuristic", ctx + fmt("node %zu: %g, expected %g", next, x.heuristic_, h));
      if (!vh::close(x.total_cost_, want, 1e-2 + 2e-6 * mag)) c.fail("cost", ctx + fmt("node %zu: %g, expected %g", next, x.total_cost_, want));
      if (x.depth_ != t[n].depth_ + 1) c.fail("depth", ctx + fmt("node %zu at depth %d under depth %d", next, x.depth_, t[n].depth_));
      if ((geo::d(x.getVelocity()) - (P(next) - P(n))).norm() > 1e-3) c.fail("node-velocity", ctx + fmt("node %zu", next));
      next++;
      c.count("children checked");
    }
    if (next != e) {
      c.fail("extra-children", ctx + fmt("expansion %zu of node %d: %zu children, expected %zu", k, n, e - T, next - T));
      return;
    }
    if ((int)(e - T) > in.cfg.children_per_node_) c.fail("children", ctx + fmt("node %d has %zu", n, e - T));
    T = e;
  }
  if (T != t.size()) {
    c.fail("orphans", ctx + fmt("%zu nodes belong to no expansion", t.size() - T));
    return;
  }
  for (size_t i = 0; i < t.size(); i++)
    if (t[i].closed_ != (bool)isClosed[i]) c.fail("closed-flag", ctx + fmt("node %zu", i));
  // it only stops early when nothing is left to expand
  if ((int)closed.size() < in.cfg.n_expanded_nodes_)
    for (size_t i = 0; i < t.size(); i++)
      if (!isClosed[i] && (P(i) - pos).norm() < R - 1e-3 && t[i].total_cost_ < 1e30f) {
        c.fail("stopped-early", ctx + fmt("%zu expansions, node %zu still open", closed.size(), i));
        break;
      }
  // the path: from a deepest open node back to the vehicle
  int deep = 0;
  for (size_t i = 0; i < t.size(); i++)
    if (!isClosed[i]) deep = std::max(deep, t[i].depth_);
  bool ok = false;
  int first = -1;
  for (size_t i = 0; i < t.size() && !ok; i++) {
    if (deep > 0 && (isClosed[i] || t[i].depth_ != deep)) continue;
    if (deep == 0 && i != 0) continue;
    if (first < 0) first = i;
    int n = i;
    size_t q = 0;
    while (q < path.size() && path[q] == t[n].getPosition()) {
      q++;
      if (n == 0) break;
      n = t[n].origin_;
    }
    ok = q == path.size() && n == 0 && q > 0 && (path.size() == (size_t)deep + 1);
    if (ok && (int)i != first) c.fail("path-choice", ctx + fmt("the path ends in node %zu, the first node at depth %d is %d", i, deep, first));
  }
  if (!ok) c.fail("path", ctx + fmt("the %zu path nodes are not the way from a deepest open node (depth %d) back to the vehicle", path.size(), deep));
  c.count("trees");
  c.count("expansions", closed.size());
  c.count("path nodes", path.size());
  if (closed.size() > 1) c.distinct(vh::Hasher() << (int)t.size() << (int)closed.size() << (int)path.size() << t.back().total_cost_);
  if (amb) c.count("trees with a rounding-decided neighbour");
}
vh::Hasher digest(const std::vector<TreeNode>& t, const std::vector<Vector3f>& path) {
  vh::Hasher h;
  for (auto& n : t) h << n.total_cost_ << n.heuristic_ << n.origin_ << n.depth_ << n.getPosition().x();
  for (auto& p : path) h << p.x() << p.y() << p.z();
  return h;
}
}  // namespace

VH_SUITE(tree, 320, 8000) {
  auto& r = c.rng;
  StarPlanner s;
  int rounds = r.range(1, 2);  // nothing of an earlier tree remains
  for (int k = 0; k < rounds; k++) {
    In in = draw(r);
    feed(s, in);
    s.buildLookAheadTree();
    judge(c, in, s.tree_, s.closed_set_, s.path_node_positions_);
    c.digest(digest(s.tree_, s.path_node_positions_));
    if (c.index < 2 && !k) c.sample(show(in) + fmt(": %zu nodes, path of %zu", s.tree_.size(), s.path_node_positions_.size()));
  }
}

// the whole planner: the tree is built from the planner's own cloud, the vehicle's state, the goal and the line to it
VH_SUITE(planner, 200, 4000) {
  auto& r = c.rng;
  rosmock::reset();
  double now = 1000;
  rosmock::setTime(now);
  LocalPlanner p;
  p.setDefaultPx4Parameters();
  p.px4_.param_cp_dist = r.pick({4.f, -1.f});
  p.px4_.param_mpc_xy_cruise = r.pick({3.f, 0.5f, 8.f});
  In in = draw(r);
  in.cfg.n_expanded_nodes_ = r.pick({3, 5, 8});
  in.cfg.max_point_age_s_ = 10;
  in.cfg.min_num_points_per_cell_ = 1;
  in.cfg.goal_z_param = in.goal.z();
  p.setGoal(in.goal);
  LocalPlannerNodeConfig cfg = in.cfg;
  p.dynamicReconfigureSetParams(cfg, 0);
  p.setFOV(0, FOV(0, 0, 90, 60));
  std::vector<TreeNode> t0;
  std::vector<int> cl0;
  std::vector<Vector3f> path0;
  ros::Time builtAt;
  int rounds = r.range(1, 4);
  for (int k = 0; k < rounds; k++) {
    Vector3f prev = r.chance(0.3) ? in.goal : Vector3f(in.pos - Vector3f(r.gauss(), r.gauss(), 0) * r.pick({0.5f, 10.f, 30.f}));
    p.setPreviousGoal(prev);
    Eigen::Quaternionf q(Eigen::AngleAxisf(r.unif(-3.1f, 3.1f), Vector3f::UnitZ()));
    p.setState(in.pos, in.vel, q);
    p.original_cloud_vector_.assign(1, pcl::PointCloud<pcl::PointXYZ>());
    if (r.chance(0.8))
      for (auto& o : obstacles(r, in.pos, in.goal).points) p.original_cloud_vector_[0].push_back(pcl::PointXYZ(o.x, o.y, o.z));
    rosmock::setTime(now += r.pick({0.1, 0.5, 30.0}));
    p.runPlanner();
    std::vector<TreeNode> t;
    std::vector<int> cl;
    std::vector<Vector3f> path;
    p.getTree(t, cl, path);
    avoidanceOutput out = p.getAvoidanceOutput();
    if (out.path_node_positions != path) c.fail("output-path", "the path handed on is not the tree's");
    bool seen = false;
    {
      Histogram h(ALPHA_RES);
      generateNewHistogram(h, p.getPointcloud(), in.pos);
      seen = !h.isEmpty();
    }
    if (!seen) {  // nothing to avoid: no new plan
      bool same = t.size() == t0.size() && cl == cl0 && path == path0 && out.last_path_time == builtAt;
      if (!same) c.fail("planned-without-obstacles", "a plan was made although nothing is seen");
      c.count("iterations without obstacles");
    } else {
      builtAt = ros::Time::now();
      if (out.last_path_time != builtAt) c.fail("path-time", fmt("plan made at %.3f is stamped %.3f", builtAt.toSec(), out.last_path_time.toSec()));
      // projection of the vehicle on the line from the previous goal; the goal when close to the line
      Eigen::Vector2d g = geo::d(in.goal).head<2>(), a = geo::d(prev).head<2>(), b = geo::d(in.pos).head<2>(), pr = g;
      bool amb = false;
      double len = (g - a).norm();
      if (len > 0.001) {
        Eigen::Vector2d u = (g - a) / len;
        pr = a + u * u.dot(b - a);
        double off = (b - pr).norm(), lim = p.px4_.param_mpc_xy_cruise;
        amb = std::fabs(off - lim) < 1e-3;
        if (off < lim) pr = g;
      }
      if (!amb && (len > 0.01 || len == 0)) {
        in.line = Vector3f(pr.x(), pr.y(), in.goal.z());
        // the projection differs from the planner's own by rounding only: compare against a tree built from it
        In in2 = in;
        in2.cloud = p.getPointcloud();
        StarPlanner s;
        feed(s, in2);
        s.buildLookAheadTree();
        judge(c, in2, s.tree_, s.closed_set_, s.path_node_positions_);
        // rounding of the projected point may swap directions of almost equal cost; the first expansion decides
        size_t n1 = std::min<size_t>(t.size(), 1 + in.cfg.children_per_node_), n2 = std::min<size_t>(s.tree_.size(), 1 + in.cfg.children_per_node_);
        double c1 = 0, c2 = 0;
        for (size_t i = 0; i < n1; i++) c1 += t[i].origin_ == 0 ? t[i].total_cost_ : 0;
        for (size_t i = 0; i < n2; i++) c2 += s.tree_[i].origin_ == 0 ? s.tree_[i].total_cost_ : 0;
        if (in.cfg.children_per_node_ && !vh::close(c1, c2, 1 + 2e-3 * std::fabs(c2))) c.fail("planner-inputs", show(in2) + fmt(": the first directions cost %g in total, expected %g (previous goal offset %g %g)", c1, c2, prev.x() - in.pos.x(), prev.y() - in.pos.y()));
        if (path.empty() || path.back() != in.pos) c.fail("path-start", "the path does not start at the vehicle");
        c.count("plans compared");
      }
    }
    t0 = t;
    cl0 = cl;
    path0 = path;
    c.digest(digest(t, path));
    in.pos += Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.2f) * r.pick({0.1f, 1.f});
    if (r.chance(0.2)) {
      in.goal = in.pos + Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.1f).normalized() * r.unif(2.f, 30.f);
      p.setGoal(in.goal);
    }
  }
}
