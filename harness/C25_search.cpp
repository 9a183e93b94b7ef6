// VH: libs=global_planner flavour=asan twin=1
// Path search: against Dijkstra on random graphs of the planner's own nodes; and the whole planner in random worlds, every
// path it returns checked edge by edge, and every reachable goal reached.
#include "gp_world.h"
#include <queue>
using namespace gpw;
using vh::fmt;

namespace {
// A planner with arbitrary costs, for the search template
struct Stub {
  uint64_t seed;
  double block, cmin, w, radius;
  int R;
  bool smooth;
  mutable long legalCalls = 0;
  uint64_t hash(const Node& n, uint64_t k) const {
    vh::Hasher h;
    h << seed << k << n.cell_.xIndex() << n.cell_.yIndex() << n.cell_.zIndex();
    if (smooth) h << n.parent_.xIndex() << n.parent_.yIndex() << n.parent_.zIndex();
    uint64_t z = h.h;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  bool isLegal(const Node& n) const {
    legalCalls++;
    const Cell& k = n.cell_;
    if (std::abs(k.xIndex()) > R || std::abs(k.yIndex()) > R || std::abs(k.zIndex()) > 1) return false;
    Cell zero(T3(0, 0, 0));
    return (hash(Node(k, zero), 1) % 1000) / 1000.0 >= block;
  }
  double getEdgeCost(const Node& u, const Node& v) const {
    double x = (hash(v, 2) % 1000) / 1000.0 * 3 + (smooth ? (hash(u, 3) % 1000) / 1000.0 : 0);
    return cmin * u.cell_.distance3D(v.cell_) * (1 + x) + 1e-3;
  }
  double getHeuristic(const Node& u, const Cell& t) const { return w * std::max(0.0, cmin * (u.cell_.distance3D(t) - radius / 2)); }
};
struct Less {
  bool operator()(const std::pair<double, NodePtr>& a, const std::pair<double, NodePtr>& b) const { return a.first > b.first; }
};
// cost of the cheapest path, or infinity
double dijkstra(const Stub& s, const NodePtr& start, const GoalCell& t, bool& overflow) {
  std::unordered_map<NodePtr, double, HashNodePtr, EqualsNodePtr> dist;
  std::unordered_set<NodePtr, HashNodePtr, EqualsNodePtr> done;
  std::priority_queue<std::pair<double, NodePtr>, std::vector<std::pair<double, NodePtr>>, Less> q;
  q.push({0.0, start});
  dist[start] = 0;
  while (!q.empty()) {
    auto top = q.top();
    q.pop();
    if (!done.insert(top.second).second) continue;
    if (done.size() > 60000) return overflow = true, 0;
    if (t.withinPlanRadius(top.second->cell_)) return top.first;
    for (auto& v : top.second->getNeighbors()) {
      if (!s.isLegal(*v)) continue;
      double d = top.first + s.getEdgeCost(*top.second, *v);
      auto it = dist.find(v);
      if (it == dist.end() || d < it->second) dist[v] = d, q.push({d, v});
    }
  }
  return INFINITY;
}
NodePtr make(int kind, const Cell& c, const Cell& p) {
  if (kind == 0) return NodePtr(new Node(c, p));
  if (kind == 1) return NodePtr(new NodeWithoutSmooth(c, p));
  return NodePtr(new SpeedNode(c, p));
}
}  // namespace

VH_SUITE(graphs, 3000, 80000) {
  quiet();
  auto& r = c.rng;
  CELL_SCALE = 1.0;
  SPEEDNODE_RADIUS = r.pick({2.0, 2.5, 0.0});
  Stub s;
  s.seed = r.next();
  s.block = r.pick({0.0, 0.2, 0.4, 0.55});
  s.cmin = r.uni(0.1, 5);
  s.w = r.pick({0.0, 1.0, 1.0, r.uni(1, 5)});
  s.radius = r.pick({1.0, 2.5, r.uni(0.1, 6)});
  int kind = r.range(0, 2);
  s.R = kind == 1 ? r.range(2, 7) : r.range(1, 4);
  s.smooth = kind != 1;
  auto any = [&] { return Cell(T3(r.range(-s.R, s.R), r.range(-s.R, s.R), r.range(-1, 1))); };
  Cell sc = any(), sp = r.chance(0.3) ? sc : Cell(T3(sc.xIndex() + r.range(-1, 1), sc.yIndex() + r.range(-1, 1), sc.zIndex()));
  GoalCell t(any(), s.radius);
  NodePtr start = make(kind, sc, sp);
  bool overflow = false;
  double best = dijkstra(s, start, t, overflow);
  if (overflow) return;
  int iters = r.chance(0.2) ? r.range(0, 60) : 1000000;
  std::vector<Cell> path;
  SearchInfo info = findSmoothPath(&s, path, start, t, iters);
  if (info.num_iter > iters) c.fail("iterations", fmt("%d iterations, %d allowed", info.num_iter, iters));
  if (!info.found_path) {
    if (!path.empty()) c.fail("path_without_success", "an unsuccessful search returns a path");
    if (std::isfinite(best) && info.num_iter < iters) c.fail("gave_up", fmt("no path found in %d iterations although there is one of cost %g", info.num_iter, best));
    c.count(std::isfinite(best) ? "searches out of time" : "unreachable goals");
    CELL_SCALE = 1.0, SPEEDNODE_RADIUS = 5.0;
    return;
  }
  c.count("paths found");
  if (!std::isfinite(best)) c.fail("impossible", "a path was found to an unreachable goal");
  if (path.size() < 2 || path[0] != sp || path[1] != sc) c.fail("start", "the path does not start with where the search started from");
  else if (!t.withinPlanRadius(path.back())) c.fail("goal", "the path does not end at the goal");
  else {
    double cost = 0;
    NodePtr u = start;
    for (size_t i = 2; i < path.size(); i++) {
      NodePtr v = u->nextNode(path[i]);
      bool step = false;
      for (auto& x : u->getNeighbors()) step |= x->cell_ == path[i];
      if (!step) c.fail("step", fmt("the path jumps from %s to %s", str(path[i - 1]).c_str(), str(path[i]).c_str()));
      if (!s.isLegal(*v)) c.fail("legal", "the path contains an illegal edge");
      cost += s.getEdgeCost(*u, *v);
      u = v;
      c.evals(1);
    }
    double bound = best * std::max(1.0, s.w);
    if (cost > bound * (1 + 1e-9) + 1e-6) c.fail("optimal", fmt("cost %.9g, the cheapest path costs %.9g and the heuristic overestimates by %g", cost, best, s.w));
    if (cost < best - 1e-6) c.fail("too_cheap", "the path is cheaper than the cheapest");
    c.distinct(vh::Hasher() << (int)path.size() << (int)(cost * 10));
    c.digest(vh::Hasher() << cost << (int)path.size());
  }
  CELL_SCALE = 1.0, SPEEDNODE_RADIUS = 5.0;
}

VH_SUITE(planner, 500, 12000) {
  quiet();
  auto& r = c.rng;
  CELL_SCALE = r.pick({1.0, 1.0, 1.0, 0.5});
  double sc = CELL_SCALE;
  Setup s;
  GlobalPlanner& gp = s.gp;
  s.params(r, true);
  gp.default_node_type_ = r.pick<std::string>({"Node", "NodeWithoutSmooth", "SpeedNode", "SpeedNode"});
  gp.max_overestimate_factor_ = r.pick({2.0, 2.0, 1.2, r.uni(1, 5)});
  gp.min_overestimate_factor_ = std::min(gp.max_overestimate_factor_, r.pick({1.03, 1.0, r.uni(1, 1.5)}));
  gp.use_current_yaw_ = r.chance(0.7);
  gp.use_risk_heuristics_ = r.chance(0.8), gp.use_speedup_heuristics_ = r.chance(0.8);
  gp.goal_must_be_free_ = r.chance(0.8);
  gp.max_iterations_ = r.pick({2000, 2000, 600, 50, 0});
  gp.search_time_ = r.uni(0, 1);
  if (r.chance(0.7)) s.m.max_risk = gp.max_cell_risk_ = 0.2, s.m.explore = gp.explore_penalty_ = 0.005;
  const int iters = gp.max_iterations_;
  // an arena, walled in or open, with pillars, walls with gaps, slabs
  World w;
  int L = r.range(3, 6), H = (int)(std::min(s.m.max_alt, 9.0));
  auto block = [&](int x, int y, int z) { w.voxel[T3(x, y, z)] = 3.5f; };
  if (r.chance(0.6))
    for (int x = -L; x <= L; x++)
      for (int y = -L; y <= L; y++)
        for (int z = 0; z <= H; z++) w.voxel[T3(x, y, z)] = -2.f;
  bool walled = r.chance(0.5);
  if (walled)
    for (int k = -L - 1; k <= L + 1; k++)
      for (int z = 0; z <= (int)s.m.max_alt + 1; z++) block(k, L + 1, z), block(k, -L - 1, z), block(L + 1, k, z), block(-L - 1, k, z);
  for (int k = r.range(0, 4); k > 0; k--) {
    int x = r.range(-L, L), y = r.range(-L, L), top = r.range(1, H);
    for (int z = 0; z <= top; z++) block(x, y, z);
  }
  if (r.chance(0.4)) {
    int x = r.range(-1, 1), gap = r.range(-L, L), top = r.pick({3, H, (int)s.m.max_alt});
    for (int y = -L; y <= L; y++)
      for (int z = 0; z <= top; z++)
        if (std::abs(y - gap) > r.range(0, 3)) block(x, y, z);
  }
  if (r.chance(0.2)) {
    int z = r.range(3, std::max(3, H));
    for (int x = -L; x <= L; x++)
      for (int y = -L; y <= L; y++) block(x, y, z);
  }
  s.update(w);
  auto at = [&] {
    geometry_msgs::Point p;
    p.x = r.uni(-L, L), p.y = r.uni(-L, L), p.z = r.uni(2, H - 0.5);
    return p;
  };
  for (int round = 0; round < 2; round++) {
    geometry_msgs::PoseStamped ps;
    ps.pose.position = at();
    if (r.chance(0.05)) ps.pose.position.z = s.m.max_alt + r.uni(0, 4);
    ps.pose.orientation.w = 1;
    gp.setPose(ps);
    gp.curr_vel_.x = r.pick({0.0, r.uni(-2, 2)}), gp.curr_vel_.y = r.pick({0.0, r.uni(-2, 2)}), gp.curr_vel_.z = r.pick({0.0, r.uni(-.5, .5)});
    geometry_msgs::Point gpt = at();
    if (r.chance(0.05)) gpt.z = s.m.max_alt + r.uni(-1, 3);
    if (r.chance(0.1)) gpt = ps.pose.position;  // already there
    GoalCell goal(gpt.x, gpt.y, gpt.z, r.pick({1.0, 1.0, r.uni(0.2, 5)}));
    gp.setGoal(goal);
    if (gp.goal_is_blocked_) c.fail("blocked_after_goal", "a new goal is considered blocked before any search");
    std::vector<Cell> before = gp.curr_path_;
    double k = gp.search_time_;
    geometry_msgs::Point a = gp.curr_pos_, b = gp.curr_pos_;
    a.x += k * gp.curr_vel_.x, a.y += k * gp.curr_vel_.y, a.z += k * gp.curr_vel_.z;
    b.x -= k * gp.curr_vel_.x, b.y -= k * gp.curr_vel_.y, b.z -= k * gp.curr_vel_.z;
    Cell start(a), parent = gp.use_current_yaw_ ? Cell(b) : start, here(gp.curr_pos_);
    const Cell target = goal;
    bool found = gp.getGlobalPath();
    if (gp.max_iterations_ != iters) c.fail("parameter", fmt("a search changed max_iterations from %d to %d", iters, gp.max_iterations_)), gp.max_iterations_ = iters;
    double goalRisk = s.m.cell(target), hereRisk = s.m.single(here);
    bool goalBad = gp.goal_must_be_free_ && goalRisk > s.m.max_risk + 1e-9, goalSure = !gp.goal_must_be_free_ || std::fabs(goalRisk - s.m.max_risk) > 1e-6;
    bool hereBad = hereRisk > 0.5, hereSure = std::fabs(hereRisk - 0.5) > 1e-6;
    if (hereSure && gp.current_cell_blocked_ != hereBad) c.fail("here", "the vehicle's own cell is wrongly judged");
    // which cells can be reached at all over legal edges (nodes without direction)?
    long reach = 0;
    bool reachable = false, capped = false;
    {
      std::set<T3> seen{start.tpl_};
      std::vector<Cell> todo{start};
      while (!todo.empty() && !capped) {
        Cell u = todo.back();
        todo.pop_back();
        reach++;
        if (reach > iters) capped = true;
        if (goal.withinPlanRadius(u)) reachable = true;
        for (auto& v : u.getNeighbors())
          if (!seen.count(v.tpl_) && v.zPos() < s.m.max_alt && s.m.edge(Node(v, u)) < s.m.max_risk - 1e-9) seen.insert(v.tpl_), todo.push_back(v);
      }
    }
    if (!found) {
      if (!(gp.curr_path_ == before)) c.fail("path_changed", "an unsuccessful search changed the current path");
      if (hereSure && goalSure && !(hereBad && !goalBad) && !gp.goal_is_blocked_) c.fail("not_blocked", "no path was found but the goal is not considered blocked");
      if (goalSure && hereSure && !goalBad && !hereBad && reachable && !capped && (gp.max_overestimate_factor_ > 1.5 || gp.default_node_type_ == "NodeWithoutSmooth") && gp.max_overestimate_factor_ >= gp.min_overestimate_factor_)
        c.fail("gave_up", fmt("no path from %s to %s although only %ld cells are reachable and the goal is among them", str(start).c_str(), str(target).c_str(), reach));
      c.count(goalBad ? "refused: goal occupied" : hereBad ? "refused: vehicle in an obstacle" : "no path");
      continue;
    }
    c.count("paths");
    if (goalSure && goalBad) c.fail("goal_occupied", "a path to an occupied goal was accepted");
    if (hereSure && hereBad && !goalBad) c.fail("here_occupied", "a path was planned out of an obstacle");
    const std::vector<Cell>& p = gp.curr_path_;
    if (p.size() < 2) {
      c.fail("short", "a path found has fewer than two cells");
      continue;
    }
    // either every edge is legal, or it is the last-resort path along the top
    std::string why, why2;
    auto bad = [](std::string& x, const std::string& y) {
      if (x.empty()) x = y;
    };
    if (p[0] != parent || p[1] != start) bad(why, "does not start at " + str(start) + " coming from " + str(parent));
    if (!goal.withinPlanRadius(p.back())) bad(why, "does not end at the goal");
    for (size_t i = 2; i < p.size(); i++) {
      double e = s.m.edge(Node(p[i], p[i - 1]));
      if (!(e < s.m.max_risk + 1e-6)) bad(why, fmt("has an edge %s->%s with risk %g", str(p[i - 1]).c_str(), str(p[i]).c_str(), e));
      if (p[i].zPos() >= s.m.max_alt) bad(why, "is above the maximum altitude at " + str(p[i]));
      bool step = false;
      for (auto& x : p[i - 1].getNeighbors()) step |= x == p[i];
      for (auto& x : SpeedNode(p[i - 1], p[i - 2]).getNeighbors()) step |= x->cell_ == p[i] && gp.default_node_type_ == "SpeedNode";
      if (!step) bad(why, "jumps to " + str(p[i]));
      c.evals(1);
    }
    if (!why.empty()) {  // last resort
      c.count("last-resort paths");
      if (p[0] != start) bad(why2, "starts at " + str(p[0]));
      if (p.back() != target) bad(why2, "ends at " + str(p.back()));
      for (size_t i = 1; i < p.size(); i++) {
        bool step = p[i] == p[i - 1];
        for (auto& x : p[i - 1].getNeighbors()) step |= x == p[i];
        if (!step) bad(why2, "jumps from " + str(p[i - 1]) + " to " + str(p[i]));
        if (p[i] != start && p[i] != target && s.m.cell(p[i]) > s.m.max_risk + 1e-6) bad(why2, fmt("enters %s with risk %g", str(p[i]).c_str(), s.m.cell(p[i])));
        if (p[i].zPos() >= s.m.max_alt && p[i].zPos() > start.zPos()) bad(why2, "is above the maximum altitude at " + str(p[i]));
        c.evals(1);
      }
      if (!why2.empty()) c.fail("path", "a path " + why + "; and as a last resort it " + why2);
      if (reachable && !capped && gp.max_overestimate_factor_ > 1.5 && goalSure) c.fail("last_resort", "the last-resort path was taken although the search can reach the goal");
    }
    c.distinct(vh::Hasher() << (int)p.size() << p[1].xIndex() << p.back().xIndex() << p.back().yIndex());
    c.digest(vh::Hasher() << (int)p.size() << p[p.size() / 2].xIndex());
    c.count(sc == 1 ? "cells of 1 m" : "cells of 0.5 m");
  }
  CELL_SCALE = 1.0;
}
