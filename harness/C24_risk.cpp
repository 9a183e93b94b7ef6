// VH: libs=global_planner flavour=asan twin=1
// Risk and cost of cells and edges over histories of maps, against a double-precision model of the documented formulas.
#include "gp_world.h"
using namespace gpw;
using vh::fmt;

namespace {
const double PI = 3.14159265358979323846;
geometry_msgs::PoseStamped pose(double x, double y, double z) {
  geometry_msgs::PoseStamped p;
  p.pose.position.x = x, p.pose.position.y = y, p.pose.position.z = z;
  p.pose.orientation.w = 1;
  return p;
}
}  // namespace

VH_SUITE(risk, 1200, 60000) {
  quiet();
  auto& r = c.rng;
  CELL_SCALE = r.pick({1.0, 1.0, 1.0, 0.5, 2.0});
  Setup s;
  GlobalPlanner& gp = s.gp;
  s.params(r);
  if (r.chance(0.1)) {  // before any map everything is a risk
    Cell k(T3(r.range(-5, 5), r.range(-5, 5), r.range(-3, 30)));
    if (gp.getSingleCellRisk(k) != 1.0) c.fail("no_map", "without a map a cell has a risk other than one");
    if (!vh::close(gp.getRisk(k), s.m.cell(k), 1e-9, 1e-6)) c.fail("no_map_cell", "without a map a cell's risk is not that of it and those around it");
    if (s.m.max_risk < 0.4 && gp.isLegal(Node(k, k.getNeighbors()[0]))) c.fail("no_map_legal", "without a map an edge is legal");
  }
  World w;
  int steps = r.range(1, 4);
  auto anyCell = [&](int zlo, int zhi) { return Cell(T3(r.range(-7, 7), r.range(-7, 7), r.range(zlo, zhi))); };
  for (int step = 0; step < steps; step++) {
    // the next map: obstacles appear and vanish
    if (r.chance(0.2)) w.voxel.clear();
    if (step == 0) w.res = r.pick({1.0, 1.0, 0.5});
    int n = r.range(0, 120);
    for (int i = 0; i < n; i++) w.voxel[T3(r.range(-8, 8), r.range(-8, 8), r.range(0, 12))] = anyLogOdds(r);
    if (!w.voxel.empty() && r.chance(0.5))
      for (auto it = w.voxel.begin(); it != w.voxel.end();) it = r.chance(0.2) ? w.voxel.erase(it) : std::next(it);
    if (r.chance(0.4)) s.params(r);
    for (int i = r.range(0, 10); i > 0; i--) {
      Cell k = anyCell(0, 10);
      gp.occupied_.insert(k), s.m.occupied.insert(k.tpl_);
    }
    s.update(w);
    if (r.chance(0.2)) gp.updateFullOctomap(r.chance(0.5) ? (octomap::AbstractOcTree*)new octomap::ColorOcTree(0.3) : nullptr);  // no map: keeps the current one
    c.count("maps");
    gp.setPose(pose(r.uni(-6, 6), r.uni(-6, 6), r.uni(0, 8)));
    gp.curr_vel_.x = r.uni(-2, 2), gp.curr_vel_.y = r.pick({0.0, r.uni(-2, 2)}), gp.curr_vel_.z = 0;
    Cell goal = anyCell(r.chance(0.2) ? -3 : 1, r.chance(0.2) ? 60 : 9);
    gp.setGoal(GoalCell(goal));
    for (int q = 0; q < 25; q++) {
      Cell k = anyCell(r.chance(0.2) ? -40 : 0, r.chance(0.2) ? 60 : 11);
      double one = s.m.single(k), all = s.m.cell(k);
      if (!vh::close(gp.getSingleCellRisk(k), one, 1e-9, 1e-6)) c.fail("single", fmt("risk of %s alone is %.9g, expected %.9g", str(k).c_str(), gp.getSingleCellRisk(k), one));
      if (!vh::close(gp.getRisk(k), all, 1e-9, 1e-6)) c.fail("cell", fmt("risk of %s is %.9g, expected %.9g", str(k).c_str(), gp.getRisk(k), all));
      if (std::fabs(one - 0.5) > 1e-6 && gp.isOccupied(k) != (one > 0.5)) c.fail("occupied", fmt("%s with risk %g is %s", str(k).c_str(), one, gp.isOccupied(k) ? "occupied" : "free"));
      c.count(one > 0.5 ? "occupied cells" : one < 0.01 ? "safe cells" : "doubtful cells");
      bool wall = false, sure = true;
      for (auto& d : k.getDiagonalNeighbors()) {
        double x = s.m.single(d);
        if (std::fabs(x - 0.5) < 1e-6) sure = false;
        wall |= x > 0.5;
      }
      if (sure && gp.isNearWall(k) != wall) c.fail("near_wall", str(k) + " is wrongly judged to be near a wall or not");
      // edges
      Cell k2(T3(k.xIndex() + r.range(-2, 2), k.yIndex() + r.range(-2, 2), k.zIndex() + r.range(-1, 1)));
      Cell k0(T3(k.xIndex() + r.range(-2, 2), k.yIndex() + r.range(-2, 2), k.zIndex() + r.range(-1, 1)));
      Node u(k, k0), v(k2, k);
      double er = s.m.edge(v), g = gp.getRisk(v);
      if (!vh::close(g, er, 1e-9, 1e-6)) c.fail("edge", fmt("risk of the edge %s->%s is %.9g, expected %.9g", str(k).c_str(), str(k2).c_str(), g, er));
      bool margin = std::fabs(er - s.m.max_risk) > 1e-6 && std::fabs(k2.zPos() - s.m.max_alt) > 1e-9;
      bool legal = er < s.m.max_risk && k2.zPos() < s.m.max_alt;
      if (margin && gp.isLegal(v) != legal) c.fail("legal", fmt("the edge %s->%s with risk %g is %s", str(k).c_str(), str(k2).c_str(), er, legal ? "refused" : "allowed"));
      c.count(legal ? "legal edges" : "illegal edges");
      double sc = CELL_SCALE, dz = (k2.zIndex() - k.zIndex()) * sc;
      double dist = std::hypot(k2.xIndex() - k.xIndex(), k2.yIndex() - k.yIndex()) * sc + (dz > 0 ? s.m.up * dz : -s.m.down * dz);
      if (!vh::close(gp.getEdgeDist(k, k2), dist, 1e-9, 1e-9)) c.fail("dist", fmt("length cost %.9g, expected %.9g", gp.getEdgeDist(k, k2), dist));
      double turn = u.getRotation(v);
      double smooth = s.m.smooth * turn * turn;
      double near = k.distance3D(Cell(gp.curr_pos_)), speed = std::sqrt(gp.curr_vel_.x * gp.curr_vel_.x + gp.curr_vel_.y * gp.curr_vel_.y);
      if (std::fabs(near - 3) > 1e-6 && std::fabs(speed - 1) > 1e-6) {
        double cost = dist + s.m.risk_factor * er + smooth * (near < 3 && speed > 1 ? 2 : 1);
        if (!vh::close(gp.getEdgeCost(u, v), cost, 1e-6, 1e-6)) c.fail("cost", fmt("cost of %s->%s after %s is %.9g, expected %.9g", str(k).c_str(), str(k2).c_str(), str(k0).c_str(), gp.getEdgeCost(u, v), cost));
      }
      // heuristics: finite everywhere; each the cost of what lies ahead
      double hd = goal.zIndex() - k.zIndex(), ha = hd > 0 ? s.m.up * hd : -s.m.down * hd;
      if (!vh::close(gp.altitudeHeuristic(k, goal), ha, 1e-9, 1e-9)) c.fail("heuristic_altitude", fmt("altitude heuristic %g, expected %g", gp.altitudeHeuristic(k, goal), ha));
      double hs;
      double gx = goal.xIndex() - k.xIndex(), gy = goal.yIndex() - k.yIndex(), ux = k.xIndex() - k0.xIndex(), uy = k.yIndex() - k0.yIndex();
      if (!gx && !gy) hs = 0;
      else if (!ux && !uy) hs = s.m.smooth * gp.vert_to_hor_cost_;
      else hs = s.m.smooth * (std::fabs(std::remainder(std::atan2(gy, gx) - std::atan2(uy, ux), 2 * PI)) / (PI / 4) + (k.zIndex() == goal.zIndex() ? 0 : 1));
      if (!vh::close(gp.smoothnessHeuristic(u, goal), hs, 1e-6, 1e-6)) c.fail("heuristic_turn", fmt("turning heuristic %g, expected %g", gp.smoothnessHeuristic(u, goal), hs));
      double hr = 0;
      if (k != goal) {
        auto acc = [&](int z) {
          double a = 0;
          for (int i = 0; i <= std::max(0, std::min<int>(z, (int)gp.alt_prior_.size() - 1)); i++) a += gp.alt_prior_[i];
          return a;
        };
        double un = (1 + 6 * s.m.flow) * s.m.explore * s.m.risk_factor;
        hr = un * ((k.diagDistance2D(goal) - 1) * s.m.priorAt(k) + std::fabs(acc(k.zIndex()) - acc(goal.zIndex()))) + s.m.risk_factor * s.m.cell(goal);
      }
      if (!vh::close(gp.riskHeuristic(k, goal), hr, 1e-6, 1e-6)) c.fail("heuristic_risk", fmt("risk heuristic of %s to %s is %g, expected %g", str(k).c_str(), str(goal).c_str(), gp.riskHeuristic(k, goal), hr));
      gp.use_risk_heuristics_ = r.chance(0.5), gp.use_speedup_heuristics_ = r.chance(0.5);
      double over = gp.overestimate_factor_ = r.uni(1, 5), seen = 0;
      if (r.chance(0.3)) gp.visitor_.seen_count_[k] = r.range(1, 9);
      if (gp.visitor_.seen_count_.count(k)) seen = gp.visitor_.seen_count_[k];
      double h = over * k.diagDistance2D(goal) + ha + hs + (gp.use_risk_heuristics_ ? hr : 0) + (gp.use_speedup_heuristics_ ? seen : 0);
      if (!vh::close(gp.getHeuristic(u, goal), h, 1e-6, 1e-6)) c.fail("heuristic", fmt("heuristic %g, expected %g", gp.getHeuristic(u, goal), h));
      c.evals(10);
      c.distinct(vh::Hasher() << (int)(one * 1000) << (int)(all * 100) << k.zIndex());
      c.digest(vh::Hasher() << gp.getRisk(k) << g);
    }
    // totals along a path
    std::vector<Cell> path;
    Cell k = anyCell(1, 8);
    for (int i = r.range(0, 8); i > 0; i--) {
      path.push_back(k);
      k = Cell(T3(k.xIndex() + r.range(-1, 1), k.yIndex() + r.range(-1, 1), k.zIndex() + r.range(-1, 1)));
    }
    PathInfo pi = gp.getPathInfo(path);
    double dist = 0, risk = 0, cost = 0;
    bool blocked = false, sure = true;
    for (size_t i = 2; i < path.size(); i++) {
      Node a(path[i - 1], path[i - 2]), b(path[i], path[i - 1]);
      double e = s.m.edge(b);
      dist += gp.getEdgeDist(path[i - 1], path[i]), risk += s.m.risk_factor * e, cost += gp.getEdgeCost(a, b);
      blocked |= e > s.m.max_risk;
      if (std::fabs(e - s.m.max_risk) < 1e-6) sure = false;
    }
    if (!vh::close(pi.dist, dist, 1e-6, 1e-6) || !vh::close(pi.risk, risk, 1e-6, 1e-6) || !vh::close(pi.cost, cost, 1e-6, 1e-6)) c.fail("path", fmt("a path's totals are (%g, %g, %g), expected (%g, %g, %g)", pi.dist, pi.risk, pi.cost, dist, risk, cost));
    if (sure && pi.is_blocked != blocked) c.fail("path_blocked", "a path is wrongly judged blocked or free");
    gp.setPath(path);
    auto msg = gp.getPathWithRiskMsg();
    if (msg.poses.size() != path.size() || msg.risks.size() != path.size()) c.fail("path_risks", "the path message has another length than the path");
    else
      for (size_t i = 0; i < path.size(); i++)
        if (!vh::close(msg.risks[i], s.m.cell(path[i]), 1e-6, 1e-6)) c.fail("path_risks", fmt("risk %g in the path message for a cell with %g", (double)msg.risks[i], s.m.cell(path[i])));
  }
  CELL_SCALE = 1.0;
}
