// VH: libs=global_planner flavour=asan twin=1
// Cells tile space; nodes are edges between them: distances, neighbours, hashing, turning and the cells an edge crosses,
// against plain geometry.
#include <global_planner/global_planner.h>
#include <set>
#include "vh.h"

using namespace global_planner;
using vh::fmt;
typedef std::tuple<int, int, int> T3;

namespace {
const double PI = 3.14159265358979323846;
double scale(vh::Rng& r) { return CELL_SCALE = r.pick({1.0, 1.0, 1.0, 0.5, 2.0, r.uni(0.5, 2.0)}); }
int idx(vh::Rng& r) {
  switch (r.below(5)) {
    case 0: return r.range(-3, 3);
    case 1: return r.range(-1100, 1100);
    case 2: return r.pick({-1024, -1023, -1, 0, 1, 1023, 1024, 1025, 2047, 2048, -2048});
    default: return r.range(-40, 40);
  }
}
Cell cell(vh::Rng& r) { return Cell(T3(idx(r), idx(r), idx(r))); }
Cell near(vh::Rng& r, const Cell& c, int d) { return Cell(T3(c.xIndex() + r.range(-d, d), c.yIndex() + r.range(-d, d), c.zIndex() + r.range(-d, d))); }
std::string str(const Cell& c) { return fmt("(%d,%d,%d)", c.xIndex(), c.yIndex(), c.zIndex()); }
}  // namespace

VH_SUITE(cells, 60000, 1500000) {
  auto& r = c.rng;
  double s = scale(r);
  double p[3];
  for (double& v : p) v = r.pick({r.uni(-50, 50), r.uni(-2000, 2000), s * r.range(-30, 30) + r.uni(-1e-6, 1e-6), s * (r.range(-30, 30) + 0.5)});
  Cell a(p[0], p[1], p[2]);
  geometry_msgs::Point gp;
  gp.x = p[0], gp.y = p[1], gp.z = p[2];
  if (Cell(gp) != a) c.fail("point", "the cell of a point differs from the cell of its coordinates");
  if (Cell(p[0], p[1]).tpl_ != Cell(p[0], p[1], 0.0).tpl_) c.fail("planar", "the planar constructor is not the cell at height zero");
  int i[3] = {a.xIndex(), a.yIndex(), a.zIndex()};
  double m[3] = {a.xPos(), a.yPos(), a.zPos()};
  geometry_msgs::Point tp = a.toPoint();
  double t[3] = {tp.x, tp.y, tp.z};
  for (int k = 0; k < 3; k++) {
    double e = 1e-9 * (1 + std::fabs(p[k]));
    if (!(p[k] >= i[k] * s - e && p[k] <= (i[k] + 1) * s + e)) c.fail("contains", fmt("coordinate %.17g is not in cell %d of size %g", p[k], i[k], s));
    if (!vh::close(m[k], (i[k] + 0.5) * s, e) || t[k] != m[k]) c.fail("center", fmt("the center of cell %d of size %g is reported at %.17g / %.17g", i[k], s, m[k], t[k]));
    if (std::fabs(m[k] - p[k]) > s / 2 + e) c.fail("near_center", "a point is further than half a cell from its cell's center");
  }
  if (Cell(m[0], m[1], m[2]) != a) c.fail("roundtrip", "the center of " + str(a) + " lies in another cell");
  // distances
  Cell b = r.chance(0.5) ? near(r, a, 4) : cell(r);
  double dx = std::fabs(a.xIndex() - b.xIndex()) * s, dy = std::fabs(a.yIndex() - b.yIndex()) * s, dz = std::fabs(a.zIndex() - b.zIndex()) * s;
  double e = 1e-9 * (1 + dx + dy + dz) + 1e-9;
  struct {
    const char* n;
    double got, back, want;
  } q[] = {{"distance2D", a.distance2D(b), b.distance2D(a), std::hypot(dx, dy)},
           {"distance3D", a.distance3D(b), b.distance3D(a), std::sqrt(dx * dx + dy * dy + dz * dz)},
           {"diagDistance2D", a.diagDistance2D(b), b.diagDistance2D(a), std::sqrt(2.0) * std::min(dx, dy) + std::fabs(dx - dy)},
           {"diagDistance3D", a.diagDistance3D(b), b.diagDistance3D(a), std::sqrt(2.0) * std::min(dx, dy) + std::fabs(dx - dy) + dz},
           {"manhattanDist", a.manhattanDist(b.xPos(), b.yPos(), b.zPos()), b.manhattanDist(a.xPos(), a.yPos(), a.zPos()), dx + dy + dz}};
  for (auto& x : q) {
    if (!vh::close(x.got, x.want, e, 1e-9)) c.fail(x.n, fmt("%s between %s and %s (size %g) is %.9g, expected %.9g", x.n, str(a).c_str(), str(b).c_str(), s, x.got, x.want));
    if (!vh::close(x.back, x.got, e, 1e-12)) c.fail("symmetric", fmt("%s is not symmetric", x.n));
  }
  if (a.xIndex() || a.yIndex())
    if (std::fabs(std::remainder(a.angle() - std::atan2((double)a.yIndex(), (double)a.xIndex()), 2 * PI)) > 1e-9) c.fail("angle", "wrong angle of " + str(a));
  // order, equality, hash, arithmetic
  bool eq = a.tpl_ == b.tpl_;
  if ((a == b) != eq || (a != b) == eq || (a < b) != (b > a) || (a <= b) != !(a > b) || (a >= b) != !(a < b) || ((int)(a < b) + (int)(b < a) + (int)eq != 1))
    c.fail("order", "comparison operators of " + str(a) + " and " + str(b) + " contradict each other");
  Cell sum = a + b, dif = a - b;
  if (sum.xIndex() != a.xIndex() + b.xIndex() || sum.yIndex() != a.yIndex() + b.yIndex() || sum.zIndex() != a.zIndex() + b.zIndex() || dif + b != a) c.fail("arithmetic", "sum or difference of " + str(a) + " and " + str(b));
  Cell copy(T3(a.xIndex(), a.yIndex(), a.zIndex()));
  if (std::hash<Cell>()(a) != std::hash<Cell>()(copy)) c.fail("hash", "equal cells have different hashes");
  // neighbours: the eight around it and those straight above and below; the four diagonal ones
  std::set<T3> n10, n4;
  auto add = [&](std::set<T3>& set, int x, int y, int z) { set.insert(T3(a.xIndex() + x, a.yIndex() + y, a.zIndex() + z)); };
  for (int x = -1; x <= 1; x++)
    for (int y = -1; y <= 1; y++)
      if (x || y) {
        add(n10, x, y, 0);
        if (x && y) add(n4, x, y, 0);
      }
  add(n10, 0, 0, 1), add(n10, 0, 0, -1);
  auto same = [&](const std::vector<Cell>& v, const std::set<T3>& w) {
    std::set<T3> g;
    for (auto& k : v) g.insert(k.tpl_);
    return g == w && v.size() == w.size();
  };
  if (!same(a.getNeighbors(), n10)) c.fail("neighbors", "the neighbours of " + str(a) + " are not its ten neighbours");
  if (!same(a.getDiagonalNeighbors(), n4)) c.fail("diagonal", "the diagonal neighbours of " + str(a) + " are wrong");
  // the ball of cells around it: every cell within the radius, none further than the rounding to whole cells allows
  int rad = r.range(0, 5);
  std::set<T3> got;
  auto flow = a.getFlowNeighbors(rad);
  for (auto& k : flow) got.insert(k.tpl_);
  if (got.size() != flow.size()) c.fail("ball_twice", "a neighbouring cell is listed twice");
  for (int x = -rad - 1; x <= rad + 1; x++)
    for (int y = -rad - 1; y <= rad + 1; y++)
      for (int z = -rad - 1; z <= rad + 1; z++) {
        bool in = got.count(T3(a.xIndex() + x, a.yIndex() + y, a.zIndex() + z));
        bool must = x * x + y * y + z * z <= rad * rad;
        // whole cells: one index may be rounded up per axis
        bool may = std::abs(x) <= rad && std::abs(y) <= std::ceil(std::sqrt((double)rad * rad - x * x)) &&
                   (x * x + y * y >= rad * rad ? z == 0 : std::abs(z) <= std::ceil(std::sqrt((double)(rad * rad - x * x - y * y))));
        if (must && !in) c.fail("ball_missing", fmt("cell offset (%d,%d,%d) is missing from the ball of radius %d", x, y, z, rad));
        if (in && !may) c.fail("ball_extra", fmt("cell offset (%d,%d,%d) is in the ball of radius %d", x, y, z, rad));
      }
  // goal cells
  double gr = r.uni(0, 12);
  GoalCell g(a, gr), g2(p[0], p[1], p[2], gr, true);
  if (g2.tpl_ != a.tpl_ || g2.radius_ != gr || !g2.is_temporary_ || g.is_temporary_) c.fail("goal", "a goal cell does not keep what it was given");
  double man = dx + dy + dz;
  if (std::fabs(man - gr / 2) > 1e-6 && g.withinPlanRadius(b) != (man < gr / 2)) c.fail("plan_radius", fmt("a cell %g m away is judged %s a plan radius of %g", man, man < gr / 2 ? "outside" : "inside", gr / 2));
  geometry_msgs::Point pt;
  pt.x = a.xPos() + r.uni(-6, 6), pt.y = a.yPos() + r.uni(-6, 6), pt.z = a.zPos() + r.uni(-6, 6);
  man = std::fabs(pt.x - a.xPos()) + std::fabs(pt.y - a.yPos()) + std::fabs(pt.z - a.zPos());
  if (std::fabs(man - gr) > 1e-6 && g.withinPositionRadius(pt) != (man < gr)) c.fail("position_radius", fmt("a point %g m away is judged %s a radius of %g", man, man < gr ? "outside" : "inside", gr));
  c.evals(30);
  c.distinct(vh::Hasher() << i[0] << i[1] << i[2] << s);
  c.digest(vh::Hasher() << a.xPos() << a.distance3D(b) << (int)flow.size());
  CELL_SCALE = 1.0;
}

VH_SUITE(nodes, 40000, 1000000) {
  auto& r = c.rng;
  double s = scale(r);
  Cell p = cell(r), q = r.chance(0.1) ? p : near(r, p, r.pick({1, 1, 1, 3, 6}));
  Node u(q, p);
  double d[3] = {(q.xIndex() - p.xIndex()) * s, (q.yIndex() - p.yIndex()) * s, (q.zIndex() - p.zIndex()) * s};
  double len = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
  if (!vh::close(u.getLength(), len, 1e-9, 1e-9)) c.fail("length", fmt("length %.9g, expected %.9g", u.getLength(), len));
  // cells crossed: those around points of the edge at every half cell, except perhaps where it starts; none away from it
  auto cells = u.getCells();
  if (cells.empty()) c.fail("no_cells", "an edge crosses no cell");
  std::set<T3> got;
  for (auto& k : cells) got.insert(k.tpl_);
  int n = 2 * std::max({std::abs(q.xIndex() - p.xIndex()), std::abs(q.yIndex() - p.yIndex()), std::abs(q.zIndex() - p.zIndex())});
  double P[3] = {p.xPos(), p.yPos(), p.zPos()};
  for (int i = 1; i <= n; i++)
    for (int cx = -1; cx <= 1; cx += 2)
      for (int cy = -1; cy <= 1; cy += 2) {
        double x[3] = {P[0] + d[0] * i / n + cx * 0.1, P[1] + d[1] * i / n + cy * 0.1, P[2] + d[2] * i / n};
        bool sure = true;
        T3 k;
        int j[3];
        for (int a = 0; a < 3; a++) {
          double f = x[a] / s, fl = std::floor(f);
          if (f - fl < 1e-6 || f - fl > 1 - 1e-6) sure = false;
          j[a] = (int)fl;
        }
        if (sure && !got.count(T3(j[0], j[1], j[2]))) c.fail("cell_missing", fmt("edge %s->%s (size %g) passes (%g,%g,%g) but does not cross that cell", str(p).c_str(), str(q).c_str(), s, x[0], x[1], x[2]));
        c.evals(1);
      }
  for (auto& k : cells) {  // within 0.1 m of the edge (maximum norm), by clipping the segment to the inflated cell
    double lo = 0, hi = 1, b[3] = {k.xPos(), k.yPos(), k.zPos()};
    for (int a = 0; a < 3; a++) {
      double h = s / 2 + (a < 2 ? 0.1 : 0) + 1e-6;
      if (std::fabs(d[a]) < 1e-12) {
        if (std::fabs(P[a] - b[a]) > h) hi = -1;
      } else {
        double t0 = (b[a] - h - P[a]) / d[a], t1 = (b[a] + h - P[a]) / d[a];
        if (t0 > t1) std::swap(t0, t1);
        lo = std::max(lo, t0), hi = std::min(hi, t1);
      }
    }
    if (lo > hi + 1e-9) c.fail("cell_extra", fmt("edge %s->%s (size %g) is said to cross %s", str(p).c_str(), str(q).c_str(), s, str(k).c_str()));
    c.evals(1);
  }
  if (!got.count(q.tpl_)) c.fail("cell_end", "an edge does not cross the cell it leads to");
  // turning: difference of the horizontal directions in units of 45 degrees, plus a half when only one of them climbs
  Cell p2 = q, q2 = near(r, q, r.pick({1, 1, 2, 5}));
  if (r.chance(0.2)) p2 = cell(r), q2 = near(r, p2, 4);
  Node v(q2, p2);
  double e[3] = {(q2.xIndex() - p2.xIndex()) * 1.0, (q2.yIndex() - p2.yIndex()) * 1.0, (q2.zIndex() - p2.zIndex()) * 1.0};
  double turn = 0;
  if ((d[0] || d[1]) && (e[0] || e[1])) turn = std::fabs(std::remainder(std::atan2(e[1], e[0]) - std::atan2(d[1], d[0]), 2 * PI)) / (PI / 4);
  double alt = (d[2] == 0) != (e[2] == 0) ? 0.5 : 0.0;
  if (!vh::close(u.getXYRotation(v), turn, 1e-6)) c.fail("turn", fmt("turning from (%g,%g) to (%g,%g) is %.6g times 45 degrees, expected %.6g", d[0], d[1], e[0], e[1], u.getXYRotation(v), turn));
  if (!vh::close(u.getRotation(v), turn + alt, 1e-6)) c.fail("rotation", fmt("rotation %.6g, expected %.6g", u.getRotation(v), turn + alt));
  NodeWithoutSmooth nu(q, p), nv(q2, p2), nw(q, p2);
  if (nu.getRotation(nv) != 0) c.fail("plain_rotation", "a node without direction has a rotation");
  // identity: nodes by cell and parent, nodes without direction by their cell alone; equal nodes hash equally
  Node u2(q, p);
  if (!(u == u2) || u.hash() != u2.hash() || std::hash<Node>()(u) != std::hash<Node>()(u2)) c.fail("identity", "equal nodes differ");
  if ((u == v) != (q == q2 && p == p2) || (u < v) == (v < u) != (u == v)) c.fail("node_order", "comparison of nodes");
  if (!nu.isEqual(nw) || nu.hash() != nw.hash() || nu.isEqual(nv) != (q == q2)) c.fail("plain_identity", "nodes without direction are not told apart by their cell");
  // successors start where the node ends, keep its kind and reach each cell once
  double rad = SPEEDNODE_RADIUS = r.pick({5.0, 0.0, r.uni(0, 10)});
  SpeedNode su(q, p);
  auto check = [&](const Node& a, const char* kind) {
    std::set<T3> to;
    for (auto& x : a.getNeighbors()) {
      if (x->parent_ != q) c.fail("successor_parent", fmt("a successor of a %s does not start where it ends", kind));
      if (!to.insert(x->cell_.tpl_).second) c.fail("successor_twice", fmt("a successor of a %s is listed twice", kind));
      if (typeid(*x) != typeid(a)) c.fail("successor_kind", fmt("a successor of a %s is of another kind", kind));
      c.evals(1);
    }
    return to;
  };
  std::set<T3> ten, ext;
  for (auto& k : q.getNeighbors()) ten.insert(k.tpl_);
  if (check(u, "Node") != ten || check(nu, "NodeWithoutSmooth") != ten) c.fail("successors", "the successors of a node are not the neighbouring cells");
  Cell x(T3(2 * q.xIndex() - p.xIndex(), 2 * q.yIndex() - p.yIndex(), 2 * q.zIndex() - p.zIndex()));
  auto sg = check(su, "SpeedNode");
  if (!sg.count(x.tpl_)) c.fail("speed_straight", "going on at the same speed is not among the successors");
  for (auto& k : x.getNeighbors()) {
    double l = q.distance3D(k);
    if (std::fabs(l - rad) < 1e-9) continue;
    if (l > 0 && (bool)sg.count(k.tpl_) != (l < rad)) c.fail("speed_radius", fmt("a successor %g m away with a radius of %g", l, rad));
  }
  if (sg.size() > 11) c.fail("speed_extra", "a speed node has more successors than its speed change allows");
  c.distinct(vh::Hasher() << d[0] << d[1] << d[2] << e[0] << e[1] << e[2]);
  c.digest(vh::Hasher() << u.getLength() << u.getRotation(v) << (int)got.size());
  CELL_SCALE = 1.0, SPEEDNODE_RADIUS = 5.0;
}
