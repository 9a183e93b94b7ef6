// VH: libs=global_planner flavour=asan twin=1
// What happens to a path after it was found: simplification, smoothing and the messages made from it.
#include "gp_world.h"
using namespace gpw;
using vh::fmt;

namespace {
const double PI = 3.14159265358979323846;
struct Costs {
  uint64_t seed;
  int mode;  // 0: length, 1: length weighted by where the edge ends, 2: with turning, 3: arbitrary
  double getEdgeCost(const Node& u, const Node& v) const {
    double l = v.getLength();
    vh::Hasher h;
    h << seed << v.cell_.xIndex() << v.cell_.yIndex() << v.cell_.zIndex();
    double x = (h.h >> 20) % 1000 / 1000.0;
    if (mode == 0) return l;
    if (mode == 1) return l * (1 + 3 * x);
    if (mode == 2) return l + 2 * std::pow(u.getRotation(v), 2);
    h << v.parent_.xIndex() << v.parent_.yIndex() << v.parent_.zIndex();
    return 0.1 + (h.h >> 20) % 1000 / 100.0;
  }
};
std::vector<Cell> anyPath(vh::Rng& r, int n) {
  std::vector<Cell> p;
  Cell k(T3(r.range(-20, 20), r.range(-20, 20), r.range(0, 10)));
  int step = r.pick({1, 1, 1, 3});
  int dx = r.range(-1, 1), dy = r.range(-1, 1);
  for (int i = 0; i < n; i++) {
    p.push_back(k);
    if (r.chance(0.3)) dx = r.range(-step, step), dy = r.range(-step, step);
    if (r.chance(0.05)) continue;  // stays
    k = Cell(T3(k.xIndex() + dx, k.yIndex() + dy, k.zIndex() + (r.chance(0.2) ? r.range(-1, 1) : 0)));
  }
  return p;
}
typedef geometry_msgs::Point P;
double dist(const P& a, const P& b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
P mix(const P& a, const P& b, double t) {
  P p;
  p.x = a.x + (b.x - a.x) * t, p.y = a.y + (b.y - a.y) * t, p.z = a.z + (b.z - a.z) * t;
  return p;
}
P curve(const P& a, const P& b, const P& c, double t) { return mix(mix(a, b, t), mix(b, c, t), t); }
// how far a point is from the curve
double offCurve(const P& a, const P& b, const P& c, const P& x) {
  double best = 1e300, bt = 0;
  for (int i = 0; i <= 100; i++) {
    double d = dist(curve(a, b, c, i / 100.0), x);
    if (d < best) best = d, bt = i / 100.0;
  }
  double lo = std::max(0.0, bt - 0.01), hi = std::min(1.0, bt + 0.01);
  for (int i = 0; i < 60; i++) {
    double m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3;
    if (dist(curve(a, b, c, m1), x) < dist(curve(a, b, c, m2), x)) hi = m2;
    else lo = m1;
  }
  return std::min(best, dist(curve(a, b, c, (lo + hi) / 2), x));
}
}  // namespace

VH_SUITE(simplify, 20000, 500000) {
  quiet();
  auto& r = c.rng;
  std::vector<Cell> path = anyPath(r, r.range(0, 24)), copy = path;
  Costs k{r.next(), r.range(0, 3)};
  double margin = r.pick({1.01, 1.01, 1.0, 0.0, 2.0, 1e300, r.uni(0, 2)});
  int iters = r.pick({1, 1, 0, 2, 100, r.range(0, 6)});
  bool slow = r.chance(0.5);
  auto out = simplifyPath(&k, path, margin, iters, slow);
  if (path != copy) c.fail("source", "simplifying changed the path it was given");
  if (path.size() < 3) {
    if (out != path) c.fail("trivial", "a path of fewer than three cells was changed");
    return;
  }
  if (slow) {
    if (out.size() < 2 || out[out.size() - 1] != out[out.size() - 2]) {
      c.fail("stop", "the last point is not repeated to stop there");
      return;
    }
    out.pop_back();
  }
  if (out.size() < 2 || out.size() > path.size() || out[0] != path[0] || out[1] != path[1] || out.back() != path.back()) {
    c.fail("ends", "start, direction at the start or end of a simplified path differ from the path's");
    return;
  }
  size_t j = 0;
  for (size_t i = 0; i < path.size() && j < out.size(); i++)
    if (path[i] == out[j]) j++;
  if (j != out.size()) c.fail("subsequence", "the simplified path visits a cell out of the path's order");
  if (iters == 0 && out != path) c.fail("no_iterations", "a path was simplified although no simplification is allowed");
  bool stays = false;
  for (size_t i = 1; i < path.size(); i++) stays |= path[i] == path[i - 1] || (i > 1 && path[i] == path[i - 2]);
  if (margin == 0.0 && !stays && out != path) c.fail("no_margin", "a vertex was removed although no cost is allowed");
  if (margin > 1e200 && iters == 100 && out.size() != 3) c.fail("all_margin", fmt("%zu vertices remain although every cost is allowed", out.size()));
  auto total = [&](const std::vector<Cell>& p) {
    double s = 0;
    for (size_t i = 2; i < p.size(); i++) s += k.getEdgeCost(Node(p[i - 1], p[i - 2]), Node(p[i], p[i - 1]));
    return s;
  };
  double before = total(path), after = total(out);
  if (k.mode != 2 && margin < 1e200) {  // every removal replaces two edges by one that costs at most margin times as much
    double bound = before * std::pow(std::max(1.0, margin), iters);
    if (after > bound * (1 + 1e-9) + 1e-9) c.fail("cost", fmt("simplifying %d times with margin %g raised the cost from %g to %g", iters, margin, before, after));
  }
  if (iters == 1 && !stays) {  // each removal on its own
    size_t i = 2, o = 2;
    while (i < path.size() && o < out.size()) {
      if (path[i] == out[o]) {
        i++, o++;
        continue;
      }
      if (i + 1 >= path.size() || path[i + 1] != out[o]) break;  // ambiguous
      Node parent(path[i - 1], path[i - 2]), u(path[i], path[i - 1]), v(path[i + 1], path[i]), w(path[i + 1], path[i - 1]);
      double was = k.getEdgeCost(parent, u) + k.getEdgeCost(u, v), is = k.getEdgeCost(parent, w);
      if (is > margin * was * (1 + 1e-9) + 1e-9) c.fail("removal", fmt("a vertex was removed which raises the cost from %g to %g with margin %g", was, is, margin));
      c.count("vertices removed");
      i += 2, o++;
    }
  }
  c.distinct(vh::Hasher() << (int)path.size() << (int)out.size() << (int)(after * 10));
  c.digest(vh::Hasher() << after << (int)out.size());
}

VH_SUITE(smooth, 4000, 100000) {
  quiet();
  auto& r = c.rng;
  nav_msgs::Path path;
  path.header.frame_id = "frame";
  int n = r.range(0, 12);
  for (int i = 0; i < n; i++) {
    geometry_msgs::PoseStamped p;
    p.header.frame_id = "frame";
    p.pose.position.x = r.uni(-30, 30), p.pose.position.y = r.uni(-30, 30), p.pose.position.z = r.uni(0, 10);
    p.pose.orientation.w = 1;
    if (i && r.chance(0.1)) p = path.poses.back();
    path.poses.push_back(p);
  }
  nav_msgs::Path s = smoothPath(path);
  if (s.header.frame_id != "frame") c.fail("frame", "the smoothed path has another frame");
  auto pos = [&](int i) -> const P& { return path.poses[i].pose.position; };
  if (n < 3) {
    if (s.poses.size() != path.poses.size()) c.fail("short", "a path without corners was changed");
    return;
  }
  if (s.poses.size() < (size_t)n) {
    c.fail("points", "a smoothed path has fewer points than corners");
    return;
  }
  if (dist(s.poses.front().pose.position, pos(0)) > 0 || dist(s.poses.back().pose.position, pos(n - 1)) > 0) c.fail("ends", "a smoothed path does not start and end where the path does");
  // every point lies on one of the corner curves (or is an end), in the order of the corners, and every curve is run through
  int corner = 1;
  std::vector<double> nearStart(n, 1e300), nearEnd(n, 1e300), nearTop(n, 1e300);
  for (size_t k = 1; k + 1 < s.poses.size(); k++) {
    const P& x = s.poses[k].pose.position;
    if (s.poses[k].header.frame_id != "frame") c.fail("frame", "a smoothed pose has another frame");
    int best = -1;
    for (int i = corner; best < 0 && i <= std::min(corner + 4, n - 2); i++) {
      if (i > corner + 1 && dist(pos(i - 1), pos(i - 2)) > 0) break;  // a curve may only be passed over where corners coincide
      P a = mix(pos(i - 1), pos(i), 0.5), b = mix(pos(i), pos(i + 1), 0.5);
      if (offCurve(a, pos(i), b, x) < 1e-5) best = i;
    }
    if (best < 0) {
      c.fail("curve", fmt("smoothed point %zu is on none of the curves between the edges' middles", k));
      return;
    }
    corner = best;
    P a = mix(pos(corner - 1), pos(corner), 0.5), b = mix(pos(corner), pos(corner + 1), 0.5);
    nearStart[corner] = std::min(nearStart[corner], dist(a, x));
    nearEnd[corner] = std::min(nearEnd[corner], dist(b, x));
    nearTop[corner] = std::min(nearTop[corner], dist(curve(a, pos(corner), b, 0.5), x));
    c.evals(1);
  }
  for (int i = 1; i <= n - 2; i++) {
    double len = dist(pos(i - 1), pos(i)) + dist(pos(i), pos(i + 1));
    double st = std::min(nearStart[i], i > 1 ? nearEnd[i - 1] : 1e300);
    if (st > 1e-6 || nearEnd[i] > 1e-6 || nearTop[i] > len * 0.3 + 1e-9) {
      bool still = false;  // equal corners make curves coincide
      for (int a = std::max(1, i - 1); a <= std::min(n - 1, i + 2); a++) still |= dist(pos(a), pos(a - 1)) == 0;
      if (!still) c.fail("corner", fmt("the curve around corner %d is not run through from middle to middle", i));
    }
  }
  // one curve
  int steps = r.range(1, 30);
  auto b = threePointBezier(pos(0), pos(1), pos(2), steps);
  if ((int)b.size() != steps + 1) c.fail("bezier_points", "a curve has another number of points than asked for");
  for (size_t i = 0; i < b.size(); i++)
    if (dist(b[i], curve(pos(0), pos(1), pos(2), (double)i / steps)) > 1e-9) c.fail("bezier", "a point is not on the curve");
  nav_msgs::Path three = path;
  three.poses.resize(3);
  auto tb = threePointBezier(three, steps);
  if (tb.poses.size() != b.size()) c.fail("bezier_path", "the curve of a path of three points has another length");
  else
    for (size_t i = 0; i < b.size(); i++)
      if (dist(tb.poses[i].pose.position, b[i]) > 1e-12) c.fail("bezier_path", "the curve of a path of three points differs");
  // lengths
  double len = 0;
  for (int i = 1; i < n; i++) len += dist(pos(i - 1), pos(i));
  if (!vh::close(pathLength(path), len, 1e-9, 1e-9)) c.fail("length", "wrong length of a path");
  double upp = r.uni(0, 5), en = len;
  for (int i = 1; i < n; i++) en += upp * std::max(0.0, pos(i).z - pos(i - 1).z);
  if (!vh::close(pathEnergy(path, upp), en, 1e-9, 1e-9)) c.fail("energy", "wrong energy of a path");
  c.distinct(vh::Hasher() << len);
  c.digest(vh::Hasher() << s.poses[s.poses.size() / 2].pose.position.x << (int)s.poses.size());
}

VH_SUITE(messages, 20000, 400000) {
  quiet();
  auto& r = c.rng;
  CELL_SCALE = r.pick({1.0, 0.5, 2.0});
  GlobalPlanner gp;
  gp.setFrame("world_frame");
  double yaw = r.uni(-3.1, 3.1);
  geometry_msgs::PoseStamped ps;
  ps.pose.orientation = tf::createQuaternionMsgFromYaw(yaw);
  if (r.chance(0.8)) gp.setPose(ps);
  else yaw = 0;
  std::vector<Cell> path = anyPath(r, r.range(0, 20));
  auto m = gp.getPathMsg(path);
  if (m.header.frame_id != "world_frame") c.fail("frame", "the path message has another frame");
  if (m.poses.size() != path.size()) {
    c.fail("size", "the path message has another length than the path");
    return;
  }
  double want = yaw;
  for (size_t i = 0; i < path.size(); i++) {
    const auto& p = m.poses[i];
    if (p.header.frame_id != "world_frame") c.fail("frame", "a pose has another frame");
    if (p.pose.position.x != path[i].xPos() || p.pose.position.y != path[i].yPos() || p.pose.position.z != path[i].zPos()) c.fail("position", "a pose is not at its cell's center");
    if (i + 1 < path.size()) {
      double dx = path[i + 1].xIndex() - path[i].xIndex(), dy = path[i + 1].yIndex() - path[i].yIndex();
      if (dx || dy) want = std::atan2(dy, dx);
    }
    double got = tf::getYaw(p.pose.orientation);
    if (std::fabs(std::remainder(got - want, 2 * PI)) > 1e-6) c.fail("yaw", fmt("pose %zu heads %g, the path leads to %g", i, got, want));
    c.evals(1);
  }
  gp.setPath(path);
  auto m2 = gp.getPathMsg();
  if (m2.poses.size() != path.size() || gp.curr_path_ != path) c.fail("current", "the current path is not the one set");
  // scalar helpers
  double a = r.pick({r.uni(-7, 7), r.uni(-1000, 1000), PI, -PI, 0.0});
  double w = angleToRange(a);
  if (!(w >= -PI - 1e-9 && w <= PI + 1e-9) || std::fabs(std::remainder(w - a, 2 * PI)) > 1e-9) c.fail("angle", fmt("angle %g wrapped to %g", a, w));
  double p1 = r.unit(), pr = r.unit(), q = posterior(p1, pr), exact = p1 * pr / (p1 * pr + (1 - p1) * (1 - pr) + 1e-4);
  if (!(q >= 0 && q <= 1) || !vh::close(q, exact, 1e-9)) c.fail("posterior", fmt("posterior of %g and %g is %g", p1, pr, q));
  c.distinct(vh::Hasher() << (int)path.size() << (int)(want * 100));
  c.digest(vh::Hasher() << want);
  CELL_SCALE = 1.0;
}
