// VH: libs=local_planner/src/nodes/tree_node.cpp ros=0 flavour=asan twin=1
// Nodes of the look-ahead tree keep exactly what they were given.
#include "local_planner/tree_node.h"
#include "vh.h"
using avoidance::TreeNode;
using Eigen::Vector3f;

VH_SUITE(node, 20000, 400000) {
  auto& r = c.rng;
  auto v3 = [&] { return Vector3f(r.unif(-1e3f, 1e3f), r.unif(-1e3f, 1e3f), r.unif(-1e3f, 1e3f)); };
  TreeNode d;
  if (d.getPosition() != Vector3f::Zero() || d.getVelocity() != Vector3f::Zero() || d.origin_ != 0 || d.closed_ || d.depth_ != 0 || d.total_cost_ != 0.f || d.heuristic_ != 0.f)
    c.fail("default", "a default node is not the zero node");
  int from = r.range(0, 100000);
  Vector3f p = v3(), v = v3();
  TreeNode n(from, p, v);
  auto same = [&](const TreeNode& x) { return x.getPosition() == p && x.getVelocity() == v && x.origin_ == from; };
  if (!same(n) || n.closed_ || n.depth_ != 0 || n.total_cost_ != 0.f || n.heuristic_ != 0.f) c.fail("constructed", vh::fmt("origin %d", n.origin_));
  float h = r.unif(-1e4f, 1e4f), t = r.unif(-1e4f, 1e4f);
  n.setCosts(h, t);
  n.closed_ = true;
  n.depth_ = r.range(0, 100);
  int dep = n.depth_;
  std::vector<TreeNode> tree;
  for (int i = 0, k = r.range(1, 40); i < k; i++) tree.push_back(n);
  for (auto& x : tree)
    if (!same(x) || x.heuristic_ != h || x.total_cost_ != t || !x.closed_ || x.depth_ != dep) c.fail("kept", vh::fmt("heuristic %g total %g (set %g, %g)", x.heuristic_, x.total_cost_, h, t));
  c.count("nodes compared", tree.size());
  c.distinct(vh::Hasher() << from << h << t);
  if (c.index < 4) c.sample(vh::fmt("node from %d, heuristic %g, total %g", from, h, t));
}
