// VH: libs=safe_landing_planner flavour=asan
// VH: libs=safe_landing_planner flavour=tsan repeat=2
// The landing planner node end to end: clouds in through the transforming worker thread, published grid and health out.
#include <safe_landing_planner/safe_landing_planner_node.hpp>
#include <memory>
#include <thread>
#include "vh.h"

using namespace avoidance;
using vh::fmt;
using Cfg = safe_landing_planner::SafeLandingPlannerNodeConfig;

namespace {
struct CloudRec {
  sensor_msgs::PointCloud2 msg;
  std::vector<Eigen::Vector3d> local;  // finite points in the local frame
};
Eigen::Matrix3d rot(double y, double p, double r) {
  return (Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX())).toRotationMatrix();
}
std::string layout(const safe_landing_planner::SLPGridMsg& m, int n) {
  auto chk = [&](const std_msgs::MultiArrayLayout& l, size_t sz, const char* w) -> std::string {
    if (l.dim.size() != 2 || (int)l.dim[0].size != n || (int)l.dim[1].size != n) return fmt("%s: dimensions are not %dx%d", w, n, n);
    if ((int)l.dim[0].stride != n * n || (int)l.dim[1].stride != n || l.data_offset != 0) return fmt("%s: strides", w);
    if ((int)sz != n * n) return fmt("%s: %zu values for %dx%d cells", w, sz, n, n);
    return "";
  };
  std::string s = chk(m.mean.layout, m.mean.data.size(), "mean");
  if (s.empty()) s = chk(m.land.layout, m.land.data.size(), "land");
  if (s.empty()) s = chk(m.std_dev.layout, m.std_dev.data.size(), "std_dev");
  if (s.empty()) s = chk(m.counter.layout, m.counter.data.size(), "counter");
  return s;
}
std::string equal(const safe_landing_planner::SLPGridMsg& m, const Grid& g) {
  const int n = g.getRowColSize();
  if (m.grid_size != g.getGridSize() || m.cell_size != g.getCellSize()) return fmt("size %g/%g, the grid has %g/%g", m.grid_size, m.cell_size, g.getGridSize(), g.getCellSize());
  std::string l = layout(m, n);
  if (!l.empty()) return l;
  Eigen::MatrixXf me = g.getMean(), va = g.getVariance();
  Eigen::MatrixXi co = g.getCounter();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      int k = i * n + j;
      if (m.mean.data[k] != me(i, j) || m.land.data[k] != g.land_(i, j) || m.counter.data[k] != co(i, j) || !(std::fabs(m.std_dev.data[k] - std::sqrt(va(i, j))) <= 1e-6 * (1 + std::sqrt(va(i, j)))))
        return fmt("cell (%d,%d): published mean %g land %d count %d std %g, grid has %g %d %d %g", i, j, m.mean.data[k], (int)m.land.data[k], (int)m.counter.data[k], m.std_dev.data[k], me(i, j), g.land_(i, j), co(i, j), std::sqrt(va(i, j)));
    }
  return "";
}
Cfg config(vh::Rng& r) {
  Cfg g;
  g.n_points_threshold = r.pick({0.0, 1.0, 2.0});
  g.std_dev_threshold = r.pick({0.1, 0.5, 1.0});
  g.smoothing_size = r.pick({0, 1, 2});
  g.mean_diff_thr = 0.3;
  g.max_n_mean_diff_cells = 10;
  g.min_n_land_cells = r.pick({0, 4});
  g.cell_size = r.pick({0.5, 1.0, 0.25});
  g.grid_size = r.pick({5.0, 10.0, 3.3, 1.0});
  g.alpha = r.pick({0.0, 0.5, 0.9});
  g.timeout_critical = r.pick({0.5, 0.3, 2.0});
  g.timeout_termination = r.pick({15.0, 1.0, 3.0, 18.0});
  return g;
}
}  // namespace

VH_SUITE(node, 60, 1500) {
  auto& r = c.rng;
  rosmock::reset();
  double t0 = r.pick({100.0, 1e6, 1.6e9});
  rosmock::setTime(t0);
  bool raw = r.chance(0.2);
  rosmock::bus().sparams["pointcloud_topics"] = "/cam/points";
  if (raw) rosmock::bus().bparams["play_rosbag"] = true;
  Eigen::Matrix3d R = rot(r.uni(-3, 3), r.uni(-1, 1), r.uni(-1, 1));
  Eigen::Vector3d T(r.uni(-20, 20), r.uni(-20, 20), r.uni(0, 10));
  std::atomic<bool> tfUp{true};
  std::atomic<int> tfAsked{0}, flaky{0};  // 1: there when asked for, gone when used
  rosmock::setTf([&tfUp, &tfAsked, &flaky, R, T](const std::string& to, const std::string& from, const ros::Time&, tf::StampedTransform& out) {
    tfAsked++;
    if (flaky == 2) return flaky = 0, false;
    if (flaky == 1 && tfUp) flaky = 2;
    if (!tfUp || to != "local_origin" || from != "cam") return false;
    Eigen::Quaterniond q(R);
    out.setRotation(tf::Quaternion(q.x(), q.y(), q.z(), q.w()));
    out.setOrigin(tf::Vector3(T.x(), T.y(), T.z()));
    return true;
  });
  ros::NodeHandle nh("~");
  auto node = std::make_unique<SafeLandingPlannerNode>(nh);
  if (r.chance(0.2)) rosmock::deliver("/cam/points", sensor_msgs::PointCloud2());  // before the node is started
  if (r.chance(0.3)) std::this_thread::yield();
  node->startNode();
  Cfg g = config(r);
  rosmock::reconfigure<Cfg>(g, 0);
  double start = t0, lastAlgo = 0, lastStatus = 0;
  std::vector<CloudRec> sent;
  int used = 0;
  bool haveGrid = false;
  Grid lastGrid = node->safe_landing_planner_->getGrid();
  bool changed = true;
  int lastSeq = -1;
  Eigen::Vector3d pos = T + Eigen::Vector3d(r.uni(-2, 2), r.uni(-2, 2), 0);
  vh::Hasher h;
  bool dead = false;
  for (int it = 0, N = r.range(1, 12); it < N && !dead; it++) {
    rosmock::advance(r.pick({0.1, 0.1, 0.1, 0.4, 3.0}));
    if (it && r.chance(0.15)) {
      Cfg o = g;
      g = config(r);
      rosmock::reconfigure<Cfg>(g, 0);
      if ((float)o.grid_size != (float)g.grid_size || (float)o.cell_size != (float)g.cell_size || o.smoothing_size != g.smoothing_size) changed = true;
    }
    if (r.chance(0.8)) {
      pos += Eigen::Vector3d(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), 0);
    }
    geometry_msgs::PoseStamped ps;
    ps.pose.position.x = pos.x(), ps.pose.position.y = pos.y(), ps.pose.position.z = pos.z();
    ps.pose.orientation.w = 1;
    rosmock::deliver("mavros/local_position/pose", ps);
    // the cloud for this iteration
    CloudRec cr;
    pcl::PointCloud<pcl::PointXYZ> pc;
    for (int k = r.pick({0, 5, 40, 200}); k > 0; k--) {
      Eigen::Vector3d l = pos + Eigen::Vector3d(r.uni(-6, 6), r.uni(-6, 6), r.uni(-5, -4.8));
      Eigen::Vector3f b = (R.transpose() * (l - T)).cast<float>();
      pcl::PointXYZ q(b.x(), b.y(), b.z());
      if (r.chance(0.05)) {
        (r.chance(0.5) ? q.x : q.z) = r.pick({NAN, INFINITY});
        pc.push_back(q);
        continue;
      }
      pc.push_back(q);
      cr.local.push_back(l);
    }
    pc.is_dense = false;
    pcl::toROSMsg(pc, cr.msg);
    cr.msg.header.frame_id = "cam";
    cr.msg.header.stamp = ros::Time::now();
    sent.push_back(cr);
    safe_landing_planner::SLPGridMsg rawMsg;
    if (raw) {
      int n = r.pick({1, 4, 10});
      double cs = 0.5;
      rawMsg.grid_size = n * cs, rawMsg.cell_size = cs;
      for (auto* l : {&rawMsg.mean.layout, &rawMsg.std_dev.layout, &rawMsg.land.layout, &rawMsg.counter.layout}) {
        l->dim.resize(2);
        l->dim[0].size = l->dim[1].size = n;
      }
      for (int k = 0; k < n * n; k++) rawMsg.mean.data.push_back(r.uni(-1, 1)), rawMsg.std_dev.data.push_back(r.uni(0, 0.3)), rawMsg.land.data.push_back(1), rawMsg.counter.data.push_back(r.range(0, 9));
      changed = true;  // recorded grids may change size every time
    }
    // while the node waits for data: the clock runs, data arrives after a while, the transform may come even later
    double wait = r.pick({0.0, 0.0, 0.2, 0.7, 4.0, 16.5, 20.0});
    const int64_t queryNs = rosmock::clockNs();
    double queryStart = queryNs * 1e-9;
    double dataAt = queryStart + wait, tfAt = dataAt + (r.chance(0.2) ? 0.5 : 0);
    if (wait > 0 || tfAt > dataAt) tfUp = false;
    int calls = 0;
    if (r.chance(0.2)) flaky = 1;
    std::vector<double> wantTerm;
    rosmock::bus().onGlobalCallAvailable = [&](double) {
      rosmock::advance(0.1);
      double now = rosmock::clockNs() * 1e-9;
      if (now >= tfAt) tfUp = true;
      if (now >= dataAt || !raw) {
        if (raw)
          rosmock::deliver("/raw_grid_slp", rawMsg);
        else
          rosmock::deliver("/cam/points", cr.msg);
        if (now >= tfAt) std::this_thread::sleep_for(std::chrono::microseconds(calls < 20 ? 100 : 1000));
      }
      calls++;
      if (rosmock::clockNs() - queryNs > (int64_t)std::llround(g.timeout_termination * 1e9)) wantTerm.push_back(now);
    };
    rosmock::clearLog();
    rosmock::fire(0.1);
    rosmock::bus().onGlobalCallAvailable = nullptr;
    double now = rosmock::clockNs() * 1e-9;
    // ---- grid
    auto gm = rosmock::taken<safe_landing_planner::SLPGridMsg>("grid_slp");
    auto& pl = *node->safe_landing_planner_;
    if (gm.size() != 1) {
      c.fail("grid-count", fmt("%zu grids published in one iteration", gm.size()));
      break;
    }
    std::string d = equal(gm[0], pl.getPreviousGrid());
    if (!d.empty()) c.fail("grid-content", d);
    if (!changed && haveGrid) {
      d = equal(gm[0], lastGrid);
      if (!d.empty()) c.fail("grid-history", "published grid is not the result of the previous iteration: " + d);
    }
    if (gm[0].curr_pos_index.x != pl.getPositionIndex().x() || gm[0].curr_pos_index.y != pl.getPositionIndex().y()) c.fail("grid-position", "vehicle cell");
    if (gm[0].header.frame_id != "local_origin") c.fail("grid-frame", gm[0].header.frame_id);
    if (lastSeq >= 0 && (int)gm[0].header.seq != lastSeq + 1) c.fail("grid-sequence", fmt("sequence number %u after %d", gm[0].header.seq, lastSeq));
    lastSeq = gm[0].header.seq;
    lastGrid = pl.getGrid();
    haveGrid = true;
    changed = false;
    // ---- the cloud that was used: the newest or, when it was already being transformed, an earlier one; never older than before
    if (!raw) {
      int found = -1;
      std::string why;
      for (int k = used; k < (int)sent.size() && found < 0; k++) {  // the oldest that fits: several may look alike inside the grid
        size_t at = 0;
        auto& vc = pl.visualization_cloud_.points;
        bool ok = true;
        for (auto& l : sent[k].local) {
          double m = pl.getGrid().getGridSize() / 2.0 - std::max(std::fabs(l.x() - pos.x()), std::fabs(l.y() - pos.y()));
          bool match = at < vc.size() && (Eigen::Vector3d(vc[at].x, vc[at].y, vc[at].z) - l).norm() < 1e-3;
          if (m > 1e-3 && !match) {
            ok = false;
            why = fmt("point (%g, %g, %g) of cloud %d not binned in its place", l.x(), l.y(), l.z(), k);
            break;
          }
          if (match && m > -1e-3) at++;
        }
        if (ok && at == vc.size()) found = k;
      }
      if (found < 0)
        c.fail("cloud-used", fmt("the %zu points binned are not those of any cloud sent since the last one used; ", pl.visualization_cloud_.points.size()) + why);
      else {
        if (found < (int)sent.size() - 1 && sent[found].local.size()) c.count("older-cloud-used");
        used = found;
        c.count("clouds-used");
      }
      if (!wait && calls > 2000) c.count("slow-worker");
    }
    // ---- health
    auto st = rosmock::taken<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status");
    size_t at = 0;
    // while waiting (the last wait ended by data arriving is judged too: it is evaluated before the data is noticed)
    for (double w : wantTerm) {
      if (at >= st.size() || st[at].state != (int)MAV_STATE::MAV_STATE_FLIGHT_TERMINATION) {
        c.fail("termination", fmt("no data for %g s (limit %g s) but termination was not reported", w - queryStart, g.timeout_termination));
        dead = true;
        break;
      }
      lastStatus = w;
      at++;
      c.count("terminations-while-waiting");
    }
    if (dead) break;
    double sinceAlgo = now - lastAlgo, sinceStart = now - start;
    int want = (int)MAV_STATE::MAV_STATE_ACTIVE;
    if (sinceAlgo > g.timeout_termination && sinceStart > g.timeout_termination)
      want = (int)MAV_STATE::MAV_STATE_FLIGHT_TERMINATION;
    else if (sinceAlgo > g.timeout_critical && sinceStart > g.timeout_critical)
      want = (int)MAV_STATE::MAV_STATE_CRITICAL;
    if (!wantTerm.empty()) want = want == (int)MAV_STATE::MAV_STATE_CRITICAL ? want : (int)MAV_STATE::MAV_STATE_FLIGHT_TERMINATION;
    bool edge = std::fabs(sinceAlgo - g.timeout_termination) < 1e-6 || std::fabs(sinceStart - g.timeout_termination) < 1e-6 || std::fabs(sinceAlgo - g.timeout_critical) < 1e-6 || std::fabs(sinceStart - g.timeout_critical) < 1e-6;
    bool due = now - lastStatus > 0.2, dueEdge = std::fabs(now - lastStatus - 0.2) < 1e-6;
    if (st.size() > at + 1 || (!dueEdge && (st.size() == at + 1) != due)) c.fail("heartbeat", fmt("%zu status messages, %g s after the last one", st.size() - at, now - lastStatus));
    if (st.size() > at) {
      if (!edge && st[at].state != want) c.fail("status", fmt("state %d, expected %d (last grid %g s ago, running for %g s, limits %g and %g)", st[at].state, want, sinceAlgo, sinceStart, g.timeout_critical, g.timeout_termination));
      if (st[at].component != 196) c.fail("component", fmt("%d", st[at].component));
      lastStatus = now;
      h << st[at].state;
      c.count(want == (int)MAV_STATE::MAV_STATE_ACTIVE ? "active" : want == (int)MAV_STATE::MAV_STATE_CRITICAL ? "critical" : "termination");
    }
    lastAlgo = now;
    c.evals(1);
    h << (int)wait << wantTerm.size() << (int)changed;
  }
  // the node can be destroyed whatever its worker is doing
  if (r.chance(0.3)) {
    tfUp = false;
    rosmock::deliver("/cam/points", sent.empty() ? sensor_msgs::PointCloud2() : sent.back().msg);
  }
  if (r.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 300)));
  node.reset();
  c.count("destroyed");
  c.distinct(h);
}
