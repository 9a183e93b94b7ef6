// VH: libs=safe_landing_planner flavour=asan
// What the operator is shown of the landing planner, against the grids themselves.
#define private public
#define protected public
#include <safe_landing_planner/safe_landing_planner_visualization.hpp>
#include <safe_landing_planner/waypoint_generator_node.hpp>
#undef private
#undef protected
#include <memory>
#include "vh.h"
using namespace avoidance;
using vh::fmt;
typedef visualization_msgs::Marker M;
typedef visualization_msgs::MarkerArray MA;

namespace {
void cells(vh::Case& c, const char* what, const MA& a) {
  std::set<int> ids;
  for (auto& m : a.markers) {
    if (m.type != M::CUBE || m.action != M::ADD || m.header.frame_id != "local_origin" || !(m.header.stamp == ros::Time::now()) || !(m.color.a > 0)) {
      c.fail("marker", fmt("%s: type %d action %d frame %s", what, (int)m.type, (int)m.action, m.header.frame_id.c_str()));
      return;
    }
    if (!ids.insert(m.id).second) {
      c.fail("same-id", fmt("%s: two cells share id %d: one hides the other", what, m.id));
      return;
    }
  }
}
// a hue from red (0) once around the circle (1); black outside
void hue(double h, double* rgb) {
  rgb[0] = rgb[1] = rgb[2] = 0;
  if (!(h >= 0 && h <= 1)) return;
  double p = std::fmod(h * 6, 6), x = 1 - std::fabs(std::fmod(p, 2) - 1);
  const int hi[6] = {0, 1, 1, 2, 2, 0}, lo[6] = {1, 0, 2, 1, 0, 2};
  rgb[hi[(int)p]] = 1, rgb[lo[(int)p]] = x;
}
bool like(const M& m, const double* w) { return std::fabs(m.color.r - w[0]) < 0.02 && std::fabs(m.color.g - w[1]) < 0.02 && std::fabs(m.color.b - w[2]) < 0.02; }
}  // namespace

VH_SUITE(grid, 300, 8000) {
  auto& r = c.rng;
  rosmock::reset();
  double now = r.pick({1.0, 1000.0});
  rosmock::setTime(now);
  SafeLandingPlanner p;
  p.play_rosbag_ = false;
  SafeLandingPlannerVisualization vis;
  ros::NodeHandle nh("");
  vis.initializePublishers(nh);
  safe_landing_planner::SafeLandingPlannerNodeConfig g = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__();
  Eigen::Vector3f pos(r.unif(-50, 50), r.unif(-50, 50), r.unif(0, 20));
  geometry_msgs::Point lastPos;
  int lastId = 0;
  vh::Hasher h;
  for (int it = 0, N = r.range(1, 4); it < N; it++) {
    if (!it || r.chance(0.3)) {
      g.cell_size = r.pick({0.5, 1.0, 0.3}), g.grid_size = r.pick({5.0, 10.0, 3.3, 1.0});
      g.smoothing_size = r.pick({-1, 0, 1, 2}), g.n_points_threshold = r.pick({0.0, 1.0, 3.0, 20.0}), g.std_dev_threshold = r.pick({0.1, 0.5, 1.0});
      g.min_n_land_cells = r.pick({0, 3}), g.alpha = r.pick({0.0, 0.5});
      p.dynamicReconfigureSetParams(g, 0);
    }
    pos += Eigen::Vector3f(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1));
    p.cloud_.clear();
    double slope = r.pick({0.0, 0.2, 1.0});
    for (int k = r.pick({0, 50, 1000, 6000}); k > 0; k--) {
      float x = r.unif(-5.5, 5.5), y = r.unif(-5.5, 5.5);
      if (r.chance(0.3)) x *= 0.1, y *= 0.1;  // some cells see far more
      p.cloud_.push_back(pcl::PointXYZ(pos.x() + x, pos.y() + y, slope * x + (r.chance(0.5) ? 0 : r.gauss() * 0.2f)));
    }
    p.setPose(pos, Eigen::Quaternionf(1, 0, 0, 0));
    rosmock::setTime(now += 0.1);
    p.runSafeLandingPlanner();
    rosmock::clearLog();
    geometry_msgs::Point here = toPoint(pos);
    vis.visualizeSafeLandingPlanner(p, here, lastPos, g);
    c.evals(1);
    Grid gr = p.getGrid();
    const int n = gr.getRowColSize();
    Eigen::Vector2f lo, hi;
    gr.getGridLimits(lo, hi);
    auto cl = rosmock::taken<pcl::PointCloud<pcl::PointXYZI>>("grid_pointcloud");
    if (cl.size() != 1 || cl[0].size() != p.visualization_cloud_.size()) c.fail("cloud", "the binned points are not shown");
    else
      for (size_t i = 0; i < cl[0].size(); i++)
        if (cl[0][i].x != p.visualization_cloud_[i].x || cl[0][i].z != p.visualization_cloud_[i].z) {
          c.fail("cloud", "a binned point is shown elsewhere");
          break;
        }
    const char* topic[3] = {"grid", "grid_mean_std_dev", "grid_counter"};
    for (int t = 0; t < 3; t++) {
      auto v = rosmock::taken<MA>(topic[t]);
      if (v.size() != 1 || (int)v[0].markers.size() != n * n) {
        c.fail("cell-count", fmt("%s: %zu messages, %zu cells for a grid of %d by %d", topic[t], v.size(), v.empty() ? 0 : v[0].markers.size(), n, n));
        return;
      }
      cells(c, topic[t], v[0]);
      // by place, not by order
      std::vector<const M*> at(n * n, nullptr);
      const double cs = gr.getCellSize(), tol = 1e-3 * cs + 1e-4;
      for (auto& m : v[0].markers) {
        double x = (m.pose.position.x - lo.x()) / cs - 0.5, y = (m.pose.position.y - lo.y()) / cs - 0.5;
        int i = (int)std::lround(x), j = (int)std::lround(y);
        if (i < 0 || i >= n || j < 0 || j >= n || std::fabs(x - i) * cs > tol || std::fabs(y - j) * cs > tol || at[i * n + j] || std::fabs(m.scale.x - cs) > 1e-6 || std::fabs(m.scale.y - cs) > 1e-6) {
          c.fail("cell-place", fmt("%s: a cell of %g by %g is drawn at (%g, %g); the grid begins at (%g, %g) with cells of %g", topic[t], m.scale.x, m.scale.y, m.pose.position.x, m.pose.position.y, lo.x(), lo.y(), cs));
          return;
        }
        at[i * n + j] = &m;
      }
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
          const M& m = *at[i * n + j];
          double w[3] = {0, 0, 0};
          if (t == 0) {
            bool land = gr.land_(i, j);
            w[land ? 1 : 0] = 1;
            if (!like(m, w)) c.fail("landable-colour", fmt("cell (%d,%d), landable %d, drawn with red %g green %g", i, j, land, m.color.r, m.color.g));
            c.count(land ? "landable cells" : "unlandable cells");
          } else if (t == 1) {
            double sd = std::sqrt((double)gr.getVariance()(i, j)), q = sd / (float)g.std_dev_threshold;
            if (!vh::close(m.pose.position.z, gr.getMean()(i, j), 1e-6, 1e-6)) c.fail("height", fmt("cell (%d,%d) of height %g drawn at %g", i, j, gr.getMean()(i, j), m.pose.position.z));
            hue(q, w);
            if (std::fabs(q - 1) > 1e-3 && !like(m, w)) c.fail("roughness-colour", fmt("cell (%d,%d), standard deviation %g of at most %g, drawn in (%g %g %g)", i, j, sd, g.std_dev_threshold, m.color.r, m.color.g, m.color.b));
            c.count(q > 1 ? "rough cells" : "even cells");
          } else {
            double q = (gr.getCounter()(i, j) - (float)g.n_points_threshold) / (400 - (float)g.n_points_threshold);
            hue(std::fmod(q, 1), w);  // goes round again above 400
            if (std::fabs(q - std::round(q)) > 1e-3 && !like(m, w)) c.fail("counter-colour", fmt("cell (%d,%d), %d points, at least %g needed, drawn in (%g %g %g)", i, j, gr.getCounter()(i, j), g.n_points_threshold, m.color.r, m.color.g, m.color.b));
            c.count(q < 0 ? "cells with too few points" : "cells with points enough");
          }
        }
    }
    auto pa = rosmock::taken<M>("path_actual");
    if (pa.size() != 1 || pa[0].points.size() != 2) {
      c.fail("path", "no segment of the path");
      return;
    }
    auto is = [](const geometry_msgs::Point& a, const geometry_msgs::Point& b) { return a.x == b.x && a.y == b.y && a.z == b.z; };
    if (!is(pa[0].points[0], lastPos) || !is(pa[0].points[1], here) || pa[0].type != M::LINE_STRIP || pa[0].header.frame_id != "local_origin") c.fail("path", "the segment is not from the position before to the newest");
    if (it && pa[0].id == lastId) c.fail("path-id", "a segment replaces the one before");
    lastId = pa[0].id;
    lastPos = here;
    h << n << (int)cl[0].size();
  }
  c.distinct(h);
}

// the area considered for landing
VH_SUITE(area, 200, 5000) {
  auto& r = c.rng;
  rosmock::reset();
  rosmock::setTime(r.uni(1, 1000));
  auto node = std::unique_ptr<WaypointGeneratorNode>(new WaypointGeneratorNode(ros::NodeHandle("")));
  node->startNode();
  safe_landing_planner::WaypointGeneratorNodeConfig g = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__();
  g.smoothing_land_cell = r.range(0, 8);
  rosmock::reconfigure(g, 0u);
  Eigen::Vector3f pos(r.unif(-50, 50), r.unif(-50, 50), r.unif(1, 20));
  vh::Hasher h;
  for (int it = 0, N = r.range(1, 5); it < N; it++) {
    geometry_msgs::PoseStamped p;
    p.pose.position = toPoint(pos);
    p.pose.orientation.w = 1;
    rosmock::deliver("mavros/local_position/pose", p);
    int n = r.pick({1, 4, 9, 10, 21});
    float cell = r.pick({0.25f, 0.5f, 1.f});
    safe_landing_planner::SLPGridMsg m;
    m.header.seq = it + 1;
    m.grid_size = n * cell, m.cell_size = cell;
    m.mean.layout.dim.resize(2), m.land.layout.dim.resize(2);
    m.mean.layout.dim[0].size = m.mean.layout.dim[1].size = m.land.layout.dim[0].size = m.land.layout.dim[1].size = n;
    m.mean.data.assign(n * n, 0.f), m.land.data.assign(n * n, 1);
    rosmock::deliver("grid_slp", m);
    mavros_msgs::Trajectory tr;
    Eigen::Vector3f goal(r.unif(-50, 50), r.unif(-50, 50), r.unif(1, 20));
    tr.point_valid = {1, 1, 0, 0, 0};
    tr.point_1.position = toPoint(goal), tr.point_2.position = toPoint(goal);
    tr.command = {16, 16, 0, 0, 0};
    rosmock::deliver("mavros/trajectory/desired", tr);
    rosmock::clearLog();
    rosmock::advance(0.1);
    rosmock::fire(0.1);
    auto v = rosmock::taken<MA>("land_hysteresis");
    int q = std::min((int)g.smoothing_land_cell, (n - 1) / 2);
    if (v.size() != 1 || (int)v[0].markers.size() != (2 * q + 1) * (2 * q + 1)) {
      c.fail("area-cells", fmt("%zu cells drawn for a radius of %d cells", v.empty() ? 0 : v[0].markers.size(), q));
      return;
    }
    cells(c, "land_hysteresis", v[0]);
    // the cells around the one the vehicle is over, in a grid centred on the vehicle
    std::set<std::pair<int, int>> seen;
    for (auto& k : v[0].markers) {
      double x = (k.pose.position.x - (pos.x() - n * cell / 2)) / cell - 0.5, y = (k.pose.position.y - (pos.y() - n * cell / 2)) / cell - 0.5;
      int i = (int)std::lround(x) - n / 2, j = (int)std::lround(y) - n / 2;
      if (std::fabs(x - std::lround(x)) > 0.01 || std::fabs(y - std::lround(y)) > 0.01 || std::abs(i) > q || std::abs(j) > q || !seen.insert({i, j}).second || k.scale.x != cell || k.scale.y != cell) {
        c.fail("area-place", fmt("a cell of the area is drawn at (%g, %g): %.3f, %.3f cells from the grid's first cell (grid of %d by %d, cells of %g)", k.pose.position.x, k.pose.position.y, x, y, n, n, cell));
        return;
      }
    }
    auto gm = rosmock::taken<M>("goal_position");
    if (gm.size() != 1 || gm[0].type != M::SPHERE || std::fabs(gm[0].pose.position.x - node->waypointGenerator_.goal_.x()) > 1e-4 || std::fabs(gm[0].pose.position.y - node->waypointGenerator_.goal_.y()) > 1e-4)
      c.fail("goal", "the goal is not where it is shown");
    c.evals(1);
    c.count("areas compared");
    h << n << q << (int)(cell * 4);
    pos += Eigen::Vector3f(r.unif(-1, 1), r.unif(-1, 1), 0);
  }
  c.distinct(h);
}
