// VH: libs=local_planner flavour=asan twin=1
// From the obstacle cloud to the polar histogram, the obstacle-distance scan for the flight controller and the logged
// image: each recomputed in double precision from the points themselves.
#include <local_planner/local_planner.h>
#include <local_planner/planner_functions.h>
#include "geo.h"
#include "vh.h"
using namespace avoidance;
using Eigen::Vector3f;
using vh::fmt;

namespace {
struct H {
  double d[GRID_LENGTH_E][GRID_LENGTH_Z];
  int n[GRID_LENGTH_E][GRID_LENGTH_Z];
  bool amb[GRID_LENGTH_E][GRID_LENGTH_Z];
};
// every bin: mean distance of the points inside; a bin is not judged when some point lies on its border
H reference(const pcl::PointCloud<pcl::PointXYZI>& cl, const Vector3f& pos) {
  H h;
  memset(&h, 0, sizeof h);
  Eigen::Vector3d o = geo::d(pos);
  for (auto& p : cl.points) {
    Eigen::Vector3d q(p.x, p.y, p.z);
    geo::Pol pol = geo::hist(q, o);
    double tol = 1e-3 + 3e-4 / (0.01 + pol.r);
    geo::Bin b = geo::bin(pol, ALPHA_RES, tol);
    h.d[b.e][b.z] += pol.r;
    h.n[b.e][b.z]++;
    if (b.amb || pol.r < 0.05)
      for (int de = -1; de <= 1; de++)
        for (int dz = -1; dz <= 1; dz++) {
          int e = b.e + de, z = b.z + dz;
          if (e < 0 || e >= GRID_LENGTH_E) continue;
          h.amb[e][(z + GRID_LENGTH_Z) % GRID_LENGTH_Z] = true;
        }
    if (b.amb && std::fabs(pol.e) > 80)
      for (int z = 0; z < GRID_LENGTH_Z; z++) h.amb[b.e][z] = true;
  }
  for (int e = 0; e < GRID_LENGTH_E; e++)
    for (int z = 0; z < GRID_LENGTH_Z; z++)
      if (h.n[e][z]) h.d[e][z] /= h.n[e][z];
  return h;
}
pcl::PointCloud<pcl::PointXYZI> cloud(vh::Rng& r, const Vector3f& pos, int n) {
  pcl::PointCloud<pcl::PointXYZI> c;
  int kind = r.below(3);
  for (int i = 0; i < n; i++) {
    Vector3f d;
    float dist = r.unif(0.05f, 20.f);
    if (kind == 0)
      d = Vector3f(r.gauss(), r.gauss(), r.gauss()).normalized() * dist;
    else if (kind == 1) {  // near the horizon
      float a = r.unif(-3.1416f, 3.1416f);
      d = Vector3f(dist * std::cos(a), dist * std::sin(a), r.unif(-2.f, 2.f));
    } else {  // a wall
      float a = (i % 10) * 0.02f + (r.chance(0.1) ? 1.f : 0.f);
      d = Vector3f(4.f, std::tan(a) * 4.f, r.unif(-1.5f, 1.5f));
    }
    Vector3f p = pos + d;
    c.points.push_back(toXYZI(p, r.unif(0.f, 3.f)));
  }
  c.width = c.points.size();
  c.height = 1;
  return c;
}
}  // namespace

VH_SUITE(histogram, 6000, 150000) {
  auto& r = c.rng;
  Vector3f pos(r.unif(-30, 30), r.unif(-30, 30), r.unif(-5, 30));
  auto cl = cloud(r, pos, r.pick({0, 1, 5, 50, 200}));
  if (r.chance(0.1)) {  // a surface seen from close by: many returns in one direction, at different distances
    Vector3f dir = Vector3f(r.gauss(), r.gauss(), r.gauss() * 0.3f).normalized();
    for (int i = 0, n = r.pick({60, 300, 1000}); i < n; i++) {
      Vector3f q = pos + (dir + Vector3f(r.gauss(), r.gauss(), r.gauss()) * 0.01f) * r.unif(1.f, 12.f);
      cl.push_back(toXYZI(q, 0.f));
    }
    c.count("clouds with a dense cluster");
  }
  Histogram h(ALPHA_RES);
  generateNewHistogram(h, cl, pos);
  H ref = reference(cl, pos);
  int occ = 0;
  vh::Hasher hs;
  for (int e = 0; e < GRID_LENGTH_E; e++)
    for (int z = 0; z < GRID_LENGTH_Z; z++) {
      float g = h.get_dist(e, z);
      if (ref.amb[e][z]) {
        c.count("bins not judged (point on the border)");
        continue;
      }
      if (!vh::close(g, ref.d[e][z], 1e-3, 1e-4)) c.fail(ref.n[e][z] ? "bin-distance" : "phantom-obstacle", fmt("bin (%d,%d): %g, mean distance of its %d points is %g", e, z, g, ref.n[e][z], ref.d[e][z]));
      if (ref.n[e][z]) occ++, hs << e << z;
      c.count(ref.n[e][z] ? "occupied bins compared" : "free bins compared");
    }
  // a used histogram that was zeroed gives the same answer
  Histogram h2(ALPHA_RES);
  generateNewHistogram(h2, cloud(r, pos, 30), pos);
  h2.setZero();
  generateNewHistogram(h2, cl, pos);
  // the elevation-compressed view
  Histogram comp(ALPHA_RES);
  compressHistogramElevation(comp, h, pos);
  for (int e = 0; e < GRID_LENGTH_E; e++)
    for (int z = 0; z < GRID_LENGTH_Z; z++) {
      if (h2.get_dist(e, z) != h.get_dist(e, z)) c.fail("depends-on-history", fmt("bin (%d,%d)", e, z));
      if (e > 0 && comp.get_dist(e, z) != 0.f) c.fail("compressed-rows", fmt("row %d", e));
    }
  for (int z = 0; z < GRID_LENGTH_Z; z++) {
    double best = 0;
    bool amb = false;
    for (int e = (90 - 10) / ALPHA_RES; e <= (90 + 10) / ALPHA_RES; e++) {
      double d = h.get_dist(e, z);
      if (d <= 0) continue;
      double dh = std::fabs(d * std::sin((e * ALPHA_RES + ALPHA_RES / 2.0 - 90) / geo::R2D));
      if (std::fabs(dh - 1.0) < 1e-4 * (1 + pos.norm())) amb = true;
      if (dh < 1.0 && (best == 0 || d < best)) best = d;
    }
    if (amb) continue;
    if (comp.get_dist(0, z) != (float)best) c.fail("compressed-distance", fmt("column %d: %g, closest obstacle within 1 m of height and 10 deg of the horizon %g", z, comp.get_dist(0, z), best));
    if (best > 0) c.count("compressed columns with obstacle");
  }
  if (occ) c.distinct(hs);
  if (c.index < 2) c.sample(fmt("%zu points in %d bins", cl.points.size(), occ));
}

VH_SUITE(scan, 1500, 40000) {
  auto& r = c.rng;
  rosmock::reset();
  double now = r.pick({10.0, 1.6e9});
  rosmock::setTime(now);
  LocalPlanner lp;
  LocalPlannerNodeConfig cfg;
  cfg.min_sensor_range_ = r.pick({0.2, 0.0, 1.0, 2.5});
  cfg.max_sensor_range_ = r.pick({8.0, 15.0, 30.0});
  cfg.children_per_node_ = 1;
  cfg.n_expanded_nodes_ = 1;
  cfg.max_point_age_s_ = r.pick({0.0, 20.0});
  lp.dynamicReconfigureSetParams(cfg, 0);
  lp.px4_.param_cp_dist = r.pick({4.f, 0.5f, 4.f, -1.f, 0.f, NAN});
  lp.px4_.param_mpc_xy_cruise = 3.f;
  lp.setGoal(Vector3f(r.unif(-50, 50), r.unif(-50, 50), 5));
  std::vector<FOV> fov = geo::rig(r);
  for (auto& f : fov) {  // the scan is about azimuth; the horizon is in every camera's vertical window
    f.pitch_deg = r.unif(-15, 15);
    f.v_fov_deg = std::max(60.f, f.v_fov_deg);
  }
  for (size_t i = 0; i < fov.size(); i++) lp.setFOV(i, fov[i]);
  int hits = 0;
  vh::Hasher hs;
  for (int step = 0, n = r.range(1, 4); step < n; step++) {
    now += 0.1;
    rosmock::setTime(now);
    Vector3f pos(r.unif(-30, 30), r.unif(-30, 30), r.unif(0, 20));
    double ya = r.unif(-3.14f, 3.14f);
    lp.setState(pos, Vector3f(r.gauss(), r.gauss(), 0), Eigen::Quaternionf(std::cos(ya / 2), 0, 0, std::sin(ya / 2)));
    auto src = cloud(r, pos, r.pick({0, 20, 100}));
    lp.original_cloud_vector_.assign(1, pcl::PointCloud<pcl::PointXYZ>());
    for (auto& p : src.points) lp.original_cloud_vector_[0].push_back(pcl::PointXYZ(p.x, p.y, p.z));
    sensor_msgs::LaserScan before, s;
    lp.getObstacleDistanceData(before);
    lp.runPlanner();
    lp.getObstacleDistanceData(s);
    H ref = reference(lp.getPointcloud(), pos);
    // logged image
    if (lp.histogram_image_data_.size() != (size_t)GRID_LENGTH_E * GRID_LENGTH_Z) c.fail("image-size", fmt("%zu", lp.histogram_image_data_.size()));
    for (int e = 0; e < GRID_LENGTH_E; e++)
      for (int z = 0; z < GRID_LENGTH_Z; z++) {
        if (ref.amb[e][z]) continue;
        double d = ref.d[e][z], want = d > 0.01 ? std::max(0.0, 255 - 255 * d / cfg.max_sensor_range_) : 0;
        int got = lp.histogram_image_data_[(GRID_LENGTH_E - 1 - e) * GRID_LENGTH_Z + z];
        if (std::fabs(got - want) > 1.01) c.fail("image", fmt("bin (%d,%d) at %g m is drawn as %d, expected %g", e, z, d, got, want));
      }
    if (!(lp.px4_.param_cp_dist > 0.f)) {
      if (s.ranges.size() != before.ranges.size()) c.fail("scan-while-disabled", "a scan was made although collision prevention is off");
      c.count("scans suppressed");
      continue;
    }
    if (s.header.frame_id != "local_origin" || !(s.header.stamp == ros::Time::now()) || std::fabs(s.angle_increment - ALPHA_RES * M_PI / 180) > 1e-6 || s.range_min != (float)cfg.min_sensor_range_ ||
        s.range_max != (float)cfg.max_sensor_range_)
      c.fail("scan-header", fmt("increment %g, range %g..%g", s.angle_increment, s.range_min, s.range_max));
    if (s.ranges.size() != (size_t)GRID_LENGTH_Z) {
      c.fail("scan-size", fmt("%zu ranges", s.ranges.size()));
      continue;
    }
    float yaw = lp.getOrientation();
    for (int i = 0; i < GRID_LENGTH_Z; i++) {
      // ranges[i] looks at azimuth i*6 .. i*6+6 degrees clockwise from north
      double az = vh::angDiff(i * ALPHA_RES + ALPHA_RES / 2.0, 0), body = 90 - az - yaw;
      geo::T a = geo::inAny(fov, 0, vh::angDiff(body - ALPHA_RES / 2.0, 0), 0.02), b = geo::inAny(fov, 0, vh::angDiff(body + ALPHA_RES / 2.0, 0), 0.02);
      geo::T see = geo::either(a, b);
      int z = (i + GRID_LENGTH_Z / 2) % GRID_LENGTH_Z;
      double best = 0;
      bool amb = false;
      for (int e = (90 - 10) / ALPHA_RES; e <= (90 + 10) / ALPHA_RES; e++) {
        if (ref.amb[e][z]) amb = true;
        double d = ref.d[e][z];
        if (d <= 0) continue;
        double dh = std::fabs(d * std::sin((e * ALPHA_RES + ALPHA_RES / 2.0 - 90) / geo::R2D));
        if (std::fabs(dh - 1.0) < 1e-3) amb = true;
        if (dh < 1.0 && (best == 0 || d < best)) best = d;
      }
      if (see == geo::AMB || (see == geo::YES && (amb || std::fabs(best - cfg.min_sensor_range_) < 1e-3))) {
        c.count("scan directions not judged");
        continue;
      }
      float got = s.ranges[i];
      std::string ctx = fmt("direction %d (azimuth %g from north), heading %g, cameras ", i, az, yaw) + geo::show(fov);
      if (see == geo::NO) {
        if (!std::isnan(got)) c.fail("scan-unseen-direction", ctx + fmt(": %g reported outside every field of view", got));
        c.count("scan directions unknown");
      } else if (best > cfg.min_sensor_range_) {
        if (!vh::close(got, best, 2e-3, 1e-4)) c.fail("scan-obstacle", ctx + fmt(": %g reported, obstacle at %g", got, best));
        c.count("scan directions with obstacle");
        hits++;
        hs << i << (int)best;
      } else {
        if (!(got > cfg.max_sensor_range_) || !(got < cfg.max_sensor_range_ + 0.1)) c.fail("scan-free", ctx + fmt(": %g reported for a free direction", got));
        c.count("scan directions free");
      }
    }
  }
  if (hits) c.distinct(hs);
}
