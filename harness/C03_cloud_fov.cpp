// VH: libs=avoidance flavour=asan twin=1
// Point-cloud cleaning, extremal points and the field-of-view estimate built from them.
#include <avoidance/common.h>
#include "vh.h"
using namespace avoidance;
using vh::fmt;
static bool finite3(const pcl::PointXYZ& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
static bool same(const pcl::PointXYZ& a, const pcl::PointXYZ& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }

VH_SUITE(clean, 20000, 500000) {
  auto& r = c.rng;
  int n = r.pick({0, 1, 2, 3, r.range(0, 30), r.range(30, 400)});
  double pbad = r.pick({0.0, 0.02, 0.3, 0.8, 1.0});
  float S = r.pick({1.f, 15.f, 100.f, 9000.f});
  pcl::PointCloud<pcl::PointXYZ> in;
  for (int i = 0; i < n; i++) {
    pcl::PointXYZ p(r.unif(-S, S), r.unif(-S, S), r.unif(-S, S));
    if (r.chance(0.2) && i) p = in.points[r.below(i)];
    if (r.chance(pbad)) {
      float bad = r.pick({NAN, -NAN, INFINITY, -INFINITY});
      int k = r.range(1, 7);
      if (k & 1) p.x = bad;
      if (k & 2) p.y = bad;
      if (k & 4) p.z = bad;
    }
    in.push_back(p);
  }
  in.header.frame_id = "cam";
  in.is_dense = r.chance(0.5);
  if (n && n % 2 == 0 && r.chance(0.5)) in.height = 2, in.width = n / 2;
  std::vector<pcl::PointXYZ> want;
  for (auto& p : in.points)
    if (finite3(p)) want.push_back(p);
  auto out = in;
  auto m = removeNaNAndGetMaxima(out);
  if (out.points.size() != want.size() || out.width != want.size() || out.height != 1 || !out.is_dense)
    c.fail("kept-count", fmt("%d points, %zu finite, kept %zu (width %u height %u dense %d)", n, want.size(), out.points.size(), out.width, out.height, (int)out.is_dense));
  else
    for (size_t i = 0; i < want.size(); i++)
      if (!same(out.points[i], want[i])) {
        c.fail("kept-points", fmt("finite point %zu of %zu not kept in order", i, want.size()));
        break;
      }
  if (m.header.frame_id != in.header.frame_id) c.fail("frame", "extremal points lost the frame id");
  if (want.empty()) {
    if (!m.points.empty()) c.fail("extremes-of-nothing", "extremal points from an empty cloud");
  } else {
    float lo[3] = {1e30f, 1e30f, 1e30f}, hi[3] = {-1e30f, -1e30f, -1e30f}, mlo[3] = {1e30f, 1e30f, 1e30f}, mhi[3] = {-1e30f, -1e30f, -1e30f};
    auto acc = [](const pcl::PointXYZ& p, float* l, float* h) {
      const float v[3] = {p.x, p.y, p.z};
      for (int k = 0; k < 3; k++) l[k] = std::min(l[k], v[k]), h[k] = std::max(h[k], v[k]);
    };
    for (auto& p : want) acc(p, lo, hi);
    for (auto& p : m.points) {
      acc(p, mlo, mhi);
      bool member = false;
      for (auto& q : want) member |= same(p, q);
      if (!member) c.fail("extremes-members", "an extremal point is not a point of the cloud");
    }
    for (int k = 0; k < 3; k++)
      if (lo[k] != mlo[k] || hi[k] != mhi[k]) c.fail("extremes", fmt("axis %d: cloud [%g, %g], extremal points [%g, %g] of %zu", k, lo[k], hi[k], mlo[k], mhi[k], want.size()));
  }
  c.count("points", n);
  if (want.size() != (size_t)n && !want.empty()) c.count("mixed_clouds");
  c.distinct(vh::Hasher() << n << want.size() << (want.empty() ? 0.f : want[0].x));
  c.digest(vh::Hasher() << out.points.size() << m.points.size());
}

// A camera whose true field of view is an arc below 180 degrees sees random points; the estimate only grows, and when it
// grows it covers every extremal point of that cloud without exceeding their spread.
VH_SUITE(estimate, 20000, 500000) {
  auto& r = c.rng;
  double yaw = r.pick({r.uni(-180, 180), r.uni(-180, 180), 180.0, -180.0, 175.0, 0.0, 90.0, -90.0}), h = r.uni(5, 170), pitch = r.uni(-30, 30), v = r.uni(5, 50);
  FOV fov;
  if (r.chance(0.3)) fov = FOV((float)vh::angDiff(yaw, 0), (float)pitch, (float)(h * r.uni(0, 1.3)), (float)(v * r.uni(0, 1.3)));
  int rounds = r.range(1, 6);
  for (int k = 0; k < rounds; k++) {
    pcl::PointCloud<pcl::PointXYZ> cl;
    int n = r.pick({0, 1, 2, 3, 6, 6, 6, 12});
    std::vector<std::pair<double, double>> pol;
    double f = r.uni(0.1, 1.0);
    for (int i = 0; i < n; i++) {
      double z = yaw + r.uni(-0.5, 0.5) * h * f, e = pitch + r.uni(-0.5, 0.5) * v * f, d = r.uni(0.5, 30);
      // FCU convention: yaw counter-clockwise from +x, pitch positive down
      cl.push_back(pcl::PointXYZ(d * cos(e * M_PI / 180) * cos(z * M_PI / 180), d * cos(e * M_PI / 180) * sin(z * M_PI / 180), -d * sin(e * M_PI / 180)));
      pol.push_back({z, e});
    }
    FOV before = fov;
    updateFOVFromMaxima(fov, cl);
    double zlo = 1e9, zhi = -1e9, elo = 1e9, ehi = -1e9;
    for (auto& p : pol) zlo = std::min(zlo, p.first), zhi = std::max(zhi, p.first), elo = std::min(elo, p.second), ehi = std::max(ehi, p.second);
    double span = n ? zhi - zlo : 0, vspan = n ? ehi - elo : 0;
    const double t = 0.05;
    std::string ctx = fmt("camera yaw %.3f h %.3f: cloud spans azimuth [%.3f, %.3f] pitch [%.3f, %.3f]; estimate yaw %.3f h %.3f pitch %.3f v %.3f -> yaw %.3f h %.3f pitch %.3f v %.3f", yaw, h, zlo, zhi,
                          elo, ehi, before.yaw_deg, before.h_fov_deg, before.pitch_deg, before.v_fov_deg, fov.yaw_deg, fov.h_fov_deg, fov.pitch_deg, fov.v_fov_deg);
    if (fov.h_fov_deg < before.h_fov_deg || fov.v_fov_deg < before.v_fov_deg) c.fail("shrank", ctx);
    if (span > before.h_fov_deg + t) {
      c.count("grew_horizontally");
      if (std::fabs(fov.h_fov_deg - span) > t || std::fabs(vh::angDiff(fov.yaw_deg, (zlo + zhi) / 2)) > t || std::fabs(fov.yaw_deg) > 180.01) c.fail("azimuth-estimate", ctx);
    } else if (span < before.h_fov_deg - t) {
      if (fov.h_fov_deg != before.h_fov_deg || fov.yaw_deg != before.yaw_deg) c.fail("azimuth-changed-without-need", ctx);
    }
    if (vspan > before.v_fov_deg + t) {
      c.count("grew_vertically");
      if (std::fabs(fov.v_fov_deg - vspan) > t || std::fabs(fov.pitch_deg - (elo + ehi) / 2) > t) c.fail("pitch-estimate", ctx);
    } else if (vspan < before.v_fov_deg - t) {
      if (fov.v_fov_deg != before.v_fov_deg || fov.pitch_deg != before.pitch_deg) c.fail("pitch-changed-without-need", ctx);
    }
    if (n == 0) c.count("empty_clouds");
    c.distinct(vh::Hasher() << (int)(fov.yaw_deg / 4) << (int)(fov.h_fov_deg / 4) << n);
    c.digest(vh::Hasher() << fov.yaw_deg << fov.h_fov_deg << fov.pitch_deg << fov.v_fov_deg);
    if (c.index == 3) c.sample(ctx);
  }
}

// Whatever the points (also beyond the range limits the estimate was designed for), nothing is read or written out of
// bounds and the estimate stays a field of view.
VH_SUITE(hostile, 8000, 200000) {
  auto& r = c.rng;
  pcl::PointCloud<pcl::PointXYZ> cl;
  int n = r.range(0, 50);
  auto hv = [&]() -> float {
    return r.pick({0.f, -0.f, NAN, INFINITY, -INFINITY, 9999.f, -9999.f, 1e5f, -1e5f, 3e38f, -3e38f, 1e-38f, r.unif(-20.f, 20.f), r.unif(-20.f, 20.f)});
  };
  for (int i = 0; i < n; i++) cl.push_back(pcl::PointXYZ(hv(), hv(), hv()));
  auto m = removeNaNAndGetMaxima(cl);
  for (auto& p : cl.points)
    if (!finite3(p)) c.fail("nan-left", "a non-finite point was kept");
  for (auto& p : m.points)
    if (!finite3(p)) c.fail("nan-extreme", "a non-finite extremal point");
  FOV f(r.unif(-180.f, 180.f), r.unif(-30.f, 30.f), r.unif(0.f, 90.f), r.unif(0.f, 60.f));
  FOV b = f;
  updateFOVFromMaxima(f, m);
  if (!(f.h_fov_deg >= b.h_fov_deg && f.h_fov_deg <= 361.f && f.v_fov_deg >= b.v_fov_deg && f.v_fov_deg <= 181.f && std::fabs(f.yaw_deg) <= 180.1f && std::fabs(f.pitch_deg) <= 90.1f))
    c.fail("estimate-not-a-fov", fmt("yaw %g pitch %g h %g v %g", f.yaw_deg, f.pitch_deg, f.h_fov_deg, f.v_fov_deg));
  c.count("extremes", m.points.size());
  if (n) c.distinct(vh::Hasher() << n << m.points.size() << f.yaw_deg);
}
