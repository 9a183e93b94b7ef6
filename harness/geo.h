// Independent double-precision geometry used as the oracles' reference.
#pragma once
#include <avoidance/common.h>
#include "vh.h"

namespace geo {
using avoidance::FOV;
const double R2D = 57.29577951308232;
struct Pol {
  double e, z, r;
};
// azimuth clockwise from +y (north), elevation up
inline Pol hist(const Eigen::Vector3d& p, const Eigen::Vector3d& o) {
  Eigen::Vector3d d = p - o;
  return {std::atan2(d.z(), std::hypot(d.x(), d.y())) * R2D, std::atan2(d.x(), d.y()) * R2D, d.norm()};
}
// azimuth counter-clockwise from +x (forward), pitch positive down
inline Pol fcu(const Eigen::Vector3d& p, const Eigen::Vector3d& o) {
  Eigen::Vector3d d = p - o;
  return {-std::atan2(d.z(), std::hypot(d.x(), d.y())) * R2D, std::atan2(d.y(), d.x()) * R2D, d.norm()};
}
inline Eigen::Vector3d unhist(const Pol& p, const Eigen::Vector3d& o) {
  double e = p.e / R2D, z = p.z / R2D;
  return o + p.r * Eigen::Vector3d(std::cos(e) * std::sin(z), std::cos(e) * std::cos(z), std::sin(e));
}
// bin indices at resolution res; ambiguous if within tol degrees of a boundary
struct Bin {
  int e, z;
  bool amb;
};
inline Bin bin(const Pol& p, int res, double tol = 1e-3) {
  double fe = (p.e + 90) / res, fz = (p.z + 180) / res;
  Bin b{(int)std::floor(fe), (int)std::floor(fz), false};
  double h = std::max(1e-9, std::cos(p.e / R2D));
  b.amb = std::fabs(fe - std::round(fe)) * res < tol || std::fabs(fz - std::round(fz)) * res < tol / h;
  b.e = std::min(std::max(b.e, 0), 180 / res - 1);
  b.z = std::min(std::max(b.z, 0), 360 / res - 1);
  return b;
}
enum T { NO, YES, AMB };
inline T inYaw(const FOV& f, double z, double m = 4e-3) {
  double d = std::fabs(vh::angDiff(z, f.yaw_deg)), h = f.h_fov_deg / 2.0;
  if (h >= 180 - m) return h >= 180 + m || d < 180 - 2 * m ? YES : AMB;
  return d < h - m ? YES : d > h + m ? NO : AMB;
}
inline T inPitch(const FOV& f, double e, double m = 4e-3) {
  double d = std::fabs(e - f.pitch_deg), h = f.v_fov_deg / 2.0;
  return d < h - m ? YES : d > h + m ? NO : AMB;
}
inline T both(T a, T b) { return a == NO || b == NO ? NO : a == YES && b == YES ? YES : AMB; }
inline T either(T a, T b) { return a == YES || b == YES ? YES : a == NO && b == NO ? NO : AMB; }
// direction (e,z) brought to |e|<=90, |z|<=180
inline void wrap(double& e, double& z) {
  e = vh::angDiff(e, 0);
  if (e > 90) {
    e = 180 - e;
    z += 180;
  } else if (e < -90) {
    e = -180 - e;
    z += 180;
  }
  z = vh::angDiff(z, 0);
}
inline T inAny(const std::vector<FOV>& v, double e, double z, double m = 4e-3) {
  T t = NO;
  for (auto& f : v) t = either(t, both(inYaw(f, z, m), inPitch(f, e, m)));
  return t;
}
inline std::vector<FOV> rig(vh::Rng& r) {
  std::vector<FOV> v;
  int n = r.pick({0, 1, 1, 1, 2, 2, 3, 4});
  float start = r.unif(-180.f, 180.f), h = r.unif(30.f, 120.f);
  for (int i = 0; i < n; i++)
    v.push_back(r.chance(0.5) ? FOV(avoidance::wrapAngleToPlusMinus180(start + i * h * r.pick({0.8f, 1.1f, 1.4f})), r.pick({0.f, 0.f, 10.f, -15.f}), h, r.pick({46.f, 58.f, 90.f}))
                              : FOV(r.unif(-180.f, 180.f), r.unif(-40.f, 40.f), r.unif(10.f, 170.f), r.unif(5.f, 120.f)));
  return v;
}
inline std::string show(const std::vector<FOV>& v) {
  std::string s;
  for (auto& f : v) s += vh::fmt("[yaw %g pitch %g h %g v %g] ", f.yaw_deg, f.pitch_deg, f.h_fov_deg, f.v_fov_deg);
  return s;
}
inline Eigen::Vector3d d(const Eigen::Vector3f& v) { return v.cast<double>(); }
}  // namespace geo
