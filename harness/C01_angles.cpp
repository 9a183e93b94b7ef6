// VH: libs=avoidance flavour=asan twin=1
// Angle and coordinate conventions, checked against independent double-precision geometry.
#include <avoidance/common.h>
#include "vh.h"
using namespace avoidance;
using vh::fmt;
static const double PI = 3.14159265358979323846;
static double rad(double d) { return d * PI / 180; }

static float anyAngle(vh::Rng& r) {
  switch (r.below(6)) {
    case 0: return r.unif(-180.f, 180.f);
    case 1: return (float)(90 * r.range(-12, 12));
    case 2: return (float)(90 * r.range(-8, 8)) + r.unif(-1e-3f, 1e-3f);
    case 3: return r.unif(-1080.f, 1080.f);
    case 4: return std::nextafter((float)(180 * r.range(-4, 4)), r.chance(0.5) ? 1e9f : -1e9f);
    default: return r.unif(-100000.f, 100000.f);
  }
}
// direction of a histogram-convention polar point: azimuth clockwise from +y, elevation up
static Eigen::Vector3d dirHist(double e, double z) {
  return Eigen::Vector3d(std::cos(rad(e)) * std::sin(rad(z)), std::cos(rad(e)) * std::cos(rad(z)), std::sin(rad(e)));
}
// direction of an FCU-convention polar point: azimuth counter-clockwise from +x, pitch positive downwards
static Eigen::Vector3d dirFcu(double e, double z) {
  return Eigen::Vector3d(std::cos(rad(e)) * std::cos(rad(z)), std::cos(rad(e)) * std::sin(rad(z)), -std::sin(rad(e)));
}
static Eigen::Vector3f anyPos(vh::Rng& r, float s) { return Eigen::Vector3f(r.unif(-s, s), r.unif(-s, s), r.unif(-s, s)); }

VH_SUITE(wrap, 40000, 1000000) {
  float a = anyAngle(c.rng);
  double tol = 1e-4 + 2e-7 * std::fabs(a) * 4;
  float w = wrapAngleToPlusMinus180(a);
  if (!(w >= -180.001f - tol && w <= 180.001f + tol) || std::fabs(vh::angDiff(w, a)) > tol)
    c.fail("wrap180", fmt("wrap180(%.9g) = %.9g", a, w));
  float ar = (float)rad(a);
  double tolr = 1e-5 + 4e-7 * std::fabs(ar) * 2;
  float wr = wrapAngleToPlusMinusPI(ar);
  if (!(std::fabs(wr) <= PI + tolr + 1e-5) || std::fabs(vh::angDiff(wr * 180 / PI, (double)ar * 180 / PI)) > tolr * 180 / PI)
    c.fail("wrapPI", fmt("wrapPI(%.9g) = %.9g", ar, wr));
  float b = anyAngle(c.rng);
  double t2 = 1e-3 + 4e-7 * (std::fabs(a) + std::fabs(b));
  float d = angleDifference(a, b);
  if (!(d >= -180 - t2 && d <= 180 + t2) || std::fabs(vh::angDiff(d, (double)a - b)) > t2)
    c.fail("angleDifference", fmt("angleDifference(%.9g, %.9g) = %.9g", a, b, d));
  float x = c.rng.unif(-360.f, 360.f), y = c.rng.unif(-180.f, 180.f);
  float id = indexAngleDifference(x, y), id2 = indexAngleDifference(y, x);
  if (std::fabs(id - std::fabs(vh::angDiff(x, y))) > 1e-3 || std::fabs(id - id2) > 1e-3)
    c.fail("circular-distance", fmt("indexAngleDifference(%.9g, %.9g) = %.9g / %.9g", x, y, id, id2));
  // yaw rate command: half the shortest way round
  float cur = c.rng.unif(-3.1415925f, 3.1415925f), des = c.rng.chance(0.3) ? c.rng.unif(-12.f, 12.f) : c.rng.unif(-3.1415f, 3.1415f);
  double v = getAngularVelocity(des, cur);
  double sd = vh::angDiff(des * 180 / PI, cur * 180 / PI) * PI / 180;
  bool amb = std::fabs(std::fabs(sd) - PI) < 1e-4;
  if (amb ? std::fabs(std::fabs(v) - PI / 2) > 1e-3 : std::fabs(v - 0.5 * sd) > 1e-4)
    c.fail("yaw-rate-shortest-way", fmt("getAngularVelocity(%.9g, %.9g) = %.9g, expected %.9g", des, cur, v, 0.5 * sd));
  c.distinct(vh::Hasher() << (int)std::floor(a) << (int)std::floor(b));
  c.digest(vh::Hasher() << w << wr << d << id << v);
  if (c.index == 7) c.sample(fmt("wrap180(%g)=%g angleDifference(%g,%g)=%g", a, w, a, b, d));
}

VH_SUITE(wrap_polar, 40000, 1000000) {
  auto& r = c.rng;
  PolarPoint p(r.chance(0.3) ? anyAngle(r) : r.unif(-360.f, 360.f), anyAngle(r), r.unif(0.f, 50.f));
  if (std::fabs(p.e) > 2000) p.e = std::fmod(p.e, 720.f);
  PolarPoint q = p;
  wrapPolar(q);
  double tol = 1e-3 + 4e-7 * (std::fabs(p.e) + std::fabs(p.z));
  if (!(std::fabs(q.e) <= 90 + tol) || !(std::fabs(q.z) <= 180 + tol))
    c.fail("wrapPolar-range", fmt("wrapPolar(e %.9g, z %.9g) = (e %.9g, z %.9g)", p.e, p.z, q.e, q.z));
  if ((dirHist(p.e, p.z) - dirHist(q.e, q.z)).norm() > rad(2 * tol))
    c.fail("wrapPolar-direction", fmt("wrapPolar(e %.9g, z %.9g) = (e %.9g, z %.9g) points elsewhere", p.e, p.z, q.e, q.z));
  if (q.r != p.r) c.fail("wrapPolar-radius", "radius changed");
  c.distinct(vh::Hasher() << (int)std::floor(p.e / 3) << (int)std::floor(p.z / 3));
  // histogram bins at every valid resolution
  static const int RES[] = {1, 3, 5, 6, 10, 12, 15, 18, 30, 45, 60, 2};
  int res = r.chance(0.5) ? ALPHA_RES : RES[r.below(12)];
  Eigen::Vector2i i = polarToHistogramIndex(p, res);
  if (i.x() < 0 || i.x() >= 360 / res || i.y() < 0 || i.y() >= 180 / res) {
    c.fail("bin-range", fmt("polarToHistogramIndex(e %.9g, z %.9g, res %d) = (%d, %d)", p.e, p.z, res, i.x(), i.y()));
  } else {
    PolarPoint w = q;
    double half = res / 2.0, cz = i.x() * (double)res + half - 180, ce = i.y() * (double)res + half - 90;
    if (std::fabs(vh::angDiff(w.z, cz)) > half + tol || std::fabs(w.e - ce) > half + tol) {
      // next to +-90 degrees elevation / the azimuth seam either neighbour is right
      if ((dirHist(p.e, p.z) - dirHist(ce, cz)).norm() > 2 * std::sin(rad(half) / 2) * 1.5 + rad(tol))
        c.fail("bin-contains", fmt("direction (e %.9g, z %.9g) put in bin (%d, %d) of resolution %d", p.e, p.z, i.x(), i.y(), res));
      else if (std::fabs(w.e) < 89)
        c.fail("bin-contains", fmt("direction (e %.9g, z %.9g) put in bin (%d, %d) of resolution %d", p.e, p.z, i.x(), i.y(), res));
    }
  }
  if (res % 2 == 0) {
    int be = r.range(0, 180 / res - 1), bz = r.range(0, 360 / res - 1);
    float rr = r.chance(0.1) ? r.pick({0.f, 0.001f, 1e4f}) : r.unif(0.1f, 30.f);
    PolarPoint pc = histogramIndexToPolar(be, bz, res, rr);
    if (!vh::close(pc.e, be * res + res / 2.0 - 90, 1e-4) || !vh::close(pc.z, bz * res + res / 2.0 - 180, 1e-4) || pc.r != rr)
      c.fail("bin-centre", fmt("centre of bin (%d, %d) at %d deg is (e %g, z %g, r %g)", be, bz, res, pc.e, pc.z, pc.r));
    Eigen::Vector2i back = polarToHistogramIndex(pc, res);
    if (back.x() != bz || back.y() != be)
      c.fail("bin-round-trip", fmt("bin (%d, %d) at %d deg maps back to (%d, %d)", be, bz, res, back.y(), back.x()));
    c.count("bin_round_trips");
  }
  c.digest(vh::Hasher() << q.e << q.z << i.x() << i.y());
}

VH_SUITE(cartesian, 40000, 1000000) {
  auto& r = c.rng;
  float S = r.pick({1.f, 20.f, 500.f, 5000.f});
  Eigen::Vector3f o = r.chance(0.2) ? Eigen::Vector3f(0, 0, 0) : anyPos(r, S), d = anyPos(r, r.pick({0.5f, 5.f, 30.f, S}));
  if (r.chance(0.15)) d(r.below(3)) = 0.f;
  if (r.chance(0.05)) d.head<2>().setZero();
  Eigen::Vector3f p = o + d;
  Eigen::Vector3d t = p.cast<double>() - o.cast<double>();
  double n = t.norm();
  double ctol = 1e-6 * (p.norm() + o.norm() + 1) * 4;  // rounding of the coordinates themselves
  PolarPoint h = cartesianToPolarHistogram(p, o), h3 = cartesianToPolarHistogram(p.x(), p.y(), p.z(), o);
  if (h.e != h3.e || h.z != h3.z || h.r != h3.r) c.fail("overloads-differ", "vector and scalar overloads disagree");
  if (!vh::close(h.r, n, ctol, 1e-5)) c.fail("distance", fmt("r = %.9g, distance is %.9g", h.r, n));
  if (!(std::fabs(h.e) <= 90.001) || !(std::fabs(h.z) <= 180.001)) c.fail("range", fmt("(e %g, z %g)", h.e, h.z));
  if ((n * dirHist(h.e, h.z) - t).norm() > 2 * ctol + 1e-5 * n)
    c.fail("histogram-direction", fmt("offset (%g %g %g) -> e %.9g z %.9g", t.x(), t.y(), t.z(), h.e, h.z));
  PolarPoint f = cartesianToPolarFCU(p, o);
  if ((n * dirFcu(f.e, f.z) - t).norm() > 2 * ctol + 1e-5 * n)
    c.fail("fcu-direction", fmt("offset (%g %g %g) -> pitch %.9g yaw %.9g", t.x(), t.y(), t.z(), f.e, f.z));
  if (!(std::fabs(f.e) <= 90.001) || !(std::fabs(f.z) <= 180.001)) c.fail("fcu-range", fmt("(e %g, z %g)", f.e, f.z));
  Eigen::Vector3f b1 = polarHistogramToCartesian(h, o), b2 = polarFCUToCartesian(f, o);
  if ((b1.cast<double>() - p.cast<double>()).norm() > 2 * ctol + 1e-5 * n)
    c.fail("histogram-round-trip", fmt("point (%g %g %g) came back as (%g %g %g)", p.x(), p.y(), p.z(), b1.x(), b1.y(), b1.z()));
  if ((b2.cast<double>() - p.cast<double>()).norm() > 2 * ctol + 1e-5 * n)
    c.fail("fcu-round-trip", fmt("offset (%g %g %g) came back as (%g %g %g)", t.x(), t.y(), t.z(), b2.x() - o.x(), b2.y() - o.y(), b2.z() - o.z()));
  pcl::PointXYZ px(d.x(), d.y(), d.z());
  PolarPoint fp = cartesianToPolarFCU(px), f0 = cartesianToPolarFCU(d, Eigen::Vector3f::Zero());
  if (fp.e != f0.e || fp.z != f0.z || fp.r != f0.r) c.fail("fcu-point-overload", "PointXYZ overload differs from origin (0,0,0)");
  float ny = nextYaw(o, p);
  if (t.head<2>().norm() > 100 * ctol && std::fabs(vh::angDiff(ny * 180 / PI, std::atan2(t.y(), t.x()) * 180 / PI)) > 1e-2 + ctol / t.head<2>().norm() * 120)
    c.fail("nextYaw", fmt("yaw towards (%g, %g) is %g", t.x(), t.y(), ny));
  c.distinct(vh::Hasher() << (int)(h.e / 2) << (int)(h.z / 2) << (int)std::log2(n + 1e-9));
  PolarPoint p1(r.unif(-90, 90), r.unif(-180, 180), 1), p2(r.unif(-90, 90), r.unif(-180, 180), 1);
  if (!vh::close(distance2DPolar(p1, p2), std::hypot((double)p1.e - p2.e, (double)p1.z - p2.z), 1e-4, 1e-5)) c.fail("distance2DPolar", "wrong");
  c.digest(vh::Hasher() << h.e << h.z << f.e << f.z << b1.x() << b2.z());
}

VH_SUITE(frames, 30000, 600000) {
  auto& r = c.rng;
  Eigen::Vector3f v = anyPos(r, 1000.f);
  Eigen::Vector3f ned = toNED(v);
  if (ned.x() != v.y() || ned.y() != v.x() || ned.z() != -v.z()) c.fail("toNED", "north/east/down components wrong");
  if (toENU(ned) != v || toNED(toENU(v)) != v) c.fail("ned-enu-inverse", "toENU(toNED(v)) != v");
  float yd = r.unif(-360.f, 360.f);
  if (std::fabs(vh::angDiff(yawToNEDdeg(yd), 90.0 - yd)) > 1e-3 || std::fabs(vh::angDiff(yawToENUdeg(yawToNEDdeg(yd)), yd)) > 1e-3)
    c.fail("yaw-deg", fmt("%g", yd));
  float yr = r.unif(-6.3f, 6.3f);
  if (std::fabs(yawToNEDrad(yr) - (PI / 2 - yr)) > 1e-5 || std::fabs(yawToENUrad(yawToNEDrad(yr)) - yr) > 1e-5) c.fail("yaw-rad", fmt("%g", yr));
  if (pitchtoNED(yr) != -yr || pitchToENU(pitchtoNED(yr)) != yr) c.fail("pitch", "");
  // attitude: roll/pitch/yaw -> quaternion -> yaw and pitch
  double ro = r.uni(-3.1, 3.1), pi = r.uni(-1.55, 1.55), ya = r.uni(-3.14159, 3.14159);
  Eigen::Quaterniond q = quaternionFromRPY(Eigen::Vector3d(ro, pi, ya));
  Eigen::Matrix3d R = (Eigen::AngleAxisd(ya, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pi, Eigen::Vector3d::UnitY()) *
                       Eigen::AngleAxisd(ro, Eigen::Vector3d::UnitX())).toRotationMatrix();
  if ((q.toRotationMatrix() - R).norm() > 1e-9) c.fail("rpy-order", fmt("rpy %g %g %g", ro, pi, ya));
  Eigen::Quaternionf qf = q.cast<float>();
  if (r.chance(0.5)) qf.coeffs() = -qf.coeffs();  // the same rotation
  double cp = std::cos(pi);
  if (std::fabs(vh::angDiff(getYawFromQuaternion(qf), ya * 180 / PI)) > 0.01 + 2e-4 / cp) c.fail("yaw-from-quaternion", fmt("rpy %g %g %g -> %g", ro, pi, ya, getYawFromQuaternion(qf)));
  if (std::fabs(getPitchFromQuaternion(qf) - pi * 180 / PI) > 0.01 + 2e-4 / cp) c.fail("pitch-from-quaternion", fmt("rpy %g %g %g -> %g", ro, pi, ya, getPitchFromQuaternion(qf)));
  // looking straight up or down the sine may be rounded to, or beyond, one
  {
    float sgn = r.pick({1.f, -1.f}), k = 1.f + r.pick({0.f, 1e-7f, 3e-7f, -1e-7f});
    Eigen::Quaternionf v = (Eigen::AngleAxisf((float)ya, Eigen::Vector3f::UnitZ()) * Eigen::AngleAxisf(sgn * (float)PI / 2, Eigen::Vector3f::UnitY()));
    v.coeffs() *= k;
    float pv = getPitchFromQuaternion(v);
    if (!(std::fabs(pv - sgn * 90) < 0.2)) c.fail("pitch-vertical", fmt("pitch %g for a direction %s", pv, sgn > 0 ? "straight down" : "straight up"));
  }
  // ENU <-> NED attitude are inverse of each other and consistent with the vector conversion
  Eigen::Quaterniond n = orientationToNED(q), back = orientationToENU(n);
  if (std::min((back.coeffs() - q.coeffs()).norm(), (back.coeffs() + q.coeffs()).norm()) > 1e-9) c.fail("attitude-inverse", fmt("rpy %g %g %g", ro, pi, ya));
  // a body-forward axis expressed in ENU, converted, equals the forward axis of the NED attitude
  Eigen::Vector3d fwdEnu = q * Eigen::Vector3d::UnitX(), fwdNed = n * Eigen::Vector3d::UnitX();
  Eigen::Vector3d want(fwdEnu.y(), fwdEnu.x(), -fwdEnu.z());
  if ((fwdNed - want).norm() > 1e-9) c.fail("attitude-consistent", fmt("forward axis (%g %g %g) in NED is (%g %g %g)", fwdEnu.x(), fwdEnu.y(), fwdEnu.z(), fwdNed.x(), fwdNed.y(), fwdNed.z()));
  // pose creation
  Eigen::Vector3f wp;
  Eigen::Quaternionf oq;
  createPoseMsg(wp, oq, v, (float)ya);
  if (wp != v || std::fabs(vh::angDiff(getYawFromQuaternion(oq), ya * 180 / PI)) > 0.01 || std::fabs(getPitchFromQuaternion(oq)) > 0.01 || std::fabs(oq.norm() - 1) > 1e-5)
    c.fail("pose", fmt("yaw %g -> quaternion yaw %g", ya, getYawFromQuaternion(oq)));
  // message conversions are loss-free
  if (toEigen(toPoint(v)) != v || toEigen(toVector3(v)) != v || toEigen(toXYZ(v)) != v || toEigen(toXYZI(v, 3.f)) != v || toXYZI(v, 3.f).intensity != 3.f ||
      toEigen(toQuaternion(qf)).coeffs() != qf.coeffs())
    c.fail("message-conversions", "a conversion is not loss-free");
  pcl::PointXYZI xi[2] = {toXYZI(v.x(), v.y(), v.z(), yr), toXYZI(toXYZ(v), yr)};
  for (auto& x : xi)
    if (toEigen(x) != v || x.intensity != yr) c.fail("message-conversions", "position or intensity of a point changed");
  geometry_msgs::Twist tw = toTwist(v, -v);
  if (toEigen(tw.linear) != v || toEigen(tw.angular) != Eigen::Vector3f(-v)) c.fail("twist", "linear/angular mixed");
  geometry_msgs::PoseStamped ps = toPoseStamped(v, qf);
  if (toEigen(ps.pose.position) != v || toEigen(ps.pose.orientation).coeffs() != qf.coeffs() || ps.header.frame_id != "local_origin" || ps.header.stamp != ros::Time::now())
    c.fail("pose-stamped", "position/orientation/frame/stamp wrong");
  c.distinct(vh::Hasher() << (int)(ro * 10) << (int)(pi * 10) << (int)(ya * 10));
}
