// VH: libs=avoidance flavour=asan twin=1
// Camera field-of-view predicates against an independent model on the circle. Directions within a small margin of a
// boundary are not judged (rounding decides them).
#include <avoidance/common.h>
#include "vh.h"
using namespace avoidance;
using vh::fmt;
enum T { NO, YES, AMB };
static T inYaw(const FOV& f, double z, double m = 2e-3) {
  double d = std::fabs(vh::angDiff(z, f.yaw_deg)), h = f.h_fov_deg / 2.0;
  if (h >= 180 - m) return h >= 180 + m || d < 180 - 2 * m ? YES : AMB;
  return d < h - m ? YES : d > h + m ? NO : AMB;
}
static T inPitch(const FOV& f, double e, double m = 1e-3) {
  double d = std::fabs(e - f.pitch_deg), h = f.v_fov_deg / 2.0;
  return d < h - m ? YES : d > h + m ? NO : AMB;
}
static T both(T a, T b) { return a == NO || b == NO ? NO : a == YES && b == YES ? YES : AMB; }
static T anyOf(const std::vector<FOV>& v, std::function<T(const FOV&)> p) {
  bool amb = false;
  for (auto& f : v) {
    T t = p(f);
    if (t == YES) return YES;
    if (t == AMB) amb = true;
  }
  return amb ? AMB : NO;
}
static std::string show(const std::vector<FOV>& v) {
  std::string s;
  for (auto& f : v) s += fmt("[yaw %g pitch %g h %g v %g] ", f.yaw_deg, f.pitch_deg, f.h_fov_deg, f.v_fov_deg);
  return s;
}
static std::vector<FOV> rig(vh::Rng& r) {
  std::vector<FOV> v;
  int n = r.pick({0, 1, 1, 1, 2, 2, 3, 3, 4, 6});
  int kind = r.below(4);
  float h = r.unif(20.f, 140.f), start = r.unif(-180.f, 180.f);
  for (int i = 0; i < n; i++) {
    if (kind == 0)
      v.push_back(FOV(r.unif(-180.f, 180.f), r.unif(-60.f, 60.f), r.pick({r.unif(1.f, 179.f), r.unif(40.f, 120.f), 360.f}), r.unif(1.f, 120.f)));
    else if (kind == 1)  // a ring of equal cameras with overlap or gaps
      v.push_back(FOV(wrapAngleToPlusMinus180(start + i * h * r.pick({0.8f, 1.0f, 1.1f, 1.3f})), 0.f, h, 60.f));
    else if (kind == 2)  // typical mounting
      v.push_back(FOV(r.pick({0.f, 90.f, -90.f, 180.f, -180.f, 45.f, -45.f, 135.f}), r.pick({0.f, 0.f, 15.f, -20.f}), r.pick({59.f, 66.f, 85.f, 90.f, 110.f}), r.pick({46.f, 50.f, 58.f})));
    else  // pointing backwards, across the seam
      v.push_back(FOV(r.unif(140.f, 220.f) > 180.f ? r.unif(-180.f, -140.f) : r.unif(140.f, 180.f), r.unif(-20.f, 20.f), r.unif(30.f, 170.f), r.unif(20.f, 90.f)));
  }
  return v;
}
static float direction(vh::Rng& r, const std::vector<FOV>& v) {
  if (v.empty() || r.chance(0.3)) return r.unif(-180.f, 180.f);
  const FOV& f = v[r.below(v.size())];
  switch (r.below(4)) {
    case 0: return wrapAngleToPlusMinus180(f.yaw_deg + r.unif(-0.5f, 0.5f) * f.h_fov_deg);
    case 1: return wrapAngleToPlusMinus180(f.yaw_deg + r.pick({-0.5f, 0.5f}) * f.h_fov_deg + r.unif(-4.f, 4.f));
    case 2: return wrapAngleToPlusMinus180(f.yaw_deg + 180.f + r.unif(-30.f, 30.f));
    default: return wrapAngleToPlusMinus180(f.yaw_deg + r.unif(-2.f, 2.f));
  }
}

VH_SUITE(membership, 60000, 1500000) {
  auto& r = c.rng;
  std::vector<FOV> v = rig(r);
  PolarPoint p(v.empty() || r.chance(0.3) ? r.unif(-90.f, 90.f) : v[0].pitch_deg + r.unif(-0.7f, 0.7f) * v[0].v_fov_deg, direction(r, v), r.unif(0.f, 20.f));
  std::string ctx = fmt("direction yaw %.6g pitch %.6g, cameras ", p.z, p.e) + show(v);
  auto judge = [&](T want, bool got, const char* key) {
    if (want == AMB) {
      c.count("not_judged_boundary");
      return;
    }
    c.count(want == YES ? "inside" : "outside");
    if ((want == YES) != got) c.fail(key, ctx + fmt("-> %d", got));
  };
  for (auto& f : v) {
    judge(inYaw(f, p.z), pointInsideYawFOV(f, p), "yaw-membership");
    judge(both(inYaw(f, p.z), inPitch(f, p.e)), pointInsideFOV(f, p), "membership");
  }
  judge(anyOf(v, [&](const FOV& f) { return inYaw(f, p.z); }), pointInsideYawFOV(v, p), "yaw-membership-any");
  judge(anyOf(v, [&](const FOV& f) { return both(inYaw(f, p.z), inPitch(f, p.e)); }), pointInsideFOV(v, p), "membership-any");
  // exactly-one camera
  int hits = 0, which = -1, idx = 77;
  bool amb = false;
  for (size_t i = 0; i < v.size(); i++) {
    T t = inYaw(v[i], p.z);
    if (t == AMB) amb = true;
    if (t == YES) hits++, which = i;
  }
  bool got = isInWhichFOV(v, p, idx);
  if (!amb) {
    if (got != (hits == 1) || idx != (hits == 1 ? which : -1)) c.fail("which-camera", ctx + fmt("-> %d index %d (seen by %d)", got, idx, hits));
    c.count(hits == 0 ? "seen_by_none" : hits == 1 ? "seen_by_one" : "seen_by_many");
  }
  // edge and scale
  int eidx = 55;
  bool edge = isOnEdgeOfFOV(v, p, eidx);
  float s = scaleToFOV(v, p);
  if (!(s >= 0.f && s <= 1.f)) c.fail("scale-range", ctx + fmt("-> scale %.9g", s));
  if (edge != (eidx >= 0)) c.fail("edge-index", ctx + fmt("-> edge %d index %d", edge, eidx));
  if (!amb) {
    T wantEdge = NO;
    double wantScale = hits ? 1 : 0;
    if (hits == 1) {
      const FOV& f = v[which];
      double d = vh::angDiff(p.z, f.yaw_deg);
      if (std::fabs(d) < 2e-3 || std::fabs(d) > 180 - 2e-3) {
        wantEdge = AMB;
      } else {
        double out = f.yaw_deg + (d > 0 ? 1 : -1) * (f.h_fov_deg / 2.0 + ALPHA_RES / 2.0);
        T o = anyOf(v, [&](const FOV& g) { return inYaw(g, out, 5e-3); });
        wantEdge = o == YES ? NO : o == NO ? YES : AMB;
        if (wantEdge == YES) wantScale = 1 - 2 * std::fabs(d) / f.h_fov_deg;
      }
    }
    if (wantEdge != AMB) {
      c.count(wantEdge == YES ? "edge" : "interior");
      if (edge != (wantEdge == YES) || (edge && eidx != which)) c.fail("edge", ctx + fmt("-> edge %d index %d", edge, eidx));
      if (std::fabs(s - wantScale) > 2e-3) c.fail("scale", ctx + fmt("-> scale %.6g expected %.6g", s, wantScale));
    }
  }
  if (hits) c.distinct(vh::Hasher() << hits << edge << (int)(s * 20) << (int)(p.z / 3) << (int)v.size());
  c.digest(vh::Hasher() << got << idx << edge << eidx << s);
  if (c.index == 5) c.sample(ctx + fmt("-> scale %g", s));
}

VH_SUITE(columns, 30000, 800000) {
  auto& r = c.rng;
  std::vector<FOV> v = rig(r);
  for (auto& f : v) {  // keep the horizon inside the vertical window: the predicate is about azimuth
    f.pitch_deg = r.unif(-20.f, 20.f);
    f.v_fov_deg = std::max(60.f, f.v_fov_deg);
  }
  Eigen::Vector3f pos(r.unif(-50.f, 50.f), r.unif(-50.f, 50.f), r.unif(-10.f, 50.f));
  float yaw = r.unif(-180.f, 180.f);
  int idx = r.range(0, GRID_LENGTH_Z - 1);
  double az = idx * ALPHA_RES + ALPHA_RES / 2.0 - 180;  // clockwise from north
  double body = 90 - az - yaw;                          // counter-clockwise from the nose
  bool anyFail = false;
  auto want = [&](const std::vector<FOV>& set) {
    T lo = anyOf(set, [&](const FOV& f) { return inYaw(f, body - ALPHA_RES / 2.0, 0.02); });
    T hi = anyOf(set, [&](const FOV& f) { return inYaw(f, body + ALPHA_RES / 2.0, 0.02); });
    return lo == YES || hi == YES ? YES : lo == NO && hi == NO ? NO : AMB;
  };
  T w = want(v);
  bool g = histogramIndexYawInsideFOV(v, idx, pos, yaw);
  if (w != AMB && g != (w == YES)) anyFail = true;
  for (auto& f : v) {
    T w1 = want({f});
    bool g1 = histogramIndexYawInsideFOV(f, idx, pos, yaw);
    if (w1 != AMB && g1 != (w1 == YES)) anyFail = true;
    c.count(w1 == YES ? "column_inside" : "column_outside");
  }
  if (anyFail) c.fail("histogram-column", fmt("column %d heading %g: ", idx, yaw) + show(v) + fmt("-> %d", g));
  if (w == YES) c.distinct(vh::Hasher() << idx << (int)(yaw / 10) << (int)v.size());
  c.digest(vh::Hasher() << g);
}
