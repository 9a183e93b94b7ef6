// VH: libs=avoidance flavour=asan
// Transform buffer: random histories of inserts and lookups against a model that keeps every accepted transform.
#include <avoidance/transform_buffer.h>
#include "vh.h"
using avoidance::tf_buffer::TransformBuffer;
using vh::fmt;
struct Entry {
  int64_t t;
  tf::Vector3 o;
  tf::Quaternion q;
};
static int64_t ns(const ros::Time& t) { return (int64_t)t.toNSec(); }
static ros::Time at(int64_t n) {
  ros::Time t;
  t.fromNSec(n);
  return t;
}
static double qdist(const tf::Quaternion& a, const tf::Quaternion& b) {
  double d = a.x() * b.x() + a.y() * b.y() + a.z() * b.z() + a.w() * b.w();
  return 1 - std::min(1.0, std::fabs(d));
}
VH_SUITE(history, 12000, 250000) {
  auto& r = c.rng;
  rosmock::setTime(100.0);
  double size = r.pick({10.0, 1.0, 0.25, r.uni(0.05, 5)});
  TransformBuffer buf((float)size);
  int64_t sizeNs = (int64_t)ros::Duration((double)(float)size).toNSec();
  rosmock::setTime(100.0 + r.pick({0.0, 10.0}));  // reporting starts 3 s after construction
  const int N = 6;  // the other way round is another pair, and so is one whose joined names are the same
  const char* frames[N][2] = {{"cam_a", "local_origin"}, {"cam_a", "fcu"}, {"cam_b", "local_origin"}, {"local_origin", "cam_a"}, {"cam_", "alocal_origin"}, {"fcu", "cam_a"}};
  int off = r.below(N), used = r.range(2, 4);
  std::map<int, std::vector<Entry>> model;
  int64_t t[N];
  for (auto& x : t) x = 200000000000ll + r.range(0, 1000) * 1000000ll;
  int ops = r.range(5, 80);
  vh::Hasher h;
  for (int k = 0; k < ops; k++) {
    int f = (off + r.below(used)) % N;
    auto& m = model[f];
    if (r.chance(0.5)) {  // insert, mostly forwards in time
      int64_t nt;
      switch (r.below(8)) {
        case 0: nt = t[f]; break;                                  // same stamp again
        case 1: nt = t[f] - r.range(1, 2000000000); break;         // older
        case 2: nt = t[f] + sizeNs + r.pick({0, 1, -1}); break;    // exactly one buffer length
        case 3: nt = t[f] + (int64_t)(sizeNs * r.uni(0.9, 3)); break;
        default: nt = t[f] + 1 + (int64_t)(r.unit() * 0.3 * sizeNs);
      }
      tf::StampedTransform s;
      s.stamp_ = at(nt);
      s.setOrigin(tf::Vector3(r.uni(-10, 10), r.uni(-10, 10), r.uni(-10, 10)));
      tf::Quaternion q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
      q.normalize();
      s.setRotation(q);
      s.frame_id_ = "x", s.child_frame_id_ = "y";
      bool want = m.empty() || nt > m.back().t;
      bool got = buf.insertTransform(frames[f][0], frames[f][1], s);
      if (want != got) c.fail("accept", fmt("insert at %lld after %lld: returned %d", (long long)nt, m.empty() ? 0ll : (long long)m.back().t, got));
      if (want) {
        m.push_back({nt, s.getOrigin(), s.getRotation()});
        size_t drop = 0;
        while (nt - m[drop].t > sizeNs) drop++;
        m.erase(m.begin(), m.begin() + drop);
        t[f] = nt;
        c.count("inserted");
        if (drop) c.count("dropped", drop);
      } else {
        c.count("insert_refused");
      }
    } else {
      int64_t q;
      if (m.empty())
        q = t[f];
      else {
        auto& e = m[r.below(m.size())];
        switch (r.below(6)) {
          case 0: q = e.t; break;
          case 1: q = e.t + r.pick({1, -1}); break;
          case 2: q = m.back().t + r.range(1, 1000000000); break;
          case 3: q = m.front().t - r.range(1, 1000000000); break;
          default: q = m.front().t + (int64_t)(r.unit() * (m.back().t - m.front().t));
        }
      }
      tf::StampedTransform out;
      out.setOrigin(tf::Vector3(77, 77, 77));
      bool want = !m.empty() && q >= m.front().t && q <= m.back().t;
      bool got = buf.getTransform(frames[f][0], frames[f][1], at(q), out);
      if (got != want) {
        c.fail(m.size() == 1 ? "availability-single" : "availability",
               fmt("lookup at %lld in [%lld, %lld] (%zu buffered) returned %d", (long long)q, m.empty() ? 0ll : (long long)m.front().t, m.empty() ? 0ll : (long long)m.back().t, m.size(), got));
        continue;
      }
      if (!got) {
        c.count("lookup_unavailable");
        continue;
      }
      size_t j = 0;
      while (j + 1 < m.size() && m[j + 1].t <= q) j++;
      size_t j2 = std::min(j + 1, m.size() - 1);
      double tau = m[j2].t == m[j].t ? 0 : double(q - m[j].t) / double(m[j2].t - m[j].t);
      tf::Vector3 eo = m[j].o * (1 - tau) + m[j2].o * tau;
      if ((out.getOrigin() - eo).length() > 1e-4) c.fail("interpolated-position", fmt("off by %g at tau %g", (out.getOrigin() - eo).length(), tau));
      double dot = std::fabs(m[j].q.x() * m[j2].q.x() + m[j].q.y() * m[j2].q.y() + m[j].q.z() * m[j2].q.z() + m[j].q.w() * m[j2].q.w());
      Eigen::Quaterniond a(m[j].q.w(), m[j].q.x(), m[j].q.y(), m[j].q.z()), b(m[j2].q.w(), m[j2].q.x(), m[j2].q.y(), m[j2].q.z());
      Eigen::Quaterniond e = a.slerp(tau, b);
      // both ways round are equally short near 180 degrees
      if (dot > 0.02 && qdist(out.getRotation(), tf::Quaternion(e.x(), e.y(), e.z(), e.w())) > 1e-6)
        c.fail("interpolated-rotation", fmt("off by %g at tau %g", qdist(out.getRotation(), tf::Quaternion(e.x(), e.y(), e.z(), e.w())), tau));
      if (ns(out.stamp_) != q) {
        // an exact hit needs no interpolation; the stamp then is the buffered one, which is q as well
        c.fail("stamp", fmt("asked for %lld, stamped %lld", (long long)q, (long long)ns(out.stamp_)));
      }
      c.count(tau == 0 || tau == 1 ? "lookup_exact" : "lookup_interpolated");
      h << (int)(tau * 50) << (int)m.size();
    }
  }
  c.distinct(h);
  if (c.index == 2) c.sample(fmt("buffer %g s, %d operations on %d frame pairs", size, ops, used));
}
