// VH: libs=avoidance flavour=tsan shards=4
// VH: libs=avoidance flavour=asan shards=8
// Concurrent writers and readers of one transform buffer: no data race, and every lookup that succeeds is the
// interpolation of what the writer inserted (the writer's motion is linear in time, so any bracketing pair agrees).
#include <avoidance/transform_buffer.h>
#include <thread>
#include "vh.h"
using avoidance::tf_buffer::TransformBuffer;
VH_SUITE_WD(concurrent, 40, 800, 40) {
  rosmock::setTime(50.0);
  TransformBuffer buf(c.rng.pick({10.f, 0.5f, 0.1f}));
  rosmock::setTime(60.0);
  std::atomic<int64_t> newest[2];
  const int64_t T0 = 100000000000ll, STEP = 5000000ll;
  for (auto& n : newest) n = T0;
  std::atomic<int> stop{0};
  const char* src[2] = {"cam0", "cam1"};
  const int N = 400;
  std::vector<std::thread> th;
  std::atomic<uint64_t> ok{0}, miss{0}, bad{0}, refused{0};
  for (int w = 0; w < 2; w++)
    th.emplace_back([&, w] {
      for (int i = 0; i < N; i++) {
        tf::StampedTransform s;
        int64_t t = T0 + i * STEP;
        s.stamp_.fromNSec(t);
        double x = (t - T0) * 1e-9 * (w ? -3.0 : 3.0);
        s.setOrigin(tf::Vector3(x, 2 * x, w + 1.0));
        s.setRotation(tf::Quaternion(0, 0, 0, 1));
        if (!buf.insertTransform(src[w], "local_origin", s)) refused++;
        newest[w].store(t);
        if (i % 16 == 0) std::this_thread::yield();
      }
      stop++;
    });
  for (int rd = 0; rd < 3; rd++) {
    uint64_t seed = c.rng.next();
    th.emplace_back([&, rd, seed] {
      vh::Rng r(seed);
      for (int i = 0; stop.load() < 2 || i < 50; i++) {
        int w = r.below(2);
        int64_t hi = newest[w].load();
        int64_t q = hi - (int64_t)(r.unit() * 4) * STEP - (int64_t)(r.unit() * STEP) + (r.chance(0.2) ? STEP : 0);
        ros::Time t;
        t.fromNSec(q);
        tf::StampedTransform out;
        if (buf.getTransform(src[w], "local_origin", t, out)) {
          ok++;
          double x = (q - T0) * 1e-9 * (w ? -3.0 : 3.0);
          if (std::fabs(out.getOrigin().x() - x) > 1e-4 || std::fabs(out.getOrigin().y() - 2 * x) > 1e-4 || std::fabs(out.getOrigin().z() - (w + 1.0)) > 1e-4) bad++;
        } else
          miss++;
        if (i > 20000) break;
      }
    });
  }
  for (auto& t : th) t.join();
  c.count("lookups_ok", ok);
  c.count("lookups_unavailable", miss);
  c.count("inserts", 2 * N);
  if (bad) c.fail("torn-lookup", vh::fmt("%llu lookups returned a transform nobody inserted", (unsigned long long)bad));
  if (refused) c.fail("lost-insert", vh::fmt("%llu newer transforms refused", (unsigned long long)refused));
  if (ok) c.distinct(vh::Hasher() << (uint64_t)ok << (uint64_t)miss << c.index);
}
