// VH: libs=local_planner flavour=asan twin=1
// The cruise speed the planner hands on: never faster than it can stop within what it sees, nor than it was told to fly.
#include <local_planner/local_planner.h>
#include "geo.h"
#include "vh.h"
using namespace avoidance;
using vh::fmt;

VH_SUITE(cruise, 20000, 500000) {
  auto& r = c.rng;
  LocalPlanner p;
  LocalPlannerNodeConfig cfg;
  bool configured = r.chance(0.9);
  double range = 12.0;  // the planner's own default
  for (int k = 0, n = r.range(1, 3); k < n; k++) {
    if (configured) {
      cfg.max_sensor_range_ = r.pick({15.0, 5.0, 40.0, 0.5, r.uni(0.1, 40)});
      range = (float)cfg.max_sensor_range_;
      p.dynamicReconfigureSetParams(cfg, 0);
    }
    p.px4_.param_mpc_acc_hor = r.pick({5.f, 3.f, 2.f, 15.f, r.unif(0.5f, 15.f)});
    p.px4_.param_mpc_jerk_max = r.pick({20.f, 8.f, 30.f, 0.5f, r.unif(0.5f, 80.f)});
    p.px4_.param_mpc_xy_cruise = r.pick({3.f, 5.f, 20.f, r.unif(0.1f, 25.f)});
    p.mission_item_speed_ = r.chance(0.5) ? NAN : r.pick({1.f, 30.f, r.unif(0.1f, 25.f)});
    double a = p.px4_.param_mpc_acc_hor, j = p.px4_.param_mpc_jerk_max;
    double told = std::isfinite(p.mission_item_speed_) ? p.mission_item_speed_ : p.px4_.param_mpc_xy_cruise;
    double v = p.getAvoidanceOutput().cruise_velocity;
    std::string ctx = fmt("range %g m, acceleration %g, jerk %g, mission speed %g, cruise %g: %g m/s", range, a, j, p.mission_item_speed_, p.px4_.param_mpc_xy_cruise, v);
    if (!std::isfinite(v) || v < 0) {
      c.fail("not-a-speed", ctx);
      return;
    }
    // braking distance: the acceleration builds up at the maximum jerk, then stays
    double stop = v * a / j + v * v / (2 * a);
    if (stop > range * 1.001 + 1e-3) c.fail("cannot-stop", ctx + fmt(", stops after %g m", stop));
    if (v > told * 1.00001) c.fail("faster-than-told", ctx);
    bool atTold = v > told * 0.9999, atLimit = stop > range * 0.998 - 1e-3;
    if (!atTold && !atLimit) c.fail("needlessly-slow", ctx + fmt(", stops after %g m", stop));
    c.count(atTold ? "as told" : "limited by the sensor range");
    c.evals(1);
    c.distinct(vh::Hasher() << (float)v << (float)range);
    c.digest(vh::Hasher() << (float)v);
    if (c.index < 4) c.sample(ctx);
  }
}
