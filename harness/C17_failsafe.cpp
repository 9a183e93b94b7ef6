// VH: libs=avoidance flavour=asan
// Health ladder reported to the flight controller, against a model of the documented timeouts.
#include <avoidance/avoidance_node.h>
#include "vh.h"
using namespace avoidance;
using vh::fmt;
static ros::Duration durNs(int64_t n) {
  ros::Duration d;
  d.fromNSec(n);
  return d;
}
static int64_t anyDur(vh::Rng& r) {
  const int64_t S = 1000000000ll;
  switch (r.below(5)) {
    case 0: return r.pick({S / 2, 5 * S, 15 * S}) + r.pick({-1, 0, 1});
    case 1: return (int64_t)(r.uni(0, 1) * S);
    case 2: return (int64_t)(r.uni(0, 20) * S);
    case 3: return (int64_t)(r.uni(14.9, 15.1) * S);
    default: return (int64_t)(r.uni(0, 3600) * S);
  }
}
VH_SUITE(ladder, 8000, 200000) {
  auto& r = c.rng;
  rosmock::reset();
  rosmock::setTime(1000);
  ros::NodeHandle nh("~"), nhp("");
  std::unique_ptr<AvoidanceNode> n(new AvoidanceNode(nh, nhp));
  MAV_STATE state = n->getSystemStatus();
  if (state != MAV_STATE::MAV_STATE_STANDBY) c.fail("initial", fmt("state %d before initialisation", (int)state));
  bool hover = false;
  int steps = r.range(1, 40);
  vh::Hasher h;
  for (int k = 0; k < steps; k++) {
    if (r.chance(0.2)) hover = r.chance(0.5);
    if (r.chance(0.05)) {
      state = r.pick({MAV_STATE::MAV_STATE_BOOT, MAV_STATE::MAV_STATE_ACTIVE, MAV_STATE::MAV_STATE_CRITICAL, MAV_STATE::MAV_STATE_STANDBY, MAV_STATE::MAV_STATE_EMERGENCY});
      n->setSystemStatus(state);
      if (n->getSystemStatus() != state) c.fail("set-get", "state set is not the state read");
    }
    const int64_t S = 1000000000ll;
    int64_t cloud = anyDur(r), start = r.chance(0.3) ? cloud + r.range(0, 100000000) : anyDur(r);
    bool before = hover;
    bool wantHover = hover;
    const char* what;
    if (cloud > 15 * S && start > 15 * S)
      state = MAV_STATE::MAV_STATE_FLIGHT_TERMINATION, what = "termination";
    else if (cloud > S / 2 && start > 5 * S)
      state = MAV_STATE::MAV_STATE_CRITICAL, wantHover = true, what = "critical";
    else if (!hover)
      state = MAV_STATE::MAV_STATE_ACTIVE, what = "active";
    else
      what = "unchanged";
    n->checkFailsafe(durNs(cloud), durNs(start), hover);
    c.count(what);
    h << what[0] << before;
    if (n->getSystemStatus() != state || hover != wantHover)
      c.fail(what, fmt("data age %.9f s, uptime %.9f s, hovering %d: state %d (expected %d), hover %d (expected %d)", cloud * 1e-9, start * 1e-9, before, (int)n->getSystemStatus(), (int)state, hover, wantHover));
  }
  c.distinct(h);
}

// The state that is reported five times a second is the state most recently set.
VH_SUITE(heartbeat, 160, 2000) {
  auto& r = c.rng;
  rosmock::reset();
  rosmock::setTime(1000);
  rosmock::bus().services["mavros/param/get"] = [](void*) { return false; };
  ros::NodeHandle nh("~"), nhp("");
  std::unique_ptr<AvoidanceNode> n(new AvoidanceNode(nh, nhp));
  n->init();
  MAV_STATE want = MAV_STATE::MAV_STATE_BOOT;
  if (n->getSystemStatus() != want) c.fail("boot", fmt("state %d after initialisation", (int)n->getSystemStatus()));
  bool found = false;
  for (auto& t : rosmock::timers()) found |= std::fabs(t->period - 0.2) < 1e-9;
  if (!found) c.fail("period", "no 5 Hz status timer");
  for (int k = 0; k < 20; k++) {
    rosmock::advance(0.2);
    bool hov = false;
    if (r.chance(0.5)) {
      int64_t cl = anyDur(r), st = anyDur(r);
      n->checkFailsafe(durNs(cl), durNs(st), hov);
      want = cl > 15000000000ll && st > 15000000000ll ? MAV_STATE::MAV_STATE_FLIGHT_TERMINATION : cl > 500000000ll && st > 5000000000ll ? MAV_STATE::MAV_STATE_CRITICAL : MAV_STATE::MAV_STATE_ACTIVE;
    }
    rosmock::clearLog();
    rosmock::fire(0.2);
    auto v = rosmock::taken<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status");
    if (v.size() != 1) {
      c.fail("heartbeat-count", fmt("%zu status messages in one period", v.size()));
      continue;
    }
    if (v[0].state != (int)want || v[0].component != 196 || !(v[0].header.stamp == ros::Time::now()))
      c.fail("heartbeat-content", fmt("state %d (expected %d) component %d", v[0].state, (int)want, v[0].component));
    c.count("heartbeats");
    c.distinct(vh::Hasher() << (int)want << k);
  }
}
