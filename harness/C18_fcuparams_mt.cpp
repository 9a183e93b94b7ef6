// VH: libs=avoidance flavour=tsan shards=4
// The companion node's callbacks, poller, status loop and getters running at once: no data race, and a parameter read is
// never a value nobody sent.
#include <avoidance/avoidance_node.h>
#include <thread>
#include "vh.h"
using namespace avoidance;
VH_SUITE_WD(concurrent, 24, 400, 40) {
  rosmock::reset();
  rosmock::setTime(10);
  rosmock::bus().record = false;
  std::atomic<int> calls{0};
  rosmock::bus().services["mavros/param/get"] = [&](void* p) {
    auto* s = (mavros_msgs::ParamGet*)p;
    calls++;
    s->response.value.real = 2.0;
    s->response.success = true;
    if (calls % 3 == 0) std::this_thread::yield();
    return true;
  };
  ros::NodeHandle nh("~"), nhp("");
  std::unique_ptr<AvoidanceNode> n(new AvoidanceNode(nh, nhp));
  n->init();
  std::atomic<int> bad{0}, reads{0};
  // the callbacks of one node's global queue run on one thread; the status loop has its own spinner
  std::thread cb([&] {
    for (int i = 0; i < 150; i++) {
      mavros_msgs::Param m;
      m.param_id = i % 2 ? "MPC_ACC_HOR" : "CP_DIST";
      m.value.real = 2.0 + 2.0 * (i % 3);
      rosmock::deliver("mavros/param/param_value", m);
      mavros_msgs::WaypointList w;
      mavros_msgs::Waypoint p;
      p.command = 178, p.param1 = 1, p.param2 = 3 + i % 5, p.is_current = true;
      w.waypoints.push_back(p);
      rosmock::deliver("mavros/mission/waypoints", w);
    }
  });
  std::thread status([&] {
    for (int i = 0; i < 150; i++) {
      rosmock::fire(0.2);
      std::this_thread::yield();
    }
  });
  std::thread planner([&] {
    bool hover = false;
    for (int i = 0; i < 300; i++) {
      n->checkFailsafe(ros::Duration(i % 2 ? 0.1 : 1.0), ros::Duration(20), hover);
      hover = false;
      float a = n->getPX4Parameters().param_mpc_acc_hor;
      reads++;
      if (!(std::isnan(a) || a == 2.f || a == 4.f || a == 6.f)) bad++;
      float s = n->getMissionItemSpeed();
      if (!(std::isnan(s) || (s >= 3 && s <= 7))) bad++;
      MAV_STATE st = n->getSystemStatus();
      if (st != MAV_STATE::MAV_STATE_ACTIVE && st != MAV_STATE::MAV_STATE_CRITICAL) bad++;
    }
  });
  cb.join();
  status.join();
  planner.join();
  c.count("reads", reads);
  c.count("polls", calls);
  if (bad) c.fail("torn-read", vh::fmt("%d reads returned a value nobody wrote", bad.load()));
  c.distinct(vh::Hasher() << calls.load() << c.index);
  n.reset();
}
