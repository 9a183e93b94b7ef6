// VH: libs=local_planner flavour=tsan suites=storm
// VH: libs=local_planner flavour=plain suites=wakeups,latency defs=VH_DELAYS
// The local planner node with all its threads running at once: planner, one transformer per camera, transform buffer,
// command loop, health, flight controller parameters, and the thread that delivers messages.
#define private public
#define protected public
#include <local_planner/local_planner_nodelet.h>
#undef private
#undef protected
#include <chrono>
#include <memory>
#include <thread>
#include "mt.h"
#include "vh.h"

using namespace avoidance;
using vh::fmt;
using Cfg = avoidance::LocalPlannerNodeConfig;

namespace {
struct Rig {
  int ncam;
  std::vector<std::string> topics, frames;
  std::atomic<double> tf{0};   // newest transform
  std::atomic<bool> tfUp{true};
  std::unique_ptr<LocalPlannerNodelet> node;
  vh::Rng& r;
  mt::Order order;

  Rig(vh::Rng& rng, int spinUs) : r(rng) {
    rosmock::reset();
    rosmock::setTime(100);
    auto& B = rosmock::bus();
    B.services["mavros/param/get"] = [](void*) { return false; };
    B.record = false;
    B.spinUs = spinUs;
    B.onPublish = [this](const std::string& t) { order.seen(t); };
    ncam = r.pick({1, 2, 3});
    for (int i = 0; i < ncam; i++) topics.push_back(fmt("/cam%d/points", i)), frames.push_back(fmt("cam%d", i));
    B.lparams["/local_planner_nodelet/pointcloud_topics"] = topics;
    B.dparams["goal_x_param"] = r.uni(-10, 10), B.dparams["goal_y_param"] = r.uni(-10, 10), B.dparams["goal_z_param"] = 3.5;
    B.bparams["accept_goal_input_topic"] = true;
    tf.store(99.99, std::memory_order_relaxed);
    rosmock::setTf([this](const std::string&, const std::string&, const ros::Time&, tf::StampedTransform& o) {
      if (!tfUp.load(std::memory_order_relaxed)) return false;
      o.stamp_ = ros::Time(tf.load(std::memory_order_relaxed));
      o.setRotation(tf::Quaternion(0, 0, 0, 1));
      o.setOrigin(tf::Vector3(0, 0, 3));
      return true;
    });
    node.reset(new LocalPlannerNodelet());
    node->onInit();
    Cfg g = Cfg();
    g.n_expanded_nodes_ = 3, g.children_per_node_ = 2;
    rosmock::reconfigure<Cfg>(g, 0);
  }
  ~Rig() {
    node.reset();
    rosmock::bus().onPublish = nullptr;
    rosmock::setTf(nullptr);
  }
  double now() const { return rosmock::clockNow() * 1e-9; }
  void pose() {
    geometry_msgs::PoseStamped m;
    m.header.stamp = ros::Time::now();
    m.pose.position.x = r.uni(-1, 1), m.pose.position.y = r.uni(-1, 1), m.pose.position.z = r.uni(2, 4);
    m.pose.orientation.w = 1;
    rosmock::deliver("mavros/local_position/pose", m);
  }
  void cloud(int i, double stamp) {
    sensor_msgs::PointCloud2 m;
    pcl::PointCloud<pcl::PointXYZ> pc;
    for (int n = r.pick({0, 1, 10, 30}); n > 0; n--) {
      double y = r.uni(-0.5, 0.5), e = r.uni(-0.4, 0.4), d = r.uni(1, 10);
      pc.push_back(pcl::PointXYZ(d * std::cos(y) * std::cos(e), d * std::sin(y) * std::cos(e), d * std::sin(e)));
    }
    pcl::toROSMsg(pc, m);
    m.header.frame_id = frames[i];
    m.header.stamp = ros::Time(stamp);
    rosmock::deliver(topics[i], m);
  }
  void tell() {
    auto pt = [&] {
      geometry_msgs::Point p;
      p.x = r.uni(-20, 20), p.y = r.uni(-20, 20), p.z = r.uni(1, 8);
      return p;
    };
    switch (r.range(0, 8)) {
      case 0: {
        geometry_msgs::PoseStamped m;
        m.pose.position = pt();
        rosmock::deliver("move_base_simple/goal", m);
        break;
      }
      case 1: {
        visualization_msgs::MarkerArray m;
        visualization_msgs::Marker k;
        k.pose.position = pt();
        m.markers.push_back(k);
        rosmock::deliver("input/goal_position", m);
        break;
      }
      case 2: {
        mavros_msgs::Trajectory m;
        m.point_valid[0] = m.point_valid[1] = true;
        m.point_1.position = pt(), m.point_2.position = pt();
        m.point_1.velocity.x = r.uni(-1, 1);
        m.command[0] = r.pick({16, 21, 22}), m.command[1] = r.pick({16, 65535});
        rosmock::deliver("mavros/trajectory/desired", m);
        break;
      }
      case 3: {
        mavros_msgs::State m;
        m.armed = r.chance(0.8);
        m.mode = r.pick({std::string("AUTO.MISSION"), std::string("AUTO.TAKEOFF"), std::string("AUTO.LAND"), std::string("OFFBOARD"), std::string("AUTO.LOITER"), std::string("MANUAL")});
        rosmock::deliver("mavros/state", m);
        break;
      }
      case 4: {
        geometry_msgs::TwistStamped m;
        m.twist.linear.x = r.uni(-2, 2);
        rosmock::deliver("mavros/local_position/velocity_local", m);
        break;
      }
      case 5: {
        mavros_msgs::Param m;
        m.param_id = r.pick({std::string("CP_DIST"), std::string("MPC_XY_CRUISE"), std::string("MPC_ACC_HOR")});
        m.value.real = r.uni(1, 6);
        rosmock::deliver("mavros/param/param_value", m);
        break;
      }
      case 6: {
        Cfg g = Cfg();
        g.n_expanded_nodes_ = 3, g.children_per_node_ = 2;
        g.goal_z_param = r.pick({3.5, r.uni(1, 5)});
        g.smoothing_speed_xy_ = r.pick({0.0, 10.0});
        g.timeout_termination_ = r.uni(5, 20);
        rosmock::reconfigure<Cfg>(g, 0);
        break;
      }
      case 7: {
        geometry_msgs::PointStamped m;
        m.point = pt();
        rosmock::deliver("clicked_point", m);
        break;
      }
      default: {
        mavros_msgs::WaypointList m;
        m.waypoints.resize(2);
        m.waypoints[0].command = 178, m.waypoints[0].param1 = 1, m.waypoints[0].param2 = r.uni(1, 8);
        m.waypoints[1].is_current = true;
        rosmock::deliver("mavros/mission/waypoints", m);
        mavros_msgs::Altitude a;
        a.bottom_clearance = 2;
        rosmock::deliver("mavros/altitude", a);
      }
    }
  }
  void unload(vh::Case& c) {
    auto t0 = std::chrono::steady_clock::now();
    mt::Heartbeat hb;
    node.reset();
    double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (took > 4 && hb.gap() < 0.5) c.fail("shutdown", fmt("unloading the node took %.1f s", took));
  }
};
}  // namespace

// everything at once; ThreadSanitizer watches the memory, the lock order and what is left when the node goes
VH_SUITE_WD(storm, 60, 1200, 30) {
  auto& r = c.rng;
  Rig g(r, r.pick({100, 500, 2000}));
  int asked = 0;
  auto asking = [&g](double) {  // runs in the command loop's thread
    std::this_thread::sleep_for(std::chrono::microseconds(100));
    static thread_local uint64_t n = 0;
    if (++n % 7) return;
    geometry_msgs::PoseStamped m;
    m.header.stamp = ros::Time::now();
    m.pose.position.z = 3, m.pose.orientation.w = 1;
    rosmock::deliver("mavros/local_position/pose", m);
  };
  rosmock::change([&](rosmock::Bus& b) { b.onGlobalCallAvailable = asking; });
  const int N = r.range(5, c.thorough ? 200 : 80);
  for (int i = 0; i < N; i++) {
    rosmock::advance(r.pick({0.0, 0.01, 0.05, 0.1, r.chance(0.05) ? 6.0 : 0.1}));
    if (r.chance(0.5)) g.tf.store(g.now(), std::memory_order_relaxed);
    if (r.chance(0.05)) g.tfUp.store(r.chance(0.6), std::memory_order_relaxed);
    if (r.chance(0.6)) g.pose();
    for (int k = 0; k < g.ncam; k++)
      if (r.chance(0.6)) g.cloud(k, g.now() - r.uni(0, 0.01));
    for (int k = r.range(0, 3); k > 0; k--) g.tell(), asked++;
    if (r.chance(0.3)) rosmock::fire(0.2);
    if (r.chance(0.7)) std::this_thread::sleep_for(std::chrono::microseconds(r.pick({10, 200, 1000, 5000, 20000})));
  }
  c.count("messages", asked);
  c.count("planner iterations", rosmock::publishedCount("pointcloud_size"));
  c.count("setpoints", rosmock::publishedCount("mavros/setpoint_position/local"));
  c.count("nodes unloaded");
  c.evals(N);
  g.unload(c);
  c.distinct(g.order.hash());
}

// with delays before every lock and wait: nothing that the planner waits for may be slept through
VH_SUITE_WD(wakeups, 160, 2400, 45) {
  auto& r = c.rng;
  mt::delays(r.pick({0, 3, 8, 20}), r.pick({50, 300, 1500}));
  {
    Rig g(r, r.pick({500, 5000}));
    auto asking = [](double) { std::this_thread::sleep_for(std::chrono::microseconds(300)); };
    rosmock::change([&](rosmock::Bus& b) { b.onGlobalCallAvailable = asking; });
    // the first clouds make the cameras known, and their transforms are asked for from then on
    bool registered = false;
    long it = 0;
    const int N = r.range(1, c.thorough ? 60 : 25);
    for (int i = 0; i < N; i++) {
      rosmock::advance(0.1);
      bool late = r.chance(0.3) || !registered;
      double t = g.now();
      if (!late) g.tf.store(t, std::memory_order_relaxed), std::this_thread::sleep_for(std::chrono::microseconds(r.pick({0, 100, 12000})));
      if (r.chance(0.8)) g.pose();
      for (int k = 0; k < g.ncam; k++) {
        g.cloud(k, t - 0.001);
        if (r.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.pick({50, 500, 2000})));
      }
      if (!registered) {  // transforms on both sides of the cloud
        g.tf.store(t - 0.01, std::memory_order_relaxed);
        std::this_thread::sleep_for(std::chrono::milliseconds(60));
        registered = true;
      }
      if (late) {
        if (r.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.pick({100, 5000})));
        g.tf.store(t, std::memory_order_relaxed);
      }
      mt::Heartbeat hb;
      auto t0 = std::chrono::steady_clock::now();
      double el = 0;
      while (rosmock::publishedCount("pointcloud_size") <= it && el < 12) {
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      }
      if (el > 3.5 && hb.gap() < 0.5) {
        c.fail("slept-through", fmt("all clouds and their transforms were there, and the planner slept for %.1f s", el));
        break;
      }
      c.count("planner iterations awaited");
      it = rosmock::publishedCount("pointcloud_size");
    }
    c.evals(N);
    if (r.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.pick({0, 100, 1000, 5000})));
    g.unload(c);
    c.distinct(g.order.hash());
  }
  c.count("delays injected", mt::delayed());
  mt::delays(0, 0);
}

// while a plan is being made (however long that takes), poses are taken in and setpoints keep going out
VH_SUITE_WD(latency, 16, 64, 60) {
  auto& r = c.rng;
  std::atomic<int> phase{0};  // 1: the planner is made to linger, 2: it went on
  Rig g(r, 2000);
  auto publishing = [&](const std::string& t) {
    if (t == "pointcloud_size" && phase == 0) {
      phase = 1;
      std::this_thread::sleep_for(std::chrono::milliseconds(1200));
      phase = 2;
    }
  };
  rosmock::change([&](rosmock::Bus& b) { b.onPublish = publishing; });
  auto asking = [](double) { std::this_thread::sleep_for(std::chrono::microseconds(300)); };
    rosmock::change([&](rosmock::Bus& b) { b.onGlobalCallAvailable = asking; });
  mt::Heartbeat hb;
  double t = g.now();
  g.pose();
  for (int k = 0; k < g.ncam; k++) g.cloud(k, t - 0.001);
  std::this_thread::sleep_for(std::chrono::milliseconds(60));
  g.tf.store(t, std::memory_order_relaxed);
  auto el = [t0 = std::chrono::steady_clock::now()] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  while (phase == 0 && el() < 10) std::this_thread::sleep_for(std::chrono::microseconds(200));
  if (phase == 0) {
    c.fail("slept-through", "all clouds and their transforms were there, and the planner did not run");
    return;
  }
  long before = rosmock::publishedCount("mavros/setpoint_position/local"), poses = 0;
  while (phase == 1) {
    g.pose();
    if (r.chance(0.2)) {
      geometry_msgs::TwistStamped m;
      rosmock::deliver("mavros/local_position/velocity_local", m);
    }
    poses++;
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
  }
  long sent = rosmock::publishedCount("mavros/setpoint_position/local") - before;
  if (hb.gap() < 0.25) {
    if (poses < 12) c.fail("poses-wait", fmt("%ld poses taken in while a plan took 1.2 s", poses));
    if (sent < 6) c.fail("setpoints-wait", fmt("%ld setpoints sent while a plan took 1.2 s, with %ld poses", sent, poses));
    c.distinct(vh::Hasher() << c.index);
  }
  c.count("setpoints during a plan", sent);
  rosmock::change([](rosmock::Bus& b) { b.onPublish = nullptr; });
  g.unload(c);
}
