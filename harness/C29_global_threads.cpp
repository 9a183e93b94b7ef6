// VH: libs=global_planner flavour=tsan suites=storm
// VH: libs=global_planner flavour=plain suites=latency,unload defs=VH_DELAYS
// The global planner node with its planner loop, command loop, health loops and message callbacks running at once.
#include <global_planner/global_planner_node.h>
#include <memory>
#include <thread>
#include "gp_world.h"
#include "mt.h"
using namespace gpw;
using vh::fmt;
using Cfg = global_planner::GlobalPlannerNodeConfig;

namespace {
World blocks(vh::Rng& r) {
  World w;
  for (int x = -8; x < 8; x++)
    for (int y = -8; y < 8; y++)
      for (int z = 0; z < 6; z++) w.voxel[T3(x, y, z)] = -2.f;
  for (int k = r.range(0, 6); k > 0; k--) {
    int x = r.range(-8, 7), y = r.range(-8, 7), h = r.range(1, 6);
    for (int z = 0; z < h; z++) w.voxel[T3(x, y, z)] = 3.f;
  }
  return w;
}
struct Rig {
  std::unique_ptr<GlobalPlannerNode> node;
  vh::Rng& r;
  mt::Order order;
  Rig(vh::Rng& rng, int spinUs) : r(rng) {
    quiet();
    rosmock::reset();
    CELL_SCALE = 1, SPEEDNODE_RADIUS = 5;
    rosmock::setTime(100);
    auto& B = rosmock::bus();
    B.services["mavros/param/get"] = [](void*) { return false; };
    B.record = false;
    B.spinUs = spinUs;
    B.onPublish = [this](const std::string& t) { order.seen(t); };
    B.lparams["pointcloud_topics"] = {"/cam/points"};
    rosmock::setTf([](const std::string&, const std::string&, const ros::Time& t, tf::StampedTransform& o) {
      o.stamp_ = t;
      o.setRotation(tf::Quaternion(0, 0, 0, 1));
      o.setOrigin(tf::Vector3(0, 0, 3));
      return true;
    });
    ros::NodeHandle nh("~"), nhp("");
    node.reset(new GlobalPlannerNode(nh, nhp));
    reconfigure(false);
  }
  ~Rig() {
    node.reset();
    rosmock::bus().onPublish = nullptr;
    rosmock::setTf(nullptr);
    CELL_SCALE = 1;
  }
  void reconfigure(bool any) {
    Cfg g = Cfg();
    g.max_iterations_ = 60;
    g.search_time_ = 0.05;
    if (any) {
      g.default_speed_ = r.uni(0.5, 3);
      g.use_risk_based_speedup_ = r.chance(0.7);
      g.max_altitude_ = r.range(4, 12);
      g.simplify_iterations_ = r.range(0, 3);
      g.CELL_SCALE = r.pick({1.0, 1.0, 2.0, 0.5});
      g.default_node_type_ = r.pick({std::string("SpeedNode"), std::string("Node")});
    } else {
      g.use_risk_based_speedup_ = true;
    }
    rosmock::reconfigure<Cfg>(g, ~0u);
  }
  void pose() {
    geometry_msgs::PoseStamped m;
    m.header.stamp = ros::Time::now();
    m.pose.position.x = r.uni(-2, 2), m.pose.position.y = r.uni(-2, 2), m.pose.position.z = r.uni(2, 4);
    m.pose.orientation.w = 1;
    rosmock::deliver("mavros/local_position/pose", m);
  }
  void map() {
    std::unique_ptr<octomap::OcTree> t(blocks(r).tree());
    octomap_msgs::Octomap m;
    octomap_msgs::fullMapToMsg(*t, m);
    rosmock::deliver("octomap_full", m);
  }
  void tell() {
    switch (r.range(0, 6)) {
      case 0: {
        geometry_msgs::PoseStamped m;
        m.pose.position.x = r.uni(-6, 6), m.pose.position.y = r.uni(-6, 6);
        rosmock::deliver("move_base_simple/goal", m);
        break;
      }
      case 1: {
        mavros_msgs::Trajectory m;
        m.point_valid[1] = true;
        m.point_2.position.x = r.uni(-6, 6), m.point_2.position.y = r.uni(-6, 6), m.point_2.position.z = r.uni(1, 5);
        rosmock::deliver("mavros/trajectory/desired", m);
        break;
      }
      case 2: {
        geometry_msgs::TwistStamped m;
        m.twist.linear.x = r.uni(-2, 2);
        rosmock::deliver("mavros/local_position/velocity", m);
        break;
      }
      case 3: reconfigure(true); break;
      case 4: {
        geometry_msgs::PointStamped m;
        m.point.x = r.uni(-6, 6), m.point.y = r.uni(-6, 6), m.point.z = 2;
        rosmock::deliver("clicked_point", m);
        break;
      }
      case 5: {
        sensor_msgs::PointCloud2 m;
        pcl::PointCloud<pcl::PointXYZ> pc;
        for (int n = r.range(0, 20); n > 0; n--) pc.push_back(pcl::PointXYZ(r.uni(-6, 6), r.uni(-6, 6), r.uni(-2, 2)));
        pcl::toROSMsg(pc, m);
        m.header.frame_id = "camera_link";
        m.header.stamp = ros::Time::now();
        rosmock::deliver("/cam/points", m);
        break;
      }
      default: {
        mavros_msgs::Param m;
        m.param_id = "MPC_XY_CRUISE";
        m.value.real = r.uni(1, 6);
        rosmock::deliver("mavros/param/param_value", m);
      }
    }
  }
  void unload(vh::Case& c) {
    auto t0 = std::chrono::steady_clock::now();
    mt::Heartbeat hb;
    node.reset();
    double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (took > 6 && hb.gap() < 0.5) c.fail("shutdown", fmt("unloading the node took %.1f s", took));
  }
};
}  // namespace

VH_SUITE_WD(storm, 40, 800, 40) {
  auto& r = c.rng;
  Rig g(r, r.pick({200, 1000, 5000}));
  const int N = r.range(5, c.thorough ? 150 : 60);
  for (int i = 0; i < N; i++) {
    rosmock::advance(r.pick({0.0, 0.02, 0.1, 0.25}));
    if (r.chance(0.6)) g.pose();
    if (r.chance(0.15)) g.map();
    for (int k = r.range(0, 2); k > 0; k--) g.tell(), c.count("messages");
    if (r.chance(0.2)) rosmock::fire(0.2);
    if (r.chance(0.7)) std::this_thread::sleep_for(std::chrono::microseconds(r.pick({10, 200, 1000, 5000, 20000})));
  }
  c.count("plans", rosmock::publishedCount("global_temp_path") / 2);
  c.count("setpoints", rosmock::publishedCount("mavros/setpoint_position/local"));
  c.count("nodes unloaded");
  c.evals(N);
  g.unload(c);
  c.distinct(g.order.hash());
}

// destroyed at any moment, with delays around the locks
VH_SUITE_WD(unload, 120, 2000, 40) {
  auto& r = c.rng;
  mt::delays(r.pick({0, 3, 10}), r.pick({50, 500}));
  {
    Rig g(r, r.pick({50, 200, 1000}));
    for (int i = r.range(0, 8); i > 0; i--) {
      rosmock::advance(0.3);
      g.pose();
      if (r.chance(0.5)) g.map();
      g.tell();
      std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 3000)));
    }
    g.unload(c);
    c.distinct(g.order.hash());
    c.count("nodes unloaded");
  }
  mt::delays(0, 0);
}

// while a plan is being made (however long that takes), poses are taken in and setpoints keep going out
VH_SUITE_WD(latency, 16, 64, 60) {
  auto& r = c.rng;
  std::atomic<int> phase{0};  // 1: the planner is made to linger, 2: it went on
  Rig g(r, 2000);
  if (r.chance(0.5)) g.reconfigure(true);
  auto publishing = [&](const std::string& t) {
    if (t == "global_temp_path" && phase == 0) {
      phase = 1;
      std::this_thread::sleep_for(std::chrono::milliseconds(1200));
      phase = 2;
    }
  };
  rosmock::change([&](rosmock::Bus& b) { b.onPublish = publishing; });
  mt::Heartbeat hb;
  g.pose();
  auto el = [t0 = std::chrono::steady_clock::now()] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  while (phase == 0 && el() < 10) std::this_thread::sleep_for(std::chrono::microseconds(200));
  if (phase == 0) {
    c.fail("no-plan", "the planner loop did not run");
    return;
  }
  long before = rosmock::publishedCount("mavros/setpoint_position/local"), poses = 0;
  while (phase == 1) {
    g.pose();
    poses++;
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
  }
  long sent = rosmock::publishedCount("mavros/setpoint_position/local") - before;
  if (hb.gap() < 0.25) {
    if (poses < 12) c.fail("poses-wait", fmt("%ld poses taken in while a plan took 1.2 s", poses));
    if (sent < 6) c.fail("setpoints-wait", fmt("%ld setpoints sent while a plan took 1.2 s", sent));
    c.distinct(vh::Hasher() << c.index);
  }
  c.count("setpoints during a plan", sent);
  rosmock::change([](rosmock::Bus& b) { b.onPublish = nullptr; });
  g.unload(c);
}
