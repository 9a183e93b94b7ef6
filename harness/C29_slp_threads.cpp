// VH: libs=safe_landing_planner flavour=tsan suites=storm,wgstorm,quit
// VH: libs=safe_landing_planner flavour=plain suites=wakeups,quit defs=VH_DELAYS
// VH: libs=safe_landing_planner flavour=asan suites=quit
// The landing planner node and the landing waypoint generator node with their threads running: command loop (which also
// takes in the messages) and cloud transformer.
#include <safe_landing_planner/safe_landing_planner_node.hpp>
#include <safe_landing_planner/waypoint_generator_node.hpp>
#include <chrono>
#include <deque>
#include <memory>
#include <thread>
#include "mt.h"
using namespace avoidance;
using vh::fmt;
using CfgP = safe_landing_planner::SafeLandingPlannerNodeConfig;
using CfgW = safe_landing_planner::WaypointGeneratorNodeConfig;
int repo_main_safe_landing_planner_node_main(int, char**);
int repo_main_waypoint_generator_node(int, char**);

namespace {
double since(std::chrono::steady_clock::time_point t) { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); }
void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
// messages on their way to the node, taken in whenever its command loop asks for them
struct Wire {
  std::mutex m;
  std::deque<std::function<void()>> q;
  std::atomic<long> asked{0};
  void send(std::function<void()> f) {
    rosmock::Lk<std::mutex> l(m);
    q.push_back(f);
  }
  void pump() {
    asked.fetch_add(1, std::memory_order_relaxed);
    for (;;) {
      std::function<void()> f;
      {
        rosmock::Lk<std::mutex> l(m);
        if (q.empty()) break;
        f = q.front();
        q.pop_front();
      }
      f();
    }
    nap(100);
  }
};
struct Rig {
  Wire wire;
  mt::Order order;
  std::atomic<bool> tfUp{true}, ok{true};
  vh::Rng& r;
  Rig(vh::Rng& rng, int spinUs) : r(rng) {
    rosmock::reset();
    rosmock::setTime(100);
    auto& B = rosmock::bus();
    B.record = false;
    B.spinUs = spinUs;
    B.onPublish = [this](const std::string& t) { order.seen(t); };
    B.onGlobalCallAvailable = [this](double) { wire.pump(); };
    B.okHook = [this] { return ok.load(std::memory_order_relaxed); };
    B.sparams["pointcloud_topics"] = "/cam/points";
    rosmock::setTf([this](const std::string&, const std::string&, const ros::Time&, tf::StampedTransform& o) {
      if (!tfUp.load(std::memory_order_relaxed)) return false;
      o.setRotation(tf::Quaternion(0, 0, 0, 1));
      o.setOrigin(tf::Vector3(0, 0, 3));
      return true;
    });
  }
  ~Rig() {
    rosmock::change([](rosmock::Bus& b) { b.onPublish = nullptr, b.onGlobalCallAvailable = nullptr, b.okHook = nullptr; });
    rosmock::setTf(nullptr);
  }
  void cloud() {
    pcl::PointCloud<pcl::PointXYZ> pc;
    for (int k = r.pick({0, 3, 30}); k > 0; k--) pc.push_back(pcl::PointXYZ(r.uni(-4, 4), r.uni(-4, 4), r.uni(-3.1, -2.9)));
    sensor_msgs::PointCloud2 m;
    pcl::toROSMsg(pc, m);
    m.header.frame_id = "cam", m.header.stamp = ros::Time::now();
    wire.send([m] { rosmock::deliver("/cam/points", m); });
  }
  void pose() {
    geometry_msgs::PoseStamped m;
    m.pose.position.x = r.uni(-2, 2), m.pose.position.y = r.uni(-2, 2), m.pose.position.z = r.uni(2, 6);
    m.pose.orientation.w = 1;
    wire.send([m] { rosmock::deliver("mavros/local_position/pose", m); });
  }
  void tune() {
    CfgP p = CfgP();
    p.grid_size = r.pick({10.0, 5.0}), p.cell_size = r.pick({1.0, 0.5}), p.smoothing_size = r.pick({-1, 1});
    CfgW w = CfgW();
    w.smoothing_land_cell = r.pick({1, 2});
    wire.send([p] { CfgP q = p; rosmock::reconfigure<CfgP>(q, 0); });
    wire.send([w] { CfgW q = w; rosmock::reconfigure<CfgW>(q, 0); });
  }
  void grid() {
    safe_landing_planner::SLPGridMsg m;
    const int n = 10;
    m.grid_size = 10, m.cell_size = 1, m.header.seq = r.below(1000);
    for (auto* l : {&m.mean.layout, &m.land.layout, &m.std_dev.layout, &m.counter.layout}) {
      l->dim.resize(2);
      l->dim[0].size = l->dim[1].size = n;
    }
    for (int k = 0; k < n * n; k++) m.mean.data.push_back(0), m.land.data.push_back(r.chance(0.8));
    m.curr_pos_index.x = 5, m.curr_pos_index.y = 5;
    wire.send([m] { rosmock::deliver("grid_slp", m); });
  }
  void tell() {
    if (r.chance(0.5)) {
      mavros_msgs::State m;
      m.armed = r.chance(0.8), m.mode = r.pick({std::string("AUTO.LAND"), std::string("AUTO.MISSION"), std::string("MANUAL")});
      wire.send([m] { rosmock::deliver("mavros/state", m); });
    } else {
      mavros_msgs::Trajectory m;
      m.point_valid[0] = m.point_valid[1] = true;
      m.point_1.position.x = r.uni(-5, 5), m.point_2.position.x = r.uni(-5, 5);
      m.command[1] = r.pick({16, 21});
      wire.send([m] { rosmock::deliver("mavros/trajectory/desired", m); });
    }
  }
};
template <class N>
void unload(vh::Case& c, std::unique_ptr<N>& n) {
  auto t0 = std::chrono::steady_clock::now();
  mt::Heartbeat hb;
  n.reset();
  double took = since(t0);
  c.count("nodes unloaded");
  if (took > 4 && hb.gap() < 0.5) c.fail("shutdown", fmt("unloading the node took %.1f s", took));
}
}  // namespace

VH_SUITE_WD(storm, 60, 1200, 30) {
  auto& r = c.rng;
  Rig g(r, r.pick({100, 500, 2000}));
  ros::NodeHandle nh("~");
  auto node = std::make_unique<SafeLandingPlannerNode>(nh);
  node->startNode();
  const int N = r.range(5, c.thorough ? 300 : 100);
  for (int i = 0; i < N; i++) {
    rosmock::advance(r.pick({0.01, 0.1, r.chance(0.05) ? 20.0 : 0.3}));
    if (r.chance(0.05)) g.tfUp.store(r.chance(0.6), std::memory_order_relaxed);
    if (r.chance(0.6)) g.pose();
    if (r.chance(0.7)) g.cloud();
    if (r.chance(0.05)) g.tune();
    if (r.chance(0.7)) nap(r.pick({10, 200, 1000, 5000}));
  }
  if (r.chance(0.3)) g.ok.store(false, std::memory_order_relaxed);
  c.count("grids", rosmock::publishedCount("grid_slp"));
  c.evals(N);
  unload(c, node);
  c.distinct(g.order.hash() << 1);
}

VH_SUITE_WD(wgstorm, 40, 800, 30) {
  auto& r = c.rng;
  Rig g(r, r.pick({100, 500, 2000}));
  ros::NodeHandle nh("~");
  auto node = std::make_unique<WaypointGeneratorNode>(nh);
  node->startNode();
  const int N = r.range(5, c.thorough ? 300 : 100);
  for (int i = 0; i < N; i++) {
    rosmock::advance(r.pick({0.01, 0.1}));
    if (r.chance(0.6)) g.pose();
    if (r.chance(0.7)) g.grid();
    if (r.chance(0.3)) g.tell();
    if (r.chance(0.05)) g.tune();
    if (r.chance(0.7)) nap(r.pick({10, 200, 1000, 5000}));
  }
  if (r.chance(0.5)) g.ok.store(false, std::memory_order_relaxed);
  c.count("landing setpoints", rosmock::publishedCount("mavros/trajectory/generated"));
  c.evals(N);
  unload(c, node);
  c.distinct(g.order.hash() << 2);
}

// with delays around every lock and wait: every cloud with a transform is evaluated, soon, and none twice
VH_SUITE_WD(wakeups, 120, 2000, 45) {
  auto& r = c.rng;
  mt::delays(r.pick({0, 5, 15, 40}), r.pick({50, 300, 1500}));
  {
    Rig g(r, r.pick({100, 1000, 5000}));
    ros::NodeHandle nh("~");
    auto node = std::make_unique<SafeLandingPlannerNode>(nh);
    node->startNode();
    long sent = 0;
    const int N = r.range(1, c.thorough ? 150 : 50);
    for (int i = 0; i < N; i++) {
      rosmock::advance(0.1);
      bool late = r.chance(0.3);
      if (late) g.tfUp = false;
      if (r.chance(0.8)) g.pose();
      long before = rosmock::publishedCount("grid_slp");
      for (int k = r.pick({1, 1, 1, 2, 5}); k > 0; k--) {
        g.cloud();
        sent++;
        if (r.chance(0.5)) nap(r.pick({50, 500, 2000}));
      }
      if (late) nap(r.pick({100, 2000})), g.tfUp = true;
      mt::Heartbeat hb;
      auto t0 = std::chrono::steady_clock::now();
      while (rosmock::publishedCount("grid_slp") <= before && since(t0) < 8) nap(100);
      if (rosmock::publishedCount("grid_slp") <= before && hb.gap() < 0.5) {
        c.fail("slept-through", fmt("cloud %d and its transform were there, and no grid came for %.1f s", i, since(t0)));
        break;
      }
      if (r.chance(0.3)) nap(r.pick({200, 3000, 10000}));
      if (rosmock::publishedCount("grid_slp") > sent) {
        c.fail("twice", fmt("%ld grids out of %ld clouds", rosmock::publishedCount("grid_slp"), sent));
        break;
      }
      c.count("clouds awaited");
    }
    c.evals(N);
    unload(c, node);
    c.distinct(g.order.hash() << 3);
  }
  c.count("delays injected", mt::delayed());
  mt::delays(0, 0);
}

// the programs themselves: told to stop, they end
VH_SUITE_WD(quit, 12, 100, 40) {
  auto& r = c.rng;
  mt::delays(r.pick({0, 5, 15}), 300);
  Rig* gp = new Rig(r, r.pick({100, 1000, 5000}));
  Rig& g = *gp;
  bool planner = r.chance(0.5);
  auto* ended = new std::atomic<bool>(false);
  std::thread t([=] {
    char name[] = "x";
    char* argv[] = {name, nullptr};
    if (planner)
      repo_main_safe_landing_planner_node_main(1, argv);
    else
      repo_main_waypoint_generator_node(1, argv);
    *ended = true;
  });
  nap(r.pick({20000, 60000}));
  for (int i = r.range(0, 20); i > 0; i--) {
    rosmock::advance(0.1);
    g.pose();
    if (r.chance(0.5)) g.cloud();
    if (!planner) g.grid(), g.tell();
    nap(r.pick({10, 1000, 5000}));
  }
  if (r.chance(0.3)) g.tfUp = false;
  mt::Heartbeat hb;
  auto t0 = std::chrono::steady_clock::now();
  g.ok.store(false);
  while (!*ended && since(t0) < 8) {
    rosmock::advance(0.05);
    nap(1000);
  }
  if (!*ended && hb.gap() < 0.5) {
    c.fail("quit", fmt("%s still runs %.1f s after it was told to stop", planner ? "safe_landing_planner_node" : "waypoint_generator_node", since(t0)));
    t.detach();
    c.stop();
    return;
  }
  t.join();
  c.count("programs ended");
  c.distinct(g.order.hash() << 4);
  delete gp;
  delete ended;
  mt::delays(0, 0);
}
