// VH: libs=avoidance flavour=asan
// The local mirror of flight-controller parameters and of the mission's speed commands.
#include <avoidance/avoidance_node.h>
#include <dlfcn.h>
#include <pthread.h>
#include "vh.h"
// The polling thread's clock runs a thousand times faster once it has shown itself by a request: many rounds fit into one case.
#include <sys/syscall.h>
static std::atomic<bool> g_fast{false};
static __thread int64_t t_base = 0;  // ns; 0: this thread's clock is the real one
static int64_t rawNs(clockid_t clk) {
  struct timespec n;
  syscall(SYS_clock_gettime, clk, &n);
  return n.tv_sec * 1000000000ll + n.tv_nsec;
}
extern "C" int clock_gettime(clockid_t clk, struct timespec* ts) {
  if (clk != CLOCK_MONOTONIC || !t_base) return syscall(SYS_clock_gettime, clk, ts);
  int64_t v = t_base + (rawNs(clk) - t_base) * 1000;
  ts->tv_sec = v / 1000000000ll, ts->tv_nsec = v % 1000000000ll;
  return 0;
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t clk, const struct timespec* abs) {
  typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  static Fn real = (Fn)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  struct timespec t = *abs;
  if (t_base && clk == CLOCK_MONOTONIC) {
    int64_t to = t_base + (t.tv_sec * 1000000000ll + t.tv_nsec - t_base) / 1000 + 1000;
    t.tv_sec = to / 1000000000ll, t.tv_nsec = to % 1000000000ll;
  }
  return real(cv, m, clk, &t);
}
extern "C" int nanosleep(const struct timespec* req, struct timespec* rem) {
  struct timespec t = *req;
  if (t_base) {
    int64_t n = (t.tv_sec * 1000000000ll + t.tv_nsec) / 1000;
    t.tv_sec = n / 1000000000ll, t.tv_nsec = n % 1000000000ll;
  }
  return syscall(SYS_clock_nanosleep, CLOCK_REALTIME, 0, &t, rem) ? -1 : 0;
}
extern "C" int usleep(useconds_t us) {
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
extern "C" unsigned sleep(unsigned s) {
  struct timespec t = {(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
static void hurry() {
  if (g_fast && !t_base) t_base = rawNs(CLOCK_MONOTONIC);
}
using namespace avoidance;
using vh::fmt;
typedef std::map<std::string, double> Vals;
static const char* F[] = {"MPC_ACC_DOWN_MAX", "MPC_ACC_HOR", "MPC_ACC_UP_MAX", "MPC_JERK_MIN", "MPC_JERK_MAX", "MPC_LAND_SPEED", "MPC_TKO_SPEED",
                          "MPC_XY_CRUISE", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP", "CP_DIST", "NAV_ACC_RAD", "MPC_YAWRAUTO_MAX"};
static const char* POLLED[] = {"MPC_ACC_HOR", "MPC_ACC_DOWN_MAX", "MPC_ACC_UP_MAX", "MPC_XY_CRUISE", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP",
                               "CP_DIST", "MPC_LAND_SPEED", "MPC_JERK_MAX", "NAV_ACC_RAD", "MPC_YAWRAUTO_MAX"};
static Vals read(const AvoidanceNode& n) {
  ModelParameters p = n.getPX4Parameters();
  return {{"MPC_AUTO_MODE", p.param_mpc_auto_mode}, {"MPC_ACC_DOWN_MAX", p.param_mpc_acc_down_max}, {"MPC_ACC_HOR", p.param_mpc_acc_hor}, {"MPC_ACC_UP_MAX", p.param_mpc_acc_up_max},
          {"MPC_JERK_MIN", p.param_mpc_jerk_min}, {"MPC_JERK_MAX", p.param_mpc_jerk_max}, {"MPC_LAND_SPEED", p.param_mpc_land_speed}, {"MPC_TKO_SPEED", p.param_mpc_tko_speed},
          {"MPC_XY_CRUISE", p.param_mpc_xy_cruise}, {"MPC_Z_VEL_MAX_DN", p.param_mpc_z_vel_max_dn}, {"MPC_Z_VEL_MAX_UP", p.param_mpc_z_vel_max_up}, {"CP_DIST", p.param_cp_dist},
          {"NAV_ACC_RAD", p.param_nav_acc_rad}, {"MPC_YAWRAUTO_MAX", p.param_mpc_yawrauto_max}};
}
static Vals fresh() {
  Vals v;
  for (auto f : F) v[f] = NAN;
  v["MPC_AUTO_MODE"] = -1;
  return v;
}
static std::string diff(const Vals& want, const Vals& got) {
  for (auto& k : want)
    if (!vh::close(k.second, got.at(k.first), 1e-9)) return fmt("%s is %g, expected %g", k.first.c_str(), got.at(k.first), k.second);
  return "";
}

// parameter updates pushed by the flight controller; the parameter service is down
VH_SUITE(pushed, 600, 20000) {
  auto& r = c.rng;
  rosmock::reset();
  rosmock::setTime(10);
  rosmock::bus().services["mavros/param/get"] = [](void*) { return false; };
  ros::NodeHandle nh("~"), nhp("");
  std::unique_ptr<AvoidanceNode> n(new AvoidanceNode(nh, nhp));
  if (!diff(fresh(), read(*n)).empty()) c.fail("initial", diff(fresh(), read(*n)));
  n->init();
  Vals want = fresh();
  int k = r.range(1, 60);
  vh::Hasher h;
  for (int i = 0; i < k; i++) {
    mavros_msgs::Param m;
    double v = (float)r.pick({r.uni(-20, 20), 0.0, -1.0, r.uni(0, 5)});
    int kind = r.below(10);
    if (kind < 7)
      m.param_id = F[r.below(13)];
    else if (kind < 8)
      m.param_id = "MPC_AUTO_MODE";
    else
      m.param_id = r.pick<std::string>({"", "MPC_ACC", "MPC_ACC_HOR_MAX", "mpc_acc_hor", "MPC_XY_VEL_MAX", "CP_DIST2", "SYS_ID", "MPC_JERK", "NAV_ACC_RAD ", "MPC_Z_VEL_MAX"});
    m.value.real = v;
    m.value.integer = r.range(-3, 7);
    if (m.param_id == "MPC_AUTO_MODE")
      want[m.param_id] = m.value.integer;
    else if (want.count(m.param_id))
      want[m.param_id] = v;
    rosmock::deliver("mavros/param/param_value", m);
    std::string d = diff(want, read(*n));
    if (!d.empty()) {
      c.fail("mirror", "after an update of '" + m.param_id + "': " + d);
      break;
    }
    c.count(kind < 8 ? "known_updates" : "unknown_updates");
    h << m.param_id;
  }
  c.distinct(h);
}

// polling: each successful answer is mirrored, a failed or refused one leaves the value alone, and polling goes on
VH_SUITE_WD(polled, 24, 64, 100) {
  auto& r = c.rng;
  rosmock::reset();
  rosmock::setTime(10);
  Vals fcu;
  std::map<std::string, int> mode;  // 0 answers, 1 call fails, 2 refuses
  for (auto f : POLLED) fcu[f] = (float)r.uni(0.1, 9), mode[f] = r.pick({0, 0, 0, 1, 2});
  bool all = r.chance(0.3);
  if (all)
    for (auto f : POLLED) mode[f] = 0;
  std::atomic<int> calls{0}, rounds{0};
  std::mutex mm;
  std::set<std::string> asked;
  rosmock::bus().services["mavros/param/get"] = [&](void* p) {
    auto* s = (mavros_msgs::ParamGet*)p;
    std::lock_guard<std::mutex> l(mm);
    calls++;
    std::string id = s->request.param_id;
    asked.insert(id);
    if (id == "MPC_YAWRAUTO_MAX") rounds++;
    s->response.value.real = mode[id] == 0 ? fcu[id] : -777;
    s->response.success = mode[id] == 0;
    return mode[id] != 1;
  };
  ros::NodeHandle nh("~"), nhp("");
  std::unique_ptr<AvoidanceNode> n(new AvoidanceNode(nh, nhp));
  n->init();
  auto wait = [&](int target) {
    for (int i = 0; i < 12000 && rounds < target; i++) usleep(10000);
    return rounds >= target;
  };
  if (!wait(1)) {
    c.fail("never-polled", "no parameter request in two minutes");
    return;
  }
  Vals want = fresh();
  bool initialised = true;
  for (auto f : POLLED) {
    if (mode[f] == 0) want[f] = fcu[f];
    else initialised = false;
  }
  std::string d = diff(want, read(*n));  // the mirror's lock makes this wait for the end of the round
  if (!d.empty()) c.fail("poll-mirror", d);
  {
    std::lock_guard<std::mutex> l(mm);
    for (auto f : POLLED)
      if (!asked.count(f)) c.fail("poll-omits", std::string("never asked for ") + f);
  }
  c.count("answers", calls.load());
  if (!initialised && c.index < 16) {  // an incomplete set is asked for again, soon
    {
      std::lock_guard<std::mutex> l(mm);
      for (auto f : POLLED) mode[f] = 0, fcu[f] = (float)r.uni(0.1, 9);
    }
    if (!wait(2))
      c.fail("poll-stopped", "parameters still missing but not asked for again in two minutes");
    else {
      for (auto f : POLLED) want[f] = fcu[f];
      d = diff(want, read(*n));
      if (!d.empty()) c.fail("repoll-mirror", d);
      c.count("repolls");
    }
  }
  vh::Hasher h;
  for (auto f : POLLED) h << mode[f];
  c.distinct(h);
  n.reset();  // must return: the poller is told to stop
  c.count("clean_shutdowns");
}

// many rounds of polling with answers, failures and refusals that change from call to call, and updates pushed in between
VH_SUITE_WD(polled_history, 120, 1500, 100) {
  auto& r = c.rng;
  rosmock::reset();
  rosmock::setTime(10);
  struct Shared {
    std::mutex m;
    vh::Rng rng;
    Vals want;
    bool frozen = false;
    double pAnswer = 0.5;
    int calls = 0;
    std::map<std::string, int> asked;
    explicit Shared(uint64_t s) : rng(s), want(fresh()) {}
  } sh(r.next());
  rosmock::bus().services["mavros/param/get"] = [&](void* p) {
    hurry();
    auto* s = (mavros_msgs::ParamGet*)p;
    std::lock_guard<std::mutex> l(sh.m);
    sh.calls++;
    sh.asked[s->request.param_id]++;
    bool reply = sh.rng.chance(0.8), success = sh.rng.chance(sh.pAnswer);
    if (sh.frozen) (sh.rng.chance(0.5) ? reply : success) = false;
    s->response.value.real = (float)sh.rng.uni(-5, 20);
    s->response.success = success;
    if (reply && success) sh.want[s->request.param_id] = s->response.value.real;
    return reply;
  };
  g_fast = true;
  ros::NodeHandle nh("~"), nhp("");
  std::unique_ptr<AvoidanceNode> n(new AvoidanceNode(nh, nhp));
  n->init();
  auto waitCalls = [&](int more) {
    int from;
    {
      std::lock_guard<std::mutex> l(sh.m);
      from = sh.calls;
    }
    for (int i = 0; i < 60000; i++) {
      {
        std::lock_guard<std::mutex> l(sh.m);
        if (sh.calls >= from + more) return true;
      }
      usleep(1000);
    }
    return false;
  };
  const int R = sizeof(POLLED) / sizeof(*POLLED);
  vh::Hasher h;
  for (int epoch = 0, E = r.range(1, 4); epoch < E; epoch++) {
    {
      std::lock_guard<std::mutex> l(sh.m);
      sh.frozen = false;
      sh.pAnswer = r.pick({0.1, 0.5, 0.9});
      // one parameter is never known for long: polling has to go on
      sh.asked.clear();
    }
    bool ok = waitCalls(R * r.range(1, 3));
    {
      std::lock_guard<std::mutex> l(sh.m);
      sh.frozen = true;
    }
    ok = waitCalls(2 * R) && ok;  // whatever was being answered is stored by then
    if (!ok) {
      c.fail("poll-stopped", "no parameter is asked for any more");
      break;
    }
    Vals want;
    {
      std::lock_guard<std::mutex> l(sh.m);
      want = sh.want;
      for (auto f : POLLED)
        if (!sh.asked[f]) c.fail("poll-omits", std::string("not asked for in several rounds: ") + f);
    }
    std::string d = diff(want, read(*n));
    if (!d.empty()) {
      c.fail("poll-history", d);
      break;
    }
    c.count("states-compared");
    for (int k = r.range(0, 3); k > 0; k--) {
      mavros_msgs::Param m;
      m.param_id = r.pick({F[r.below(13)], "CP_DIST", "SYS_ID"});
      m.value.real = (float)r.uni(-20, 20);
      rosmock::deliver("mavros/param/param_value", m);
      std::lock_guard<std::mutex> l(sh.m);
      if (sh.want.count(m.param_id)) sh.want[m.param_id] = m.value.real;
    }
    {
      std::lock_guard<std::mutex> l(sh.m);
      want = sh.want;
      c.count("calls", sh.calls);
      h << sh.calls % 7;
    }
    d = diff(want, read(*n));
    if (!d.empty()) {
      c.fail("push-between-polls", d);
      break;
    }
  }
  c.distinct(h);
  n.reset();
  g_fast = false;
}

VH_SUITE(mission_speed, 20000, 500000) {
  auto& r = c.rng;
  rosmock::setTime(10);
  ros::NodeHandle nh("~"), nhp("");
  AvoidanceNode n(nh, nhp);
  double want = NAN;
  int lists = r.range(1, 6);
  for (int l = 0; l < lists; l++) {
    mavros_msgs::WaypointList w;
    int k = r.pick({0, 1, 2, r.range(1, 15), r.range(1, 15)});
    int cur = r.chance(0.15) ? -1 : (k ? r.range(0, k - 1) : -1);
    for (int i = 0; i < k; i++) {
      mavros_msgs::Waypoint p;
      p.command = r.pick({16, 178, 178, 21, 22, 20, 179, 177});
      p.param1 = r.pick({1.f, 1.f, 2.f, 3.f});
      p.param2 = r.pick({0.f, -1.f, r.unif(0.1f, 15.f), r.unif(0.1f, 15.f)});
      p.is_current = i == cur;
      if (cur >= 0 && i > cur && r.chance(0.05)) p.is_current = true;  // only the first counts
      w.waypoints.push_back(p);
    }
    for (int i = cur; i >= 0; i--)
      if (w.waypoints[i].command == 178 && w.waypoints[i].param1 == 1.f && w.waypoints[i].param2 > 0) {
        want = w.waypoints[i].param2;
        break;
      }
    n.missionCallback(w);
    if (!vh::close(n.getMissionItemSpeed(), want, 1e-6)) c.fail("mission-speed", fmt("mission of %d items, current %d: speed %g, expected %g", k, cur, n.getMissionItemSpeed(), want));
    if (std::isfinite(want)) c.distinct(vh::Hasher() << k << cur << want);
    c.count(std::isfinite(want) ? "with_speed" : "without_speed");
  }
}
