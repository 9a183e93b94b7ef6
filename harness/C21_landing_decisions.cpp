// VH: libs=safe_landing_planner flavour=asan twin=1
// The landing waypoint generator driven through its node: every setpoint against a model of the documented phases, and a
// ledger of the landability messages that must justify every descent.
#include <safe_landing_planner/waypoint_generator_node.hpp>
#include "vh.h"

using namespace avoidance;
using vh::fmt;
using Cfg = safe_landing_planner::WaypointGeneratorNodeConfig;
typedef Eigen::Vector3f V3;

namespace {
enum S { GOTO, ALT, LOITER, EVAL, GOTO_LAND, LAND };
const char* NAME[] = {"goto", "altitude-change", "loiter", "evaluate", "goto-land", "land"};
const int PX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, PY[8] = {0, 1, 1, 1, 0, -1, -1, -1};
const float NANF = NAN;

struct World {  // landability and height by position
  double cell, ox, oy, p, slope, base, noise;
  uint64_t seed;
  int kind;
  double cx, cy, rad;
  bool flat(double x, double y) const {
    double d = std::hypot(x - cx, y - cy);
    switch (kind) {
      case 0: return true;
      case 1: return false;
      case 2: return d < rad;
      case 3: return d > rad;
      default: {
        int64_t i = (int64_t)std::floor(x / 1.5), j = (int64_t)std::floor(y / 1.5);
        return (vh::hashBytes(&j, 8, vh::hashBytes(&i, 8, seed)) >> 20) % 1000 < p * 1000;
      }
    }
  }
  double height(double x, double y) const { return base + slope * x + (flat(x, y) ? 0 : noise); }
};

struct Model {
  S st = GOTO;
  bool changed = false, reset = false;
  bool isLand = false, decided = false, canLand = true, exploring = false;
  int pattern = -1, seq = 0, startSeq = 0;
  float factor = 1, radius = 2;
  float yaw = NANF, yawSp = NANF, yawRate = NANF, loiterYaw = NANF;
  V3 pos{NANF, NANF, NANF}, goal{NANF, NANF, NANF}, vel{NANF, NANF, NANF}, loiter{NANF, NANF, NANF}, anchor{NANF, NANF, NANF}, vis{0, 0, 0};
  Cfg g;
  int n = 10;
  double cell = 1, gsz = 10;
  std::vector<double> mean, H;
  std::vector<int> land, R;
  int hn = 40;
  const char* cut = nullptr;  // rounding decides: stop judging this flight
  double alt = -1;
  Model() {
    mean.assign(100, 0), land.assign(100, 0);
    H.assign(1600, 0), R.assign(1600, 0);
  }
  int r() const { return std::max(0, std::min(g.smoothing_land_cell, (n - 1) / 2)); }
  static bool disc(int a, int b, int r) { return std::sqrt(double(a * a + b * b)) < r + 0.5; }
  struct Out {
    V3 p, v;
    float yaw, rate;
    double yawTol = 1e-4;
  };
  double percentile() {
    std::vector<double> v;
    int o = n / 2, q = r();
    for (int i = o - q; i <= o + q; i++)
      for (int j = o - q; j <= o + q; j++) v.push_back(mean[i * n + j]);
    std::sort(v.begin(), v.end());
    return v[std::min((int)v.size() - 1, (int)std::lround(0.8 * v.size()))];
  }
  bool within() {
    double d = std::hypot((double)goal.x() - pos.x(), (double)goal.y() - pos.y());
    if (std::fabs(d - radius) < 1e-4) cut = "radius";
    return d < radius;
  }
  void nextYaw(Out& o) {
    double dx = (double)goal.x() - pos.x(), dy = (double)goal.y() - pos.y(), d = std::hypot(dx, dy);
    o.yaw = std::atan2(dy, dx);
    o.yawTol = d > 0 ? 1e-5 + 1e-5 * (1 + std::fabs(pos.x()) + std::fabs(pos.y())) / d : 1e-5;
  }
  bool patch(int a, int b) {  // centre cell
    for (int i = -r(); i <= r(); i++)
      for (int j = -r(); j <= r(); j++)
        if (disc(i, j, r()) && !R[(a + i) * n + b + j]) return false;
    return true;
  }
  S next(S s) {
    st = s;
    changed = true;
    return s;
  }
  Out step() {
    if (hn != n) hn = n, H.assign(n * n, 0), R.assign(n * n, 0);
    if (!isLand) {
      decided = false, canLand = true, exploring = false, pattern = -1, factor = 1, radius = 2;
      std::fill(H.begin(), H.end(), 0.0);
    }
    Out o{V3(NANF, NANF, NANF), V3(NANF, NANF, NANF), NANF, NANF};
    if (reset) {
      reset = false;
      next(GOTO);
      o.yawTol = -1;  // nothing is sent in this iteration
      return o;
    }
    bool ch = changed;
    changed = false;
    switch (st) {
      case GOTO: {
        if (exploring) {
          radius = 0.5f;
          nextYaw(o);
          yawSp = o.yaw;
        }
        o.p = goal, o.v = vel, o.yaw = yawSp, o.rate = yawRate;
        std::fill(H.begin(), H.end(), 0.0);
        bool w = within();
        if (!isLand) cut = nullptr;
        if (w && isLand && !decided) {
          next(ALT);
        } else if (w && isLand && decided && !canLand) {
          if (!exploring) anchor = loiter, exploring = true;
          if (++pattern == 8) pattern = 0, factor += 1;
          double off = g.spiral_width * factor * 2 * g.smoothing_land_cell * cell;
          goal = V3(anchor.x() + off * PX[pattern], anchor.y() + off * PY[pattern], anchor.z());
          vel = V3(NANF, NANF, NANF);
          decided = false;
        }
        break;
      }
      case ALT: {
        if (ch) loiterYaw = yaw;
        goal.z() = NANF;
        double a = std::fabs(pos.z() - percentile());
        if (std::fabs(a - g.loiter_height) < 1e-4) cut = "loiter height";
        vel.z() = a < g.loiter_height ? 0.7f : -0.7f;
        o.p = goal, o.v = vel, o.yaw = loiterYaw, o.rate = yawRate;
        double e = std::fabs(a - g.loiter_height);
        if (std::fabs(e - g.vertical_range_error) < 1e-4) cut = "vertical range";
        if (e < g.vertical_range_error) {
          startSeq = seq;
          next(LOITER);
        }
        break;
      }
      case LOITER:
        if (ch) loiter = pos, goal = pos;
        o.p = loiter, o.yaw = loiterYaw;
        if (std::abs(seq - startSeq) <= 20) {
          for (int k = 0; k < n * n; k++) H[k] = (float)g.beta * H[k] + (1 - (double)(float)g.beta) * land[k];
        } else {
          for (int k = 0; k < n * n; k++) {
            if (std::fabs(H[k] - (float)g.can_land_thr) < 2e-6 && H[k] != 0 && (float)g.beta != 0) cut = "landability threshold";
            R[k] = H[k] > (float)g.can_land_thr;
            H[k] = R[k];
          }
          next(EVAL);
        }
        break;
      case EVAL: {
        o.p = loiter, o.yaw = loiterYaw;
        radius = 0.5f;
        canLand = patch(n / 2, n / 2);
        if (canLand) {
          decided = true;
          next(GOTO_LAND);
          break;
        }
        for (int i = 1; i < (n - 2 * r()) / 2 && !canLand; i++)
          for (int j = 0; j < 8 && !canLand; j++) {
            canLand = patch(n / 2 + PX[j] * i, n / 2 + PY[j] * i);
            if (canLand) {
              goal = V3(pos.x() + PX[j] * i * cell, pos.y() + PY[j] * i * cell, pos.z());
              vel.z() = NANF;
            }
          }
        decided = true;
        next(canLand ? GOTO_LAND : GOTO);
        break;
      }
      case GOTO_LAND:
        nextYaw(o);
        o.p = goal, o.v = vel, o.rate = yawRate;
        if (within()) next(LAND);
        break;
      case LAND:
        if (ch) loiter = pos, loiterYaw = yaw;
        loiter.z() = NANF;
        o.p = loiter, o.v = V3(NANF, NANF, -0.7f), o.yaw = loiterYaw;
        break;
    }
    return o;
  }
};

bool same(double a, double b, double tol) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol; }

Cfg config(vh::Rng& r) {
  Cfg g;
  g.can_land_thr = r.pick({0.4, 0.0, 1.0, 0.1, 0.8, r.uni(0, 1)});
  g.loiter_height = r.pick({4.0, 8.0, 1.0, 12.0, r.uni(1, 12)});
  g.smoothing_land_cell = r.pick({6, 0, 1, 2, 3, 3, 2, 19, 20, 100, r.range(0, 10)});
  g.beta = r.pick({0.9, 0.0, 0.5, 1.0, r.uni(0, 1)});
  g.vertical_range_error = r.pick({0.5, 1.0, 4.0, 0.1});
  g.spiral_width = r.pick({2.0, 1.0, 1.5, r.uni(1, 10)});
  return g;
}

struct Flight {
  vh::Case& c;
  vh::Rng& r;
  ros::NodeHandle nh{"~"};
  std::unique_ptr<WaypointGeneratorNode> node;
  Model m;
  World w;
  V3 pos;
  double yaw = 0, cell = 0.25;
  int n = 40, seq = 0;
  double vz = 0;
  mavros_msgs::Trajectory tr;
  std::string mode = "AUTO.MISSION";
  bool armed = true;
  bool broken = false;
  vh::Hasher h;
  uint64_t fingerprint = 0;
  // ledger: cells judged landable since the vehicle last moved away
  explicit Flight(vh::Case& c_) : c(c_), r(c_.rng) {
    rosmock::reset();
    rosmock::setTime(100);
    node.reset(new WaypointGeneratorNode(nh));
    node->startNode();
    tr.point_valid = {1, 1, 0, 0, 0};
  }
  void bad(const char* k, const std::string& d) {
    broken = true;
    c.fail(k, d);
  }
  void world(double size) {
    w.kind = r.pick({0, 1, 2, 2, 3, 4, 4, 4});
    w.p = r.pick({0.3, 0.8, 0.9, 0.97});
    w.seed = r.next();
    w.cx = r.uni(-size, size), w.cy = r.uni(-size, size), w.rad = r.uni(0.3, 1.5) * size;
    w.slope = r.pick({0.0, 0.0, 0.1});
    w.base = r.pick({0.0, -2.0, 10.0});
    w.noise = r.pick({0.0, 1.0, 5.0});
  }
  void sendConfig(const Cfg& g) {
    m.g = g;
    rosmock::reconfigure<Cfg>(g, 0);
  }
  void sendPose() {
    geometry_msgs::PoseStamped p;
    p.pose.position.x = pos.x(), p.pose.position.y = pos.y(), p.pose.position.z = pos.z();
    double pi = r.uni(-0.4, 0.4), ro = r.uni(-0.4, 0.4);
    Eigen::Quaterniond q = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pi, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(ro, Eigen::Vector3d::UnitX());
    p.pose.orientation.x = q.x(), p.pose.orientation.y = q.y(), p.pose.orientation.z = q.z(), p.pose.orientation.w = q.w();
    m.pos = pos;
    m.yaw = yaw;
    rosmock::deliver("mavros/local_position/pose", p);
  }
  void sendTrajectory() {
    V3 p2(tr.point_2.position.x, tr.point_2.position.y, tr.point_2.position.z);
    bool upd = (p2 - m.vis).norm() > 0.01 || std::isnan(m.goal.x()) || std::isnan(m.goal.y());
    if (upd && tr.point_valid[0]) {
      m.goal = V3(tr.point_1.position.x, tr.point_1.position.y, tr.point_1.position.z);
      m.vel = V3(tr.point_1.velocity.x, tr.point_1.velocity.y, tr.point_1.velocity.z);
      m.isLand = tr.command[1] == 21;
    }
    if (tr.point_valid[1]) m.vis = p2, m.yawSp = tr.point_2.yaw, m.yawRate = tr.point_2.yaw_rate;
    rosmock::deliver("mavros/trajectory/desired", tr);
  }
  void sendState() {
    mavros_msgs::State s;
    s.mode = mode, s.armed = armed;
    if (mode == "AUTO.LAND")
      m.isLand = true;
    else if (mode != "AUTO.MISSION")
      m.isLand = false, m.reset = true;
    if (!armed) m.isLand = false, m.reset = true;
    rosmock::deliver("mavros/state", s);
  }
  void sendGrid() {
    safe_landing_planner::SLPGridMsg g;
    seq += r.chance(0.95) ? 1 : r.range(0, 4);
    if (restarts > 0 && r.chance(restarts)) seq = r.range(0, 3);
    g.header.seq = seq;
    g.grid_size = (float)(n * cell), g.cell_size = (float)cell;
    int nn = (int)std::ceil((float)(n * cell) / (float)cell);
    g.mean.layout.dim.resize(2), g.land.layout.dim.resize(2);
    g.mean.layout.dim[0].size = g.mean.layout.dim[1].size = g.land.layout.dim[0].size = g.land.layout.dim[1].size = nn;
    m.n = nn, m.cell = (float)cell, m.gsz = n * cell, m.seq = seq;
    m.mean.assign(nn * nn, 0), m.land.assign(nn * nn, 0);
    for (int i = 0; i < nn; i++)
      for (int j = 0; j < nn; j++) {
        double x = pos.x() + (i + 0.5 - nn / 2.0) * cell, y = pos.y() + (j + 0.5 - nn / 2.0) * cell;
        bool f = w.flat(x, y);
        if (flicker > 0 && r.chance(flicker)) f = !f;
        float h = w.height(x, y) + 0.02 * r.gauss();
        g.mean.data.push_back(h), g.land.data.push_back(f);
        m.mean[i * nn + j] = h, m.land[i * nn + j] = f;
      }
    rosmock::deliver("grid_slp", g);
  }
  double flicker = 0, restarts = 0;  // of the planner: it counts its grids from one again
  void newItem(bool land) {
    tr.point_1.position.x = pos.x() + r.uni(-6, 6), tr.point_1.position.y = pos.y() + r.uni(-6, 6), tr.point_1.position.z = pos.z();
    auto vv = [&] { return r.chance(0.5) ? NAN : r.uni(-2, 2); };
    tr.point_1.velocity.x = vv(), tr.point_1.velocity.y = vv(), tr.point_1.velocity.z = vv();
    if (r.chance(0.1)) tr.point_1.position.z = NAN;
    tr.point_2.position.x = m.vis.x() + (r.chance(0.5) ? 1 : -1) * r.uni(1, 9), tr.point_2.position.y = r.uni(-50, 50), tr.point_2.position.z = pos.z();
    tr.point_2.yaw = r.chance(0.2) ? NAN : r.uni(-3, 3), tr.point_2.yaw_rate = r.chance(0.5) ? NAN : r.uni(-1, 1);
    tr.command = {16, (uint16_t)(land ? 21 : r.pick({16, 22, 0, 20})), 0, 0, 0};
  }
  // one iteration of the node; false when the flight is over
  bool tick() {
    rosmock::advance(0.1);
    rosmock::clearLog();
    rosmock::fire(0.1);
    S before = m.st;
    Model::Out o = m.step();
    c.count(NAME[before]);
    if (m.st != before) h << (int)before << (int)m.st << m.pattern, c.count(fmt("%s>%s", NAME[before], NAME[m.st]).c_str());
    auto v = rosmock::taken<mavros_msgs::Trajectory>("mavros/trajectory/generated");
    std::string where = fmt("phase %s at (%g, %g, %g), goal (%g, %g, %g), grid %d cells of %g, area radius %d", NAME[before], pos.x(), pos.y(), pos.z(), m.goal.x(), m.goal.y(), m.goal.z(), m.n, m.cell, m.r());
    if (o.yawTol < 0) {
      if (!v.empty()) bad("reset-setpoint", where + ": a setpoint is sent in the iteration that starts over");
      last = {};
      return !broken;
    }
    if (v.size() != 1) {
      bad("setpoint-count", where + fmt(": %zu setpoints in one iteration", v.size()));
      return false;
    }
    auto& t = v[0];
    last = t;
    have = true;
    auto& p = t.point_1;
    double tol = 2e-5 * (1 + std::fabs(pos.x()) + std::fabs(pos.y()) + std::fabs(m.goal.x()) + std::fabs(m.goal.y()));
    if (std::isnan(tol)) tol = 1e-3;
    if (!same(p.position.x, o.p.x(), tol) || !same(p.position.y, o.p.y(), tol) || !same(p.position.z, o.p.z(), tol))
      bad("position", where + fmt(": position (%g, %g, %g), expected (%g, %g, %g)", p.position.x, p.position.y, p.position.z, o.p.x(), o.p.y(), o.p.z()));
    if (!same(p.velocity.x, o.v.x(), 1e-6) || !same(p.velocity.y, o.v.y(), 1e-6) || !same(p.velocity.z, o.v.z(), 1e-6))
      bad("velocity", where + fmt(": velocity (%g, %g, %g), expected (%g, %g, %g)", p.velocity.x, p.velocity.y, p.velocity.z, o.v.x(), o.v.y(), o.v.z()));
    double dy = (double)p.yaw - o.yaw;
    if (std::isnan(p.yaw) != std::isnan(o.yaw) || std::fabs(std::remainder(dy, 2 * M_PI)) > o.yawTol + 1e-4) bad("yaw", where + fmt(": yaw %g, expected %g", p.yaw, o.yaw));
    if (!same(p.yaw_rate, o.rate, 1e-6)) bad("yaw-rate", where + fmt(": yaw rate %g, expected %g", p.yaw_rate, o.rate));
    auto fin = [](double a, double b) { return std::isfinite(a) && std::isfinite(b); };
    bool valid = (fin(o.p.x(), o.p.y()) || fin(o.v.x(), o.v.y())) && (std::isfinite(o.p.z()) || std::isfinite(o.v.z()));
    if (t.point_valid[0] != valid || t.point_valid[1] || t.point_valid[2] || t.point_valid[3] || t.point_valid[4]) bad("valid", where + fmt(": setpoint (%g %g %g | %g %g %g) marked valid %d", o.p.x(), o.p.y(), o.p.z(), o.v.x(), o.v.y(), o.v.z(), t.point_valid[0]));
    if (!std::isnan(p.acceleration_or_force.x) || !std::isnan(t.point_2.position.x) || !std::isnan(t.point_5.yaw) || !std::isnan(t.time_horizon[0])) bad("unused", "unused fields are not marked unused");
    // drawn landing area
    auto ma = rosmock::taken<visualization_msgs::MarkerArray>("land_hysteresis");
    int q = m.r();
    if (ma.size() != 1 || (int)ma[0].markers.size() != (2 * q + 1) * (2 * q + 1))
      bad("drawing", where + fmt(": %zu cells drawn", ma.empty() ? 0 : ma[0].markers.size()));
    else
      for (int i = -q, k = 0; i <= q; i++)
        for (int j = -q; j <= q; j++, k++) {
          bool green = Model::disc(i, j, q) && m.R[(m.n / 2 + i) * m.n + m.n / 2 + j];
          if ((ma[0].markers[k].color.g > 0.5) != green) {
            bad("drawing", where + fmt(": cell (%d,%d) from the centre drawn %s", i, j, green ? "red" : "green"));
            i = q;
            break;
          }
        }
    h << (int)m.st;
    fingerprint = vh::hashBytes(&p.position.x, 24, fingerprint);
    if (m.cut) c.count("cut");
    return !broken && !m.cut;
  }
  mavros_msgs::Trajectory last;
  bool have = false;
  // the vehicle follows what was last sent
  void fly(double dt) {
    if (!have) return;
    auto& p = last.point_1;
    auto go = [&](float& x, double sp, double v, double vmax) {
      if (std::isfinite(sp))
        x += std::min(vmax * dt, std::max(-vmax * dt, sp - x)) * r.uni(0.9, 1.0);
      else if (std::isfinite(v))
        x += v * dt;
    };
    if (!last.point_valid[0]) return;
    go(pos.x(), p.position.x, p.velocity.x, 5);
    go(pos.y(), p.position.y, p.velocity.y, 5);
    go(pos.z(), p.position.z, p.velocity.z, 3);
    if (std::isfinite(p.yaw)) yaw += 0.3 * std::remainder(p.yaw - yaw, 2 * M_PI);
    if (r.chance(0.3)) pos += V3(r.unif(-0.05, 0.05), r.unif(-0.05, 0.05), r.unif(-0.05, 0.05));
  }
};
}  // namespace

VH_SUITE(flights, 400, 12000) {
  Flight f(c);
  auto& r = c.rng;
  f.sendConfig(config(r));
  f.cell = r.pick({0.25, 0.5, 1.0, 0.1});
  f.n = r.pick({40, 40, 20, 13, 27, 10, 5, 2, 1, r.range(1, 44)});
  f.world(f.n * f.cell);
  f.flicker = r.pick({0.0, 0.0, 0.02, 0.2});
  f.pos = V3(r.unif(-20, 20), r.unif(-20, 20), f.w.base + r.uni(1, 15));
  f.yaw = r.uni(-3, 3);
  f.newItem(r.chance(0.8));
  f.restarts = r.pick({0.0, 0.0, 0.0, 0.02});
  double hasty = r.pick({1.0, 3.0, 8.0}), chaos = r.pick({0.0, 0.0, 0.005, 0.03});
  int N = r.range(50, 350);
  for (int k = 0; k < N; k++) {
    if (k && r.chance(chaos)) {
      switch (r.range(0, 5)) {
        case 0: f.sendConfig(config(r)); break;
        case 1: f.n = r.range(1, 44), f.cell = r.pick({0.25, 0.5, 1.0}); break;
        case 2: f.mode = r.pick<std::string>({"AUTO.MISSION", "AUTO.LAND", "AUTO.LOITER", "POSCTL", "OFFBOARD"}); break;
        case 3: f.armed = r.chance(0.7); break;
        case 4: f.world(f.n * f.cell); break;
        default: f.newItem(r.chance(0.6));
      }
    }
    if (f.mode != "AUTO.MISSION" && r.chance(0.1)) f.mode = "AUTO.MISSION";
    if (!f.armed && r.chance(0.2)) f.armed = true;
    if (chaos > 0 && r.chance(0.01)) f.newItem(true);
    if (chaos > 0 && r.chance(0.02)) f.tr.point_valid = {(uint8_t)r.chance(0.8), (uint8_t)r.chance(0.8), 0, 0, 0};
    if (!k || r.chance(0.9)) f.sendPose();
    if (!k || r.chance(0.5) || chaos == 0) f.sendTrajectory();
    if (r.chance(0.3)) f.sendState();
    f.sendGrid();
    if (!f.tick()) break;
    f.fly(0.1 * hasty);
    c.evals(1);
  }
  c.distinct(f.h);
  c.digest(f.fingerprint);
}

// Long searches where hardly anything is landable: many rounds of the spiral, given up and begun again.
VH_SUITE(search, 12, 400) {
  Flight f(c);
  auto& r = c.rng;
  Cfg g = config(r);
  g.smoothing_land_cell = r.range(1, 3), g.vertical_range_error = 0.5, g.beta = r.pick({0.5, 0.8}), g.can_land_thr = 0.4;
  f.sendConfig(g);
  f.cell = r.pick({0.1, 0.25}), f.n = r.range(3, 12);
  f.world(f.n * f.cell);
  f.w.kind = 1;
  f.flicker = r.pick({0.0, 0.02});
  f.pos = V3(r.unif(-20, 20), r.unif(-20, 20), f.w.base + r.uni(1, 15));
  f.yaw = r.uni(-3, 3);
  f.newItem(true);
  f.tr.point_1.position.z = f.pos.z();
  int giveUp = r.pick({100000, 600, 900}), most = 0;
  for (int k = 0; k < 1600; k++) {
    bool away = k % giveUp == giveUp - 1;
    if (away) f.newItem(false);
    if (k % giveUp == 4 && k > giveUp) f.newItem(true);
    f.mode = away ? "AUTO.LOITER" : "AUTO.MISSION";
    f.sendPose(), f.sendTrajectory(), f.sendState(), f.sendGrid();
    if (!f.tick()) break;
    f.fly(0.8);
    most = std::max(most, (int)f.m.factor);
    c.evals(1);
  }
  c.count(fmt("searches that reached round %d", most).c_str());
  c.distinct(f.h);
  c.digest(f.fingerprint);
}

// Whole landings, nothing disturbing them, on static ground. Judged by outcome alone: it never descends towards touch-down on
// an area it did not see as landable, and it does land when there is landable ground to be had.
VH_SUITE(outcome, 120, 4000) {
  Flight f(c);
  auto& r = c.rng;
  Cfg g = config(r);
  g.beta = r.pick({0.5, 0.8, 0.9}), g.can_land_thr = 0.4, g.smoothing_land_cell = r.range(1, 6), g.vertical_range_error = 0.5;
  f.sendConfig(g);
  f.cell = r.pick({0.25, 0.5}), f.n = r.pick({40, 30, 21, 16});
  f.world(f.n * f.cell);
  f.w.slope = 0, f.w.noise = 0;
  double half = f.n * f.cell / 2;
  f.pos = V3(r.unif(-half, half), r.unif(-half, half), f.w.base + r.uni(3, 15));
  f.newItem(true);
  f.tr.point_1.position.z = f.pos.z();
  f.tr.point_2.yaw_rate = 0.3;  // the final descent alone sends no yaw rate together with a climb rate
  bool landing = false;
  int k = 0, N = f.w.kind == 0 ? 600 : 900;
  for (; k < N && !landing; k++) {
    f.sendPose(), f.sendTrajectory(), f.sendState(), f.sendGrid();
    rosmock::clearLog();
    rosmock::advance(0.1);
    rosmock::fire(0.1);
    auto v = rosmock::taken<mavros_msgs::Trajectory>("mavros/trajectory/generated");
    c.evals(1);
    if (v.size() != 1) continue;
    f.last = v[0], f.have = true;
    auto& p = v[0].point_1;
    landing = std::isnan(p.position.z) && std::isnan(p.velocity.x) && std::isnan(p.velocity.y) && p.velocity.z < 0 && std::isnan(p.yaw_rate) && std::isfinite(p.position.x);
    if (landing) {
      // every cell that lies well inside the required disc must be landable ground (the grid is half a metre + a cell off at most)
      double R = (g.smoothing_land_cell) * f.cell - 0.5 - 1.5 * f.cell;
      for (double x = -R; x <= R; x += f.cell / 2)
        for (double y = -R; y <= R; y += f.cell / 2)
          if (std::hypot(x, y) < R && !f.w.flat(p.position.x + x, p.position.y + y)) {
            c.fail("unsafe-landing", fmt("descends at (%g, %g) although the ground %g m away is not landable (area radius %d cells of %g)", p.position.x, p.position.y, std::hypot(x, y), g.smoothing_land_cell, f.cell));
            x = R;
            break;
          }
      if (f.w.kind == 1) c.fail("unsafe-landing", "descends although no ground is landable at all");
    }
    f.fly(0.3);
  }
  if (f.w.kind == 0 && !landing) c.fail("never-lands", fmt("all ground is landable but after %d iterations it has not begun to land; at (%g, %g, %g), ground %g, loiter height %g", k, f.pos.x(), f.pos.y(), f.pos.z(), f.w.base, g.loiter_height));
  c.count(landing ? "landed" : "not-landed");
  c.distinct(vh::Hasher() << landing << k << f.w.kind << g.smoothing_land_cell);
}
