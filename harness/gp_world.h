// Random worlds for the global planner and a double-precision model of the risk in them.
#pragma once
#include <global_planner/global_planner.h>
#include <octomap/OcTree.h>
#include <map>
#include <unistd.h>
#include "vh.h"

namespace gpw {
using namespace global_planner;
typedef std::tuple<int, int, int> T3;
inline std::string str(const Cell& c) { return vh::fmt("(%d,%d,%d)", c.xIndex(), c.yIndex(), c.zIndex()); }
// the planner prints its progress
inline void quiet() {
  static bool done = freopen("/dev/null", "w", stdout) != nullptr;
  (void)done;
}

struct World {
  std::map<T3, float> voxel;  // log odds per map voxel
  double res = 1.0;
  octomap::OcTree* tree() const {
    auto* t = new octomap::OcTree(res);
    for (auto& v : voxel) t->set((std::get<0>(v.first) + 0.5) * res, (std::get<1>(v.first) + 0.5) * res, (std::get<2>(v.first) + 0.5) * res, v.second);
    return t;
  }
};

// What the planner should believe, from the world it was last given
struct Risk {
  World w;
  std::set<T3> occupied;
  bool map = false;
  double explore = 0.005, flow = 1.0, robot = 0.5, risk_factor = 500, smooth = 10, up = 3, down = 1, max_risk = 0.2, max_alt = 10;
  const std::vector<double>* prior = nullptr;
  std::map<T3, double> memo;

  double priorAt(const Cell& c) const {
    double z = c.zPos();
    long k = z < 0 ? 0 : (long)std::floor(z + 0.5);
    return (*prior)[std::min<long>(k, (long)prior->size() - 1)];
  }
  double single(const Cell& c) const {
    if (c.zIndex() < 1 || !map) return 1.0;
    double pr = priorAt(c);
    // the voxel at the cell's centre; for large cells the most occupied of the eight around it
    float lo = -1e9;
    bool seen = false;
    int depth = std::min(16, 17 - (int)(CELL_SCALE + 0.1));
    int m = 1 << (16 - depth);
    int k[3];
    double p[3] = {c.xPos(), c.yPos(), c.zPos()};
    for (int a = 0; a < 3; a++) {
      k[a] = (int)std::floor(p[a] / w.res);
      k[a] = (int)std::floor((double)k[a] / m) * m;
    }
    for (int x = 0; x < m; x++)
      for (int y = 0; y < m; y++)
        for (int z = 0; z < m; z++) {
          auto it = w.voxel.find(T3(k[0] + x, k[1] + y, k[2] + z));
          if (it != w.voxel.end()) seen = true, lo = std::max(lo, it->second);
        }
    if (!seen) return explore * pr;
    double p1 = 1 - 1 / (1 + std::exp((double)lo));
    double post = p1 * pr / (p1 * pr + (1 - p1) * (1 - pr) + 1e-4);
    return occupied.count(c.tpl_) || lo > 0 ? post : explore * post;
  }
  double cell(const Cell& c) {
    auto it = memo.find(c.tpl_);
    if (it != memo.end()) return it->second;
    double r = single(c);
    for (auto& n : c.getFlowNeighbors((int)std::ceil(robot / (map ? w.res : 1.0)))) r += flow * single(n);
    return memo[c.tpl_] = r;
  }
  double edge(const Node& n) {
    auto cells = n.getCells();
    double s = 0;
    for (auto& k : cells) s += cell(k);
    return s / cells.size() * n.getLength();
  }
};

struct Setup {
  GlobalPlanner gp;
  Risk m;
  void params(vh::Rng& r, bool plausible = false) {
    m.explore = gp.explore_penalty_ = r.pick({0.005, r.uni(0, 0.01)});
    m.flow = gp.neighbor_risk_flow_ = r.pick({1.0, 1.0, 0.0, r.uni(0, 1)});
    m.risk_factor = gp.risk_factor_ = r.pick({500.0, r.uni(0, 1000)});
    m.smooth = gp.smooth_factor_ = r.pick({20.0, r.uni(0, 100)});
    m.up = gp.up_cost_ = r.pick({5.0, r.uni(0, 10)});
    m.down = gp.down_cost_ = r.pick({1.0, r.uni(0, 10)});
    m.max_risk = gp.max_cell_risk_ = r.pick({0.2, 0.2, r.uni(0.05, 1)});
    m.max_alt = gp.max_altitude_ = plausible ? r.range(5, 20) : r.range(0, 50);
    gp.min_altitude_ = r.range(0, plausible ? 3 : 10);
    gp.vert_to_hor_cost_ = r.uni(0, 10);
    if (!plausible) {
      m.robot = r.pick({0.5, 0.5, r.uni(0.05, 0.95), 1.3, 2.3});
      gp.setRobotRadius(m.robot);
    } else {
      m.robot = 0.5;
      gp.setRobotRadius(0.5);
    }
    m.prior = &gp.alt_prior_;
    m.memo.clear();
  }
  void update(const World& w) {
    gp.updateFullOctomap(w.tree());
    m.w = w;
    m.map = true;
    m.memo.clear();
  }
};
inline float anyLogOdds(vh::Rng& r) { return r.pick({-2.f, -0.4f, 0.85f, 3.5f, r.unif(-3.f, 4.f), 0.f}); }
}  // namespace gpw
