#pragma once
// A minimal occupancy octree with OctoMap's lookup semantics: leaves at depth 16, an inner node's
// value is the maximum of its children, unknown space has no node.
#include <cmath>
#include <cstdint>
#include <map>
#include <tuple>
#include <unordered_map>
namespace octomap {
inline double probability(double logodds) { return 1. - (1. / (1. + std::exp(logodds))); }
inline float logodds(double p) { return (float)std::log(p / (1 - p)); }
class OcTreeNode {
  float v_;

 public:
  explicit OcTreeNode(float v = 0) : v_(v) {}
  float getValue() const { return v_; }
  float getLogOdds() const { return v_; }
  double getOccupancy() const { return probability(v_); }
  void setValue(float v) { v_ = v; }
};
class AbstractOcTree {
 public:
  virtual ~AbstractOcTree() {}
  virtual double getResolution() const = 0;
};
class ColorOcTree : public AbstractOcTree {
  double r_;

 public:
  explicit ColorOcTree(double r) : r_(r) {}
  double getResolution() const { return r_; }
};
class OcTree : public AbstractOcTree {
  double res_;
  struct Key {
    uint16_t x, y, z;
    uint8_t d;
    bool operator==(const Key& o) const { return x == o.x && y == o.y && z == o.z && d == o.d; }
  };
  struct H {
    size_t operator()(const Key& k) const {
      return (((uint64_t)k.x * 1000003ull + k.y) * 1000003ull + k.z) * 31ull + k.d;
    }
  };
  std::unordered_map<Key, OcTreeNode, H> n_;
  bool key(double c, uint16_t& k) const {
    double s = std::floor(c / res_) + 32768.0;
    if (!(s >= 0 && s < 65536)) return false;
    k = (uint16_t)s;
    return true;
  }
  static Key up(Key k, int d) {
    int sh = 16 - d;
    k.x = (k.x >> sh) << sh;
    k.y = (k.y >> sh) << sh;
    k.z = (k.z >> sh) << sh;
    k.d = d;
    return k;
  }

 public:
  explicit OcTree(double res) : res_(res) {}
  double getResolution() const { return res_; }
  size_t memoryUsage() const { return n_.size() * 32; }
  size_t size() const { return n_.size(); }
  bool set(double x, double y, double z, float lo) {
    Key k;
    k.d = 16;
    if (!key(x, k.x) || !key(y, k.y) || !key(z, k.z)) return false;
    n_[k] = OcTreeNode(lo);
    for (int d = 15; d >= 12; d--) {
      Key p = up(k, d);
      auto it = n_.find(p);
      if (it == n_.end()) n_[p] = OcTreeNode(lo);
      else if (lo > it->second.getValue()) it->second.setValue(lo);
    }
    return true;
  }
  OcTreeNode* search(double x, double y, double z, unsigned depth = 0) const {
    Key k;
    k.d = 16;
    if (!key(x, k.x) || !key(y, k.y) || !key(z, k.z)) return nullptr;
    if (depth == 0) depth = 16;
    auto it = n_.find(up(k, depth));
    return it == n_.end() ? nullptr : const_cast<OcTreeNode*>(&it->second);
  }
  void dump(std::map<std::tuple<int, int, int>, float>& out) const {
    for (auto& p : n_)
      if (p.first.d == 16) out[std::make_tuple(p.first.x, p.first.y, p.first.z)] = p.second.getValue();
  }
  void setKey(int x, int y, int z, float lo) {
    set((x - 32768 + 0.5) * res_, (y - 32768 + 0.5) * res_, (z - 32768 + 0.5) * res_, lo);
  }
};
}  // namespace octomap
