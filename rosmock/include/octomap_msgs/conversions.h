#pragma once
#include <octomap/octomap.h>
#include <octomap_msgs/Octomap.h>
#include <cstring>
namespace octomap_msgs {
struct Leaf {
  int32_t x, y, z;
  float v;
};
inline octomap::AbstractOcTree* msgToMap(const Octomap& m) {
  if (m.id == "ColorOcTree") return new octomap::ColorOcTree(m.resolution);
  if (m.id != "OcTree") return nullptr;
  auto* t = new octomap::OcTree(m.resolution);
  for (size_t i = 0; i + sizeof(Leaf) <= m.data.size(); i += sizeof(Leaf)) {
    Leaf l;
    std::memcpy(&l, &m.data[i], sizeof l);
    t->setKey(l.x, l.y, l.z, l.v);
  }
  return t;
}
inline bool fullMapToMsg(const octomap::OcTree& t, Octomap& m) {
  m.id = "OcTree";
  m.resolution = t.getResolution();
  std::map<std::tuple<int, int, int>, float> all;
  t.dump(all);
  m.data.clear();
  for (auto& p : all) {
    Leaf l{std::get<0>(p.first), std::get<1>(p.first), std::get<2>(p.first), p.second};
    size_t o = m.data.size();
    m.data.resize(o + sizeof l);
    std::memcpy(&m.data[o], &l, sizeof l);
  }
  return true;
}
}  // namespace octomap_msgs
