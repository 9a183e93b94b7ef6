#pragma once
#include <pcl/point_cloud.h>
#include <ros/time.h>
#include <sensor_msgs/PointCloud2.h>
#include <std_msgs/Header.h>
#include <cstring>
namespace pcl_conversions {
inline ros::Time fromPCL(const uint64_t& stamp) { return ros::Time().fromNSec(stamp * 1000ull); }
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ull; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h) {
  std_msgs::Header r;
  r.stamp = fromPCL(h.stamp);
  r.seq = h.seq;
  r.frame_id = h.frame_id;
  return r;
}
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) {
  pcl::PCLHeader r;
  r.stamp = toPCL(h.stamp);
  r.seq = h.seq;
  r.frame_id = h.frame_id;
  return r;
}
}  // namespace pcl_conversions
namespace pcl {
template <class P>
void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c) {
  c.header = pcl_conversions::toPCL(m.header);
  c.width = m.width;
  c.height = m.height;
  c.is_dense = m.is_dense;
  size_t n = size_t(m.width) * m.height;
  c.points.assign(n, P());
  for (auto& f : m.fields) {
    float P::*dst = nullptr;
    if (f.name == "x") dst = &P::x;
    else if (f.name == "y") dst = &P::y;
    else if (f.name == "z") dst = &P::z;
    if (!dst || f.datatype != sensor_msgs::PointField::FLOAT32) continue;
    for (size_t i = 0; i < n; i++) {
      size_t row = i / m.width, col = i % m.width;
      std::memcpy(&(c.points[i].*dst), &m.data[row * m.row_step + col * m.point_step + f.offset], 4);
    }
  }
}
template <class P>
void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m) {
  m = sensor_msgs::PointCloud2();
  m.header = pcl_conversions::fromPCL(c.header);
  m.width = c.width;
  m.height = c.height;
  if (size_t(m.width) * m.height != c.points.size()) {
    m.width = c.points.size();
    m.height = 1;
  }
  m.is_dense = c.is_dense;
  m.point_step = 16;
  m.row_step = 16 * m.width;
  const char* nm[3] = {"x", "y", "z"};
  for (int k = 0; k < 3; k++) {
    sensor_msgs::PointField f;
    f.name = nm[k];
    f.offset = 4 * k;
    f.datatype = sensor_msgs::PointField::FLOAT32;
    f.count = 1;
    m.fields.push_back(f);
  }
  m.data.assign(16 * c.points.size(), 0);
  for (size_t i = 0; i < c.points.size(); i++) {
    std::memcpy(&m.data[16 * i], &c.points[i].x, 4);
    std::memcpy(&m.data[16 * i + 4], &c.points[i].y, 4);
    std::memcpy(&m.data[16 * i + 8], &c.points[i].z, 4);
  }
}
}  // namespace pcl
