#pragma once
#include <pcl_ros/point_cloud.h>
#include <tf/transform_listener.h>
namespace pcl_ros {
template <class P>
void transformPointCloud(const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::Transform& t) {
  tf::Quaternion q = t.getRotation();
  Eigen::Quaternionf rot(q.w(), q.x(), q.y(), q.z());
  tf::Vector3 v = t.getOrigin();
  Eigen::Vector3f o(v.x(), v.y(), v.z());
  Eigen::Matrix3f R = rot.toRotationMatrix();
  if (&in != &out) out = in;
  for (auto& p : out.points) {
    if (!out.is_dense && (!std::isfinite(p.x) || !std::isfinite(p.y) || !std::isfinite(p.z))) continue;
    Eigen::Vector3f w = R * Eigen::Vector3f(p.x, p.y, p.z) + o;
    p.x = w.x();
    p.y = w.y();
    p.z = w.z();
  }
}
template <class P>
bool transformPointCloud(const std::string& frame, const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out,
                         const tf::TransformListener& l) {
  if (in.header.frame_id == frame) {
    out = in;
    return true;
  }
  tf::StampedTransform t;
  try {
    l.lookupTransform(frame, in.header.frame_id, pcl_conversions::fromPCL(in.header.stamp), t);
  } catch (tf::TransformException& e) {
    ROS_ERROR("%s", e.what());
    return false;
  }
  transformPointCloud(in, out, t);
  out.header.frame_id = frame;
  return true;
}
inline void transformPointCloud(const std::string& frame, const tf::Transform& t, const sensor_msgs::PointCloud2& in,
                                sensor_msgs::PointCloud2& out) {
  pcl::PointCloud<pcl::PointXYZ> c;
  pcl::fromROSMsg(in, c);
  transformPointCloud(c, c, t);
  pcl::toROSMsg(c, out);
  out.header = in.header;
  out.header.frame_id = frame;
}
}  // namespace pcl_ros
