#pragma once
#include <pcl/point_cloud.h>
#include <pcl_conversions/pcl_conversions.h>
#include <ros/ros.h>
namespace rosmock {
template <class P>
struct Wire<pcl::PointCloud<P>> {
  typedef sensor_msgs::PointCloud2 type;
};
}  // namespace rosmock
