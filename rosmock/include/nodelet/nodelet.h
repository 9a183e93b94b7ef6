#pragma once
#include <ros/ros.h>
#define NODELET_DEBUG(...) ROS_DEBUG(__VA_ARGS__)
#define NODELET_INFO(...) ROS_INFO(__VA_ARGS__)
namespace nodelet {
class Nodelet {
  ros::NodeHandle nh_, pnh_{"~"};

 public:
  virtual ~Nodelet() {}
  const std::string& getName() const {
    static std::string n = "/local_planner_nodelet";
    return n;
  }
  ros::NodeHandle& getNodeHandle() { return nh_; }
  ros::NodeHandle& getPrivateNodeHandle() { return pnh_; }
  ros::NodeHandle& getMTNodeHandle() { return nh_; }
  virtual void onInit() = 0;
};
}  // namespace nodelet
