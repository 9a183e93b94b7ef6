#pragma once
#include <ros/ros.h>
#include "tf/transform_datatypes.h"
namespace rosmock {
// decides lookups: (target, source, time, out) -> available?
typedef std::function<bool(const std::string&, const std::string&, const ros::Time&, tf::StampedTransform&)> TfFn;
struct TfState {
  std::mutex m;
  TfFn fn;
};
inline TfState& tfState() {
  static TfState* s = new TfState;
  return *s;
}
inline void setTf(TfFn f) {
  Lk<std::mutex> l(tfState().m);
  tfState().fn = f;
}
inline bool tfLookup(const std::string& t, const std::string& s, const ros::Time& time, tf::StampedTransform& out) {
  TfFn f;
  {
    Lk<std::mutex> l(tfState().m);
    f = tfState().fn;
  }
  return f && f(t, s, time, out);
}
}  // namespace rosmock
namespace tf {
class Transformer {
 public:
  static const unsigned DEFAULT_CACHE_TIME = 10;
};
class TransformListener {
 public:
  TransformListener(ros::Duration = ros::Duration(10.0), bool = true) {}
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, std::string* = nullptr) const {
    StampedTransform x;
    return rosmock::tfLookup(target, source, t, x);
  }
  bool waitForTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration&,
                        const ros::Duration& = ros::Duration(0.01), std::string* = nullptr) const {
    return canTransform(target, source, t);
  }
  void lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, StampedTransform& x) const {
    StampedTransform y;
    if (!rosmock::tfLookup(target, source, t, y)) throw LookupException("no transform " + target + " " + source);
    y.frame_id_ = target;
    y.child_frame_id_ = source;
    x = y;
  }
  void transformVector(const std::string& target, const ros::Time& t, const geometry_msgs::Vector3Stamped& in,
                       const std::string& fixed, geometry_msgs::Vector3Stamped& out) const {
    StampedTransform x;
    lookupTransform(target, in.header.frame_id, t, x);
    Vector3 v = x.getBasis() * Vector3(in.vector.x, in.vector.y, in.vector.z);
    out.header = in.header;
    out.header.frame_id = target;
    out.vector.x = v.x();
    out.vector.y = v.y();
    out.vector.z = v.z();
  }
};
}  // namespace tf
