#pragma once
#include <ros/ros.h>
namespace rosmock {
struct FromParams {  // a server starts from the parameters on the parameter server, as roscpp's does
  ros::NodeHandle nh{"~"};
  template <class T>
  void operator()(const char* n, T& v, int, T, T) {
    nh.getParam(n, v);
  }
};
template <class C>
struct Reconf {
  static std::vector<std::pair<void*, boost::function<void(C&, uint32_t)>>>& all() {
    static std::vector<std::pair<void*, boost::function<void(C&, uint32_t)>>> v;
    return v;
  }
};
// hand a configuration to every live server of this type, as rqt_reconfigure would
template <class C>
int reconfigure(C c, uint32_t level) {
  auto v = Reconf<C>::all();
  for (auto& p : v) {
    C copy = c;
    p.second(copy, level);
  }
  return v.size();
}
}  // namespace rosmock
namespace dynamic_reconfigure {
template <class C>
class Server {
  boost::recursive_mutex own_;
  boost::recursive_mutex& m_;

 public:
  typedef boost::function<void(C&, uint32_t level)> CallbackType;
  Server(const ros::NodeHandle& = ros::NodeHandle("~")) : m_(own_) {}
  Server(boost::recursive_mutex& m, const ros::NodeHandle& = ros::NodeHandle("~")) : m_(m) {}
  Server(const Server&) = delete;
  ~Server() { clearCallback(); }
  void setCallback(const CallbackType& cb) {
    boost::recursive_mutex::scoped_lock l(m_);
    clearCallback();
    rosmock::Reconf<C>::all().push_back({this, [this, cb](C& c, uint32_t lv) {
                                           boost::recursive_mutex::scoped_lock l(m_);
                                           cb(c, lv);
                                         }});
    C c = C::__getDefault__();
    c.visit(rosmock::FromParams());
    cb(c, ~0u);
  }
  void clearCallback() {
    auto& v = rosmock::Reconf<C>::all();
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].first == this) v.erase(v.begin() + i--);
  }
  void updateConfig(const C&) {}
};
}  // namespace dynamic_reconfigure
