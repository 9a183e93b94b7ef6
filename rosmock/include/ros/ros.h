#pragma once
// Stand-in for the part of roscpp this project uses. Nothing runs by itself: the harness
// delivers messages (rosmock::deliver), fires timers (rosmock::fire) and owns the clock,
// from whichever threads it wants to model.
#include <boost/bind.hpp>
#include <boost/bind/placeholders.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <type_traits>
#include <typeindex>
#include <vector>
#include "ros/console.h"
#include "ros/time.h"
using boost::placeholders::_1;
using boost::placeholders::_2;
using boost::placeholders::_3;

namespace ros {
struct TimerEvent {
  Time last_expected, last_real, current_expected, current_real;
};
class CallbackQueue {
 public:
  void callAvailable(WallDuration d = WallDuration());
  void callOne(WallDuration d = WallDuration()) { callAvailable(d); }
  void enable() {}
  void disable() {}
  bool isEmpty() { return true; }
};
}  // namespace ros

namespace rosmock {
// the message type that goes over the wire (all PCL clouds travel as the same one)
template <class M>
struct Wire {
  typedef M type;
};
struct Sub {
  std::string topic;
  std::type_index type = typeid(void);
  std::function<void(const void* /*boost::shared_ptr<M const>*/)> call;
  std::atomic<bool> alive{true};
  std::recursive_mutex running;  // as in roscpp: one call at a time, and removing it waits for the call to end
};
struct TimerRec {
  double period = 0;
  boost::function<void(const ros::TimerEvent&)> cb;
  ros::CallbackQueue* queue = nullptr;
  std::atomic<bool> alive{true};
  std::recursive_mutex running;
};
struct Rec {
  std::string topic;
  std::type_index type = typeid(void);
  std::shared_ptr<void> msg;
  int64_t t;
};
struct Bus {
  std::recursive_mutex m;
  std::vector<std::shared_ptr<Sub>> subs;
  std::vector<std::shared_ptr<TimerRec>> timers;
  std::vector<Rec> log;
  bool record = true;
  std::map<std::string, long> published;
  std::map<std::string, std::string> sparams;
  std::map<std::string, double> dparams;
  std::map<std::string, bool> bparams;
  std::map<std::string, std::vector<std::string>> lparams;
  std::map<std::string, std::function<bool(void*)>> services;
  // run by callAvailable() on the global queue (the node asks for pending messages)
  std::function<void(double)> onGlobalCallAvailable;
  std::function<bool()> okHook;
  std::function<void(const std::string&)> onPublish;
  // a started AsyncSpinner really runs, firing the timers of its queue every so many real microseconds (0: it does nothing)
  int spinUs = 0;
};
inline Bus& bus() {
  static Bus* b = new Bus;
  return *b;
}
inline void reset() {
  Lk<std::recursive_mutex> l(bus().m);
  Bus& b = bus();
  b.subs.clear();
  b.timers.clear();
  b.log.clear();
  b.published.clear();
  b.sparams.clear();
  b.dparams.clear();
  b.bparams.clear();
  b.lparams.clear();
  b.services.clear();
  b.onGlobalCallAvailable = nullptr;
  b.okHook = nullptr;
  b.onPublish = nullptr;
  b.record = true;
  b.spinUs = 0;
}
// change hooks while the node's threads are running
template <class F>
void change(F f) {
  Lk<std::recursive_mutex> l(bus().m);
  f(bus());
}
inline std::string base(const std::string& t) { return t; }
// deliver a message to every live subscriber of the topic; returns how many got it
template <class M>
int deliver(const std::string& topic, const M& msg) {
  std::vector<std::shared_ptr<Sub>> v;
  {
    Lk<std::recursive_mutex> l(bus().m);
    for (auto& s : bus().subs)
      if (s->alive && s->topic == topic && s->type == std::type_index(typeid(M))) v.push_back(s);
  }
  boost::shared_ptr<M const> p = boost::make_shared<M>(msg);
  for (auto& s : v) {
    std::lock_guard<std::recursive_mutex> l(s->running);
    if (s->alive) s->call(&p);
  }
  return v.size();
}
template <class M>
std::vector<M> taken(const std::string& topic) {
  Lk<std::recursive_mutex> l(bus().m);
  std::vector<M> out;
  for (auto& r : bus().log)
    if (r.topic == topic && r.type == std::type_index(typeid(M))) out.push_back(*static_cast<M*>(r.msg.get()));
  return out;
}
inline void clearLog() {
  Lk<std::recursive_mutex> l(bus().m);
  bus().log.clear();
}
inline long publishedCount(const std::string& topic) {
  Lk<std::recursive_mutex> l(bus().m);
  return bus().published[topic];
}
// fires every live timer whose period matches (or all when period<0); returns how many
inline int fire(double period = -1) {
  std::vector<std::shared_ptr<TimerRec>> v;
  {
    Lk<std::recursive_mutex> l(bus().m);
    for (auto& t : bus().timers)
      if (t->alive && (period < 0 || std::abs(t->period - period) < 1e-6)) v.push_back(t);
  }
  ros::TimerEvent e;
  e.current_real = e.current_expected = ros::Time::now();
  for (auto& t : v) {
    std::lock_guard<std::recursive_mutex> l(t->running);
    if (t->alive) t->cb(e);
  }
  return v.size();
}
inline std::vector<std::shared_ptr<TimerRec>> timers() {
  Lk<std::recursive_mutex> l(bus().m);
  std::vector<std::shared_ptr<TimerRec>> v;
  for (auto& t : bus().timers)
    if (t->alive) v.push_back(t);
  return v;
}
}  // namespace rosmock

namespace ros {
inline CallbackQueue* getGlobalCallbackQueue() {
  static CallbackQueue q;
  return &q;
}
inline void CallbackQueue::callAvailable(WallDuration d) {
  if (this != getGlobalCallbackQueue()) return;
  std::function<void(double)> f;
  {
    rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
    f = rosmock::bus().onGlobalCallAvailable;
  }
  if (f) f(d.toSec());
}
inline bool ok() {
  std::function<bool()> f;
  {
    rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
    f = rosmock::bus().okHook;
  }
  return f ? f() : true;
}
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spin() {}
inline void spinOnce() {}
inline void shutdown() {}
namespace this_node {
inline std::string getName() { return "/node"; }
}
namespace names {
inline std::map<std::string, std::string> getRemappings() { return {}; }
}

class Publisher {
  std::string topic_;
  std::type_index type_ = typeid(void);

 public:
  Publisher() {}
  Publisher(const std::string& t, std::type_index ti) : topic_(t), type_(ti) {}
  std::string getTopic() const { return topic_; }
  uint32_t getNumSubscribers() const { return 1; }
  void shutdown() {}
  template <class M>
  void publish(const M& m) const {
    // roscpp rejects (asserts) a message type different from the advertised one and ignores an
    // unadvertised publisher; the stand-in records under the topic.
    if (topic_.empty()) return;
    if (type_ != std::type_index(typeid(typename rosmock::Wire<M>::type))) throw std::logic_error("publish of wrong type on " + topic_);
    std::function<void(const std::string&)> f;
    std::shared_ptr<M> copy = std::make_shared<M>(m);  // outside: reading the message counts
    {
      rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
      rosmock::bus().published[topic_]++;
      if (rosmock::bus().record) rosmock::bus().log.push_back({topic_, typeid(M), copy, rosmock::clockNow()});
      f = rosmock::bus().onPublish;
    }
    if (f) f(topic_);
  }
  template <class M>
  void publish(const boost::shared_ptr<M>& m) const {
    publish(*m);
  }
  operator void*() const { return topic_.empty() ? nullptr : (void*)1; }
};

class Subscriber {
  struct H {
    std::shared_ptr<rosmock::Sub> s;
    ~H() {
      if (!s) return;
      s->alive = false;
      std::lock_guard<std::recursive_mutex> l(s->running);
    }
  };
  std::shared_ptr<H> h_;

 public:
  Subscriber() {}
  explicit Subscriber(std::shared_ptr<rosmock::Sub> s) : h_(new H{s}) {}
  void shutdown() {
    if (!h_ || !h_->s) return;
    h_->s->alive = false;
    std::lock_guard<std::recursive_mutex> l(h_->s->running);
  }
  std::string getTopic() const { return h_ ? h_->s->topic : ""; }
  uint32_t getNumPublishers() const { return 1; }
};

class Timer {
  struct H {
    std::shared_ptr<rosmock::TimerRec> s;
    ~H() {
      if (!s) return;
      s->alive = false;
      std::lock_guard<std::recursive_mutex> l(s->running);
    }
  };
  std::shared_ptr<H> h_;

 public:
  Timer() {}
  explicit Timer(std::shared_ptr<rosmock::TimerRec> s) : h_(new H{s}) {}
  void stop() {
    if (!h_) return;
    h_->s->alive = false;
    std::lock_guard<std::recursive_mutex> l(h_->s->running);
  }
  void start() {
    if (h_) h_->s->alive = true;
  }
};
struct TimerOptions {
  TimerOptions() {}
  TimerOptions(Duration p, const boost::function<void(const TimerEvent&)>& cb, CallbackQueue* q, bool = false, bool = true)
      : period(p), callback(cb), callback_queue(q) {}
  Duration period;
  boost::function<void(const TimerEvent&)> callback;
  CallbackQueue* callback_queue = nullptr;
};

class AsyncSpinner {
 public:
  AsyncSpinner(uint32_t, CallbackQueue* q = nullptr) : q_(q) {}
  ~AsyncSpinner() { stop(); }
  void start() {
    int us = rosmock::bus().spinUs;
    if (!us || t_.joinable()) return;
    end_ = false;
    t_ = std::thread([this, us] {
      while (!end_) {
        std::vector<std::shared_ptr<rosmock::TimerRec>> v;
        {
          rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
          for (auto& t : rosmock::bus().timers)
            if (t->alive && t->queue == q_) v.push_back(t);
        }
        TimerEvent e;
        e.current_real = e.current_expected = Time::now();
        for (auto& t : v) {
          std::lock_guard<std::recursive_mutex> l(t->running);
          if (t->alive && !end_) t->cb(e);
        }
        std::this_thread::sleep_for(std::chrono::microseconds(us));
      }
    });
  }
  void stop() {
    end_ = true;
    if (t_.joinable()) t_.join();
  }

 private:
  CallbackQueue* q_;
  std::atomic<bool> end_{false};
  std::thread t_;
};

class ServiceClient {
  std::string name_;

 public:
  ServiceClient() {}
  explicit ServiceClient(const std::string& n) : name_(n) {}
  template <class S>
  bool call(S& s) {
    std::function<bool(void*)> f;
    {
      rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
      auto it = rosmock::bus().services.find(name_);
      if (it == rosmock::bus().services.end()) return false;
      f = it->second;
    }
    return f(&s);
  }
};

class NodeHandle {
  std::string ns_;

 public:
  NodeHandle(const std::string& ns = "") : ns_(ns) {}
  NodeHandle(const NodeHandle& p, const std::string&) : ns_(p.ns_) {}
  void setCallbackQueue(CallbackQueue*) {}
  CallbackQueue* getCallbackQueue() const { return getGlobalCallbackQueue(); }
  template <class M>
  Publisher advertise(const std::string& topic, uint32_t, bool = false) {
    return Publisher(topic, typeid(typename rosmock::Wire<M>::type));
  }
  template <class S>
  ServiceClient serviceClient(const std::string& n, bool = false) {
    return ServiceClient(n);
  }
  template <class M>
  static Subscriber add(const std::string& topic, std::function<void(const boost::shared_ptr<M const>&)> f) {
    auto s = std::make_shared<rosmock::Sub>();
    s->topic = topic;
    s->type = typeid(M);
    s->call = [f](const void* p) { f(*static_cast<const boost::shared_ptr<M const>*>(p)); };
    rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
    rosmock::bus().subs.push_back(s);
    return Subscriber(s);
  }
  // void (T::*)(const M&) or (M), with or without an explicit "const M&" template argument
  template <class A, class T, class O>
  Subscriber subscribe(const std::string& topic, uint32_t, void (T::*fp)(A), O* obj) {
    typedef typename std::remove_cv<typename std::remove_reference<A>::type>::type M;
    return subImpl<M>(topic, fp, obj);
  }
  template <class A, class T, class O>
  Subscriber subscribe(const std::string& topic, uint32_t, void (T::*fp)(A) const, O* obj) {
    typedef typename std::remove_cv<typename std::remove_reference<A>::type>::type M;
    return add<M>(topic, [obj, fp](const boost::shared_ptr<M const>& p) { (obj->*fp)(*p); });
  }
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t,
                       const boost::function<void(const boost::shared_ptr<M const>&)>& f) {
    return add<M>(topic, [f](const boost::shared_ptr<M const>& p) { f(p); });
  }

 private:
  template <class M, class A, class T, class O>
  Subscriber subImpl(const std::string& topic, void (T::*fp)(A), O* obj) {
    return add<M>(topic, [obj, fp](const boost::shared_ptr<M const>& p) { (obj->*fp)(*p); });
  }
  template <class C>
  Timer addTimer(double period, const C& cb, CallbackQueue* q) const {
    auto t = std::make_shared<rosmock::TimerRec>();
    t->period = period;
    t->cb = cb;
    t->queue = q;
    rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
    rosmock::bus().timers.push_back(t);
    return Timer(t);
  }

 public:
  Timer createTimer(const TimerOptions& o) const { return addTimer(o.period.toSec(), o.callback, o.callback_queue); }
  template <class T>
  Timer createTimer(Duration d, void (T::*fp)(const TimerEvent&), T* obj, bool = false, bool = true) const {
    boost::function<void(const TimerEvent&)> f = [obj, fp](const TimerEvent& e) { (obj->*fp)(e); };
    return addTimer(d.toSec(), f, getGlobalCallbackQueue());
  }
  Timer createTimer(Duration d, const boost::function<void(const TimerEvent&)>& f, bool = false, bool = true) const {
    return addTimer(d.toSec(), f, getGlobalCallbackQueue());
  }

  bool getParam(const std::string& k, std::string& v) const { return get(rosmock::bus().sparams, k, v); }
  bool getParam(const std::string& k, double& v) const { return get(rosmock::bus().dparams, k, v); }
  bool getParam(const std::string& k, bool& v) const { return get(rosmock::bus().bparams, k, v); }
  bool getParam(const std::string& k, float& v) const {
    double d;
    if (!get(rosmock::bus().dparams, k, d)) return false;
    v = d;
    return true;
  }
  bool getParam(const std::string& k, int& v) const {
    double d;
    if (!get(rosmock::bus().dparams, k, d)) return false;
    v = static_cast<int>(d);
    return true;
  }
  bool getParam(const std::string& k, std::vector<std::string>& v) const { return get(rosmock::bus().lparams, k, v); }
  template <class T, class D>
  bool param(const std::string& k, T& v, const D& def) const {
    if (getParam(k, v)) return true;
    v = def;
    return false;
  }
  bool hasParam(const std::string& k) const {
    rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
    return rosmock::bus().sparams.count(k) || rosmock::bus().dparams.count(k) || rosmock::bus().bparams.count(k) ||
           rosmock::bus().lparams.count(k);
  }
  void setParam(const std::string& k, const std::string& v) const {
    rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
    rosmock::bus().sparams[k] = v;
  }
  void setParam(const std::string& k, const char* v) const { setParam(k, std::string(v)); }
  void setParam(const std::string& k, double v) const {
    rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
    rosmock::bus().dparams[k] = v;
  }
  std::string getNamespace() const { return ns_; }
  bool ok() const { return true; }

 private:
  template <class Map, class V>
  static bool get(const Map& m, const std::string& k, V& v) {
    rosmock::Lk<std::recursive_mutex> l(rosmock::bus().m);
    auto it = m.find(k);
    if (it == m.end()) return false;
    v = it->second;
    return true;
  }
};
}  // namespace ros
