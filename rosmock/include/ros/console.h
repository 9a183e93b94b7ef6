#pragma once
#include <cstdarg>
#include <cstdio>
#include <atomic>
#include <sstream>
namespace rosmock {
inline std::atomic<long>& logCount(int level) {
  static std::atomic<long> c[5];
  return c[level];
}
__attribute__((format(printf, 2, 3))) inline void log(int level, const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  logCount(level).fetch_add(1, std::memory_order_relaxed);
}
}  // namespace rosmock
#define ROS_DEBUG(...) ::rosmock::log(0, __VA_ARGS__)
#define ROS_INFO(...) ::rosmock::log(1, __VA_ARGS__)
#define ROS_WARN(...) ::rosmock::log(2, __VA_ARGS__)
#define ROS_ERROR(...) ::rosmock::log(3, __VA_ARGS__)
#define ROS_FATAL(...) ::rosmock::log(4, __VA_ARGS__)
#define ROS_INFO_ONCE(...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_ONCE(...) ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) ROS_ERROR(__VA_ARGS__)
#define ROS_DEBUG_ONCE(...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_THROTTLE(t, ...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_THROTTLE(t, ...) ROS_WARN(__VA_ARGS__)
#define ROSMOCK_STREAM(l, x)                \
  do {                                      \
    std::stringstream ss_;                  \
    ss_ << x;                               \
    ::rosmock::log(l, "%s", ss_.str().c_str()); \
  } while (0)
#define ROS_DEBUG_STREAM(x) ROSMOCK_STREAM(0, x)
#define ROS_INFO_STREAM(x) ROSMOCK_STREAM(1, x)
#define ROS_WARN_STREAM(x) ROSMOCK_STREAM(2, x)
#define ROS_ERROR_STREAM(x) ROSMOCK_STREAM(3, x)
#define ROSCONSOLE_DEFAULT_NAME "ros"
namespace ros {
namespace console {
namespace levels {
enum Level { Debug, Info, Warn, Error, Fatal, Count };
}
inline bool set_logger_level(const char*, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
}  // namespace console
}  // namespace ros
