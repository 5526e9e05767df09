// Stand-in for rclcpp time types (behaviour follows rclcpp).
#pragma once
#include <atomic>
#include <chrono>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <numeric>
#include <cxxabi.h>
#include <iostream>
#include <iomanip>
#include <condition_variable>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

typedef int64_t rcl_duration_value_t;
typedef int64_t rcl_time_point_value_t;
enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
typedef rcl_clock_type_t rcl_clock_type_e;

namespace builtin_interfaces { namespace msg {
struct Time { int32_t sec = 0; uint32_t nanosec = 0; using SharedPtr = std::shared_ptr<Time>; bool operator==(const Time&) const = default; };
struct Duration { int32_t sec = 0; uint32_t nanosec = 0; using SharedPtr = std::shared_ptr<Duration>; bool operator==(const Duration&) const = default; };
} }

namespace shim {
// Fake time: when manual, every clock shows `now_ns`; otherwise the steady clock.
struct ClockState { std::atomic<bool> manual{false}; std::atomic<int64_t> now_ns{1000000000}; std::atomic<bool> started{true}; std::atomic<bool> sleep_throws{false}; std::atomic<int64_t> sleep_calls{0}; std::atomic<int64_t> last_sleep_until{0}; };
inline ClockState & clock_state() { static ClockState s; return s; }
inline int64_t now_ns()
{
  auto & s = clock_state();
  if (s.manual.load(std::memory_order_relaxed)) return s.now_ns.load(std::memory_order_relaxed);
  return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
}

namespace rclcpp {
class Duration
{
public:
  Duration(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000LL + ns) {}
  explicit Duration(std::chrono::nanoseconds d) : ns_(d.count()) {}
  template <class Rep, class Period>
  Duration(const std::chrono::duration<Rep, Period> & d) : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & m) : ns_(int64_t(m.sec) * 1000000000LL + m.nanosec) {}
  Duration(const Duration &) = default;
  Duration & operator=(const Duration &) = default;
  operator builtin_interfaces::msg::Duration() const { builtin_interfaces::msg::Duration d; d.sec = int32_t(ns_ / 1000000000LL); d.nanosec = uint32_t(ns_ % 1000000000LL); return d; }
  static Duration from_nanoseconds(int64_t n) { return Duration(std::chrono::nanoseconds(n)); }
  static Duration from_seconds(double s) { return Duration(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<double>(s))); }
  static Duration max() { return Duration(std::numeric_limits<int32_t>::max(), 999999999u); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  template <class D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration & operator+=(const Duration & o) { ns_ += o.ns_; return *this; }
  Duration & operator-=(const Duration & o) { ns_ -= o.ns_; return *this; }
  Duration operator*(double s) const
  {
    if (!std::isfinite(s)) throw std::runtime_error("abnormal scale in rclcpp::Duration");
    return from_nanoseconds(static_cast<int64_t>(static_cast<long double>(ns_) * static_cast<long double>(s)));
  }
  Duration & operator*=(double s) { *this = *this * s; return *this; }
  Duration operator-() const { return from_nanoseconds(-ns_); }
private:
  Duration() : ns_(0) {}
  int64_t ns_;
};

class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(int64_t(s) * 1000000000LL + ns), type_(t)
  { if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), type_(t) {}
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME) : ns_(int64_t(m.sec) * 1000000000LL + m.nanosec), type_(t)
  { if (m.sec < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  Time(const Time &) = default;
  Time & operator=(const Time &) = default;
  Time & operator=(const builtin_interfaces::msg::Time & m) { *this = Time(m); return *this; }
  operator builtin_interfaces::msg::Time() const { builtin_interfaces::msg::Time d; d.sec = int32_t(ns_ / 1000000000LL); d.nanosec = uint32_t(ns_ % 1000000000LL); return d; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  rcl_clock_type_t get_clock_type() const { return type_; }
  static Time max(rcl_clock_type_t t = RCL_SYSTEM_TIME) { return Time(std::numeric_limits<int32_t>::max(), 999999999u, t); }
  bool operator==(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return !(*this == o); }
  bool operator<(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ <= o.ns_; }
  bool operator>(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ > o.ns_; }
  bool operator>=(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ >= o.ns_; }
  Time operator+(const Duration & d) const { return Time(add(ns_, d.nanoseconds()), type_); }
  Time operator-(const Duration & d) const { return Time(add(ns_, -d.nanoseconds()), type_); }
  Duration operator-(const Time & o) const { chk(o, "can't subtract times with different time sources [" ); return Duration::from_nanoseconds(add(ns_, -o.ns_)); }
  Time & operator+=(const Duration & d) { ns_ = add(ns_, d.nanoseconds()); return *this; }
  Time & operator-=(const Duration & d) { ns_ = add(ns_, -d.nanoseconds()); return *this; }
private:
  static int64_t add(int64_t a, int64_t b) { int64_t r; if (__builtin_add_overflow(a, b, &r)) throw std::overflow_error("time overflow"); return r; }
  void chk(const Time & o, const char * m) const { if (type_ != o.type_) throw std::runtime_error(m); }
  int64_t ns_;
  rcl_clock_type_t type_;
};
inline Time operator+(const Duration & d, const Time & t) { return t + d; }

class Context;
class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : type_(t) {}
  Time now() const { return Time(shim::now_ns(), type_); }
  rcl_clock_type_t get_clock_type() const noexcept { return type_; }
  bool started() { return shim::clock_state().started.load(); }
  bool wait_until_started(std::shared_ptr<Context> = nullptr) { return started(); }
  bool wait_until_started(const Duration &, std::shared_ptr<Context> = nullptr, const Duration & = Duration(std::chrono::milliseconds(1))) { return started(); }
  bool ros_time_is_active() { return type_ == RCL_ROS_TIME; }
  bool sleep_until(Time t, std::shared_ptr<Context> = nullptr)
  {
    auto & s = shim::clock_state();
    s.sleep_calls++;
    s.last_sleep_until = t.nanoseconds();
    if (s.sleep_throws.load()) throw std::runtime_error("context cannot be slept with because it's invalid");
    if (t.get_clock_type() != type_) throw std::runtime_error("until's clock type does not match this clock's type");
    if (s.manual.load()) { if (s.now_ns.load() < t.nanoseconds()) s.now_ns = t.nanoseconds(); return true; }
    const int64_t d = t.nanoseconds() - shim::now_ns();
    if (d > 0) std::this_thread::sleep_for(std::chrono::nanoseconds(d));
    return true;
  }
  bool sleep_for(Duration d, std::shared_ptr<Context> c = nullptr) { return sleep_until(now() + d, c); }
private:
  rcl_clock_type_t type_;
};

// ---------------------------------------------------------------- logging
class Logger
{
public:
  enum class Level { Unset = 0, Debug = 10, Info = 20, Warn = 30, Error = 40, Fatal = 50 };
  Logger() = default;
  explicit Logger(const std::string & n) : name_(std::make_shared<const std::string>(n)) {}
  const char * get_name() const { return name_ ? name_->c_str() : ""; }
  Logger get_child(const std::string & s) const { return Logger(std::string(get_name()) + "." + s); }
  void set_level(Level) {}
  Level get_effective_level() const { return Level::Info; }
private:
  std::shared_ptr<const std::string> name_;
};
inline Logger get_logger(const std::string & n) { return Logger(n); }
template <class N> auto get_node_logger(const N * n) { return n->get_logger(); }
}  // namespace rclcpp

namespace shim {
inline int log_level() { static const int l = [] { const char * e = getenv("SHIM_LOG"); return e ? atoi(e) : 100; }(); return l; }
struct LogHook { void (*fn)(int level, const char * logger, const char * text) = nullptr; };
inline LogHook & log_hook() { static LogHook h; return h; }
__attribute__((format(printf, 3, 4))) inline void logf(int level, const rclcpp::Logger & lg, const char * f, ...)
{
  // The text is formatted into a private buffer (so that sanitizers see the arguments); no lock is taken, on purpose.
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (log_hook().fn) log_hook().fn(level, lg.get_name(), buf);
  if (level >= log_level()) fprintf(stderr, "[%d] [%s] %s\n", level, lg.get_name(), buf);
}
inline bool log_enabled(int level) { return level >= 20 || level >= log_level(); }
}
#define SHIM_LOG_(lvl, lg, ...) do { if (shim::log_enabled(lvl)) shim::logf(lvl, lg, __VA_ARGS__); } while (0)
#define SHIM_LOG_EXPR_(lvl, lg, e, ...) do { if (e) { SHIM_LOG_(lvl, lg, __VA_ARGS__); } } while (0)
#define SHIM_LOG_STREAM_(lvl, lg, s) do { if (shim::log_enabled(lvl)) { std::stringstream shim_ss_; shim_ss_ << s; shim::logf(lvl, lg, "%s", shim_ss_.str().c_str()); } } while (0)
#define SHIM_LOG_THROTTLE_(lvl, lg, clk, ms, ...) do { (void)(clk).now(); (void)(ms); SHIM_LOG_(lvl, lg, __VA_ARGS__); } while (0)
#define SHIM_LOG_STREAM_THROTTLE_(lvl, lg, clk, ms, s) do { (void)(clk).now(); (void)(ms); SHIM_LOG_STREAM_(lvl, lg, s); } while (0)
#define SHIM_LOG_FAMILY_DOC_
#define RCLCPP_DEBUG(lg, ...) SHIM_LOG_(10, lg, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE(lg, ...) SHIM_LOG_(10, lg, __VA_ARGS__)
#define RCLCPP_DEBUG_SKIPFIRST(lg, ...) SHIM_LOG_(10, lg, __VA_ARGS__)
#define RCLCPP_DEBUG_EXPRESSION(lg, e, ...) SHIM_LOG_EXPR_(10, lg, e, __VA_ARGS__)
#define RCLCPP_DEBUG_FUNCTION(lg, f, ...) SHIM_LOG_EXPR_(10, lg, (f)(), __VA_ARGS__)
#define RCLCPP_DEBUG_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(10, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_DEBUG_SKIPFIRST_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(10, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(lg, s) SHIM_LOG_STREAM_(10, lg, s)
#define RCLCPP_DEBUG_STREAM_ONCE(lg, s) SHIM_LOG_STREAM_(10, lg, s)
#define RCLCPP_DEBUG_STREAM_EXPRESSION(lg, e, s) do { if (e) SHIM_LOG_STREAM_(10, lg, s); } while (0)
#define RCLCPP_DEBUG_STREAM_THROTTLE(lg, clk, ms, s) SHIM_LOG_STREAM_THROTTLE_(10, lg, clk, ms, s)
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) SHIM_LOG_(10, rclcpp::Logger(name), __VA_ARGS__)
#define RCUTILS_LOG_DEBUG(...) SHIM_LOG_(10, rclcpp::Logger("root"), __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_ONCE_NAMED(name, ...) SHIM_LOG_(10, rclcpp::Logger(name), __VA_ARGS__)
#define RCLCPP_INFO(lg, ...) SHIM_LOG_(20, lg, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(lg, ...) SHIM_LOG_(20, lg, __VA_ARGS__)
#define RCLCPP_INFO_SKIPFIRST(lg, ...) SHIM_LOG_(20, lg, __VA_ARGS__)
#define RCLCPP_INFO_EXPRESSION(lg, e, ...) SHIM_LOG_EXPR_(20, lg, e, __VA_ARGS__)
#define RCLCPP_INFO_FUNCTION(lg, f, ...) SHIM_LOG_EXPR_(20, lg, (f)(), __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(20, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_INFO_SKIPFIRST_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(20, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_INFO_STREAM(lg, s) SHIM_LOG_STREAM_(20, lg, s)
#define RCLCPP_INFO_STREAM_ONCE(lg, s) SHIM_LOG_STREAM_(20, lg, s)
#define RCLCPP_INFO_STREAM_EXPRESSION(lg, e, s) do { if (e) SHIM_LOG_STREAM_(20, lg, s); } while (0)
#define RCLCPP_INFO_STREAM_THROTTLE(lg, clk, ms, s) SHIM_LOG_STREAM_THROTTLE_(20, lg, clk, ms, s)
#define RCUTILS_LOG_INFO_NAMED(name, ...) SHIM_LOG_(20, rclcpp::Logger(name), __VA_ARGS__)
#define RCUTILS_LOG_INFO(...) SHIM_LOG_(20, rclcpp::Logger("root"), __VA_ARGS__)
#define RCUTILS_LOG_INFO_ONCE_NAMED(name, ...) SHIM_LOG_(20, rclcpp::Logger(name), __VA_ARGS__)
#define RCLCPP_WARN(lg, ...) SHIM_LOG_(30, lg, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(lg, ...) SHIM_LOG_(30, lg, __VA_ARGS__)
#define RCLCPP_WARN_SKIPFIRST(lg, ...) SHIM_LOG_(30, lg, __VA_ARGS__)
#define RCLCPP_WARN_EXPRESSION(lg, e, ...) SHIM_LOG_EXPR_(30, lg, e, __VA_ARGS__)
#define RCLCPP_WARN_FUNCTION(lg, f, ...) SHIM_LOG_EXPR_(30, lg, (f)(), __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(30, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_WARN_SKIPFIRST_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(30, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_WARN_STREAM(lg, s) SHIM_LOG_STREAM_(30, lg, s)
#define RCLCPP_WARN_STREAM_ONCE(lg, s) SHIM_LOG_STREAM_(30, lg, s)
#define RCLCPP_WARN_STREAM_EXPRESSION(lg, e, s) do { if (e) SHIM_LOG_STREAM_(30, lg, s); } while (0)
#define RCLCPP_WARN_STREAM_THROTTLE(lg, clk, ms, s) SHIM_LOG_STREAM_THROTTLE_(30, lg, clk, ms, s)
#define RCUTILS_LOG_WARN_NAMED(name, ...) SHIM_LOG_(30, rclcpp::Logger(name), __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) SHIM_LOG_(30, rclcpp::Logger("root"), __VA_ARGS__)
#define RCUTILS_LOG_WARN_ONCE_NAMED(name, ...) SHIM_LOG_(30, rclcpp::Logger(name), __VA_ARGS__)
#define RCLCPP_ERROR(lg, ...) SHIM_LOG_(40, lg, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(lg, ...) SHIM_LOG_(40, lg, __VA_ARGS__)
#define RCLCPP_ERROR_SKIPFIRST(lg, ...) SHIM_LOG_(40, lg, __VA_ARGS__)
#define RCLCPP_ERROR_EXPRESSION(lg, e, ...) SHIM_LOG_EXPR_(40, lg, e, __VA_ARGS__)
#define RCLCPP_ERROR_FUNCTION(lg, f, ...) SHIM_LOG_EXPR_(40, lg, (f)(), __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(40, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_ERROR_SKIPFIRST_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(40, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM(lg, s) SHIM_LOG_STREAM_(40, lg, s)
#define RCLCPP_ERROR_STREAM_ONCE(lg, s) SHIM_LOG_STREAM_(40, lg, s)
#define RCLCPP_ERROR_STREAM_EXPRESSION(lg, e, s) do { if (e) SHIM_LOG_STREAM_(40, lg, s); } while (0)
#define RCLCPP_ERROR_STREAM_THROTTLE(lg, clk, ms, s) SHIM_LOG_STREAM_THROTTLE_(40, lg, clk, ms, s)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) SHIM_LOG_(40, rclcpp::Logger(name), __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) SHIM_LOG_(40, rclcpp::Logger("root"), __VA_ARGS__)
#define RCUTILS_LOG_ERROR_ONCE_NAMED(name, ...) SHIM_LOG_(40, rclcpp::Logger(name), __VA_ARGS__)
#define RCLCPP_FATAL(lg, ...) SHIM_LOG_(50, lg, __VA_ARGS__)
#define RCLCPP_FATAL_ONCE(lg, ...) SHIM_LOG_(50, lg, __VA_ARGS__)
#define RCLCPP_FATAL_SKIPFIRST(lg, ...) SHIM_LOG_(50, lg, __VA_ARGS__)
#define RCLCPP_FATAL_EXPRESSION(lg, e, ...) SHIM_LOG_EXPR_(50, lg, e, __VA_ARGS__)
#define RCLCPP_FATAL_FUNCTION(lg, f, ...) SHIM_LOG_EXPR_(50, lg, (f)(), __VA_ARGS__)
#define RCLCPP_FATAL_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(50, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_FATAL_SKIPFIRST_THROTTLE(lg, clk, ms, ...) SHIM_LOG_THROTTLE_(50, lg, clk, ms, __VA_ARGS__)
#define RCLCPP_FATAL_STREAM(lg, s) SHIM_LOG_STREAM_(50, lg, s)
#define RCLCPP_FATAL_STREAM_ONCE(lg, s) SHIM_LOG_STREAM_(50, lg, s)
#define RCLCPP_FATAL_STREAM_EXPRESSION(lg, e, s) do { if (e) SHIM_LOG_STREAM_(50, lg, s); } while (0)
#define RCLCPP_FATAL_STREAM_THROTTLE(lg, clk, ms, s) SHIM_LOG_STREAM_THROTTLE_(50, lg, clk, ms, s)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) SHIM_LOG_(50, rclcpp::Logger(name), __VA_ARGS__)
#define RCUTILS_LOG_FATAL(...) SHIM_LOG_(50, rclcpp::Logger("root"), __VA_ARGS__)
#define RCUTILS_LOG_FATAL_ONCE_NAMED(name, ...) SHIM_LOG_(50, rclcpp::Logger(name), __VA_ARGS__)
