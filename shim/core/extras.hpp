// Stand-ins for realtime_tools, pal_statistics, libstatistics_collector, pluginlib, diagnostic_updater.
#pragma once
#include "core/lifecycle.hpp"

namespace realtime_tools {
#ifdef __SANITIZE_THREAD__
#endif
class prio_inherit_mutex : public std::mutex { public: prio_inherit_mutex() = default; };
class prio_inherit_recursive_mutex : public std::recursive_mutex { public: prio_inherit_recursive_mutex() = default; };
inline bool has_realtime_kernel() { return false; }
inline std::function<bool(int)> & shim_sched_hook() { static std::function<bool(int)> f; return f; }
inline bool configure_sched_fifo(int p) { return shim_sched_hook() ? shim_sched_hook()(p) : true; }
inline std::pair<bool, std::string> lock_memory() { return {true, ""}; }
inline std::pair<bool, std::string> set_current_thread_affinity(const std::vector<int> &) { return {true, ""}; }
inline std::pair<bool, std::string> set_thread_affinity(int, const std::vector<int> &) { return {true, ""}; }

class AsyncSchedulingPolicy
{
public:
  enum Value : int8_t { UNKNOWN = -1, SYNCHRONIZED, DETACHED };
  AsyncSchedulingPolicy() = default;
  constexpr AsyncSchedulingPolicy(Value v) : v_(v) {}
  explicit AsyncSchedulingPolicy(const std::string & s) : v_(s == "synchronized" ? SYNCHRONIZED : s == "detached" ? DETACHED : UNKNOWN) {}
  operator Value() const { return v_; }
  constexpr bool operator==(AsyncSchedulingPolicy o) const { return v_ == o.v_; }
  constexpr bool operator!=(AsyncSchedulingPolicy o) const { return v_ != o.v_; }
  constexpr bool operator==(Value o) const { return v_ == o; }
  constexpr bool operator!=(Value o) const { return v_ != o; }
  std::string to_string() const { return v_ == SYNCHRONIZED ? "synchronized" : v_ == DETACHED ? "detached" : "unknown"; }
  AsyncSchedulingPolicy from_string(const std::string & s) { return AsyncSchedulingPolicy(s); }
private:
  Value v_ = UNKNOWN;
};
struct AsyncFunctionHandlerParams
{
  int thread_priority = 50;
  std::vector<int> cpu_affinity_cores;
  AsyncSchedulingPolicy scheduling_policy = AsyncSchedulingPolicy::SYNCHRONIZED;
  unsigned int exec_rate = 0;
  rclcpp::Clock::SharedPtr clock;
  rclcpp::Logger logger = rclcpp::get_logger("AsyncFunctionHandler");
  std::function<bool()> trigger_predicate = [] { return true; };
  bool wait_until_initial_trigger = true;
  bool print_warnings = true;
  bool validate() const
  {
    if (thread_priority < 0 || thread_priority > 99) return false;
    if (scheduling_policy == AsyncSchedulingPolicy::UNKNOWN) return false;
    if (scheduling_policy == AsyncSchedulingPolicy::DETACHED && (!clock || exec_rate == 0u)) return false;
    return true;
  }
  template <class N> void initialize(N & node, const std::string & prefix)
  {
    if (node->has_parameter(prefix + "thread_priority")) thread_priority = static_cast<int>(node->get_parameter(prefix + "thread_priority").as_int());
    if (node->has_parameter(prefix + "scheduling_policy")) scheduling_policy = AsyncSchedulingPolicy(node->get_parameter(prefix + "scheduling_policy").as_string());
    if (node->has_parameter(prefix + "execution_rate")) exec_rate = static_cast<unsigned>(node->get_parameter(prefix + "execution_rate").as_int());
    clock = node->get_clock();
    logger = node->get_logger();
  }
};
template <class T> class AsyncFunctionHandler
{
public:
  using Fn = std::function<T(const rclcpp::Time &, const rclcpp::Duration &)>;
  AsyncFunctionHandler() = default;
  ~AsyncFunctionHandler() { stop_thread(); }
  void init(Fn f, const AsyncFunctionHandlerParams & p)
  {
    if (!f) throw std::runtime_error("AsyncFunctionHandler: parsed function to call asynchronously is not valid!");
    if (thread_.joinable()) throw std::runtime_error("AsyncFunctionHandler: Cannot reinitialize while the thread is running. Please stop the async callback first!");
    if (!p.validate()) throw std::runtime_error("The AsyncFunctionHandlerParams are not valid!");
    fn_ = f; params_ = p;
  }
  void init(Fn f, int prio = 50) { AsyncFunctionHandlerParams p; p.thread_priority = prio; init(f, p); }
  void init(Fn f, std::function<bool()> pred, int prio = 50) { AsyncFunctionHandlerParams p; p.thread_priority = prio; p.trigger_predicate = pred; init(f, p); }
  const AsyncFunctionHandlerParams & get_params() const { return params_; }
  bool is_initialized() const { return static_cast<bool>(fn_); }
  bool is_running() const { return thread_.joinable(); }
  bool is_stopped() const { return stop_; }
  bool is_trigger_cycle_in_progress() const { return in_progress_; }
  std::thread & get_thread() { return thread_; }
  std::pair<bool, T> trigger_async_callback(const rclcpp::Time & t, const rclcpp::Duration & d)
  {
    if (!is_initialized()) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    { std::exception_ptr e; { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (l.owns_lock() && exc_) { e = exc_; exc_ = nullptr; } } if (e) std::rethrow_exception(e); }
    if (!is_running()) throw std::runtime_error("AsyncFunctionHandler: need to start the async callback thread first before triggering!");
    std::unique_lock<std::mutex> l(m_, std::try_to_lock);
    bool ok = false;
    if (params_.scheduling_policy == AsyncSchedulingPolicy::DETACHED) { if (l.owns_lock()) { time_ = t; period_ = d; in_progress_ = true; l.unlock(); cv_.notify_one(); } return {true, ret_.load()}; }
    if (l.owns_lock() && !in_progress_ && params_.trigger_predicate()) {
      in_progress_ = true; pause_ = false; time_ = t; period_ = d; ok = true;
      l.unlock();
      cv_.notify_one();
    }
    return {ok, ret_.load()};
  }
  T get_last_return_value() const { return ret_; }
  const rclcpp::Time & get_current_callback_time() const { return time_; }
  const rclcpp::Duration & get_current_callback_period() const { return period_; }
  std::chrono::nanoseconds get_last_execution_time() const { return exec_.load(); }
  double get_async_execution_frequency() const { return 0.0; }
  void reset_variables()
  {
    std::unique_lock<std::mutex> l(m_);
    stop_ = false; in_progress_ = false; pause_ = false; exec_ = std::chrono::nanoseconds(0); time_ = rclcpp::Time(0, 0, RCL_CLOCK_UNINITIALIZED); period_ = rclcpp::Duration(0, 0); ret_ = T(); exc_ = nullptr;
  }
  void wait_for_trigger_cycle_to_finish() { if (is_running()) { std::unique_lock<std::mutex> l(m_); cv_end_.wait(l, [this] { return !in_progress_; }); } }
  bool pause_execution() { if (is_running() && params_.scheduling_policy != AsyncSchedulingPolicy::DETACHED) { wait_for_trigger_cycle_to_finish(); return true; } return is_running(); }
  void join_async_callback_thread() { if (thread_.joinable()) thread_.join(); }
  void stop_thread()
  {
    if (is_running()) {
      { std::unique_lock<std::mutex> l(m_); stop_ = true; in_progress_ = false; }
      cv_.notify_one();
      join_async_callback_thread();
    }
  }
  void start_thread()
  {
    if (!is_initialized()) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (thread_.joinable()) return;
    reset_variables();
    thread_ = std::thread([this] {
      for (;;) {
        { std::unique_lock<std::mutex> l(m_);
          cv_.wait(l, [this] { return in_progress_ || stop_; });
          if (stop_) break;
        }
        const rclcpp::Time t = time_; const rclcpp::Duration d = period_;
        const auto a = std::chrono::steady_clock::now();
        try { ret_ = fn_(t, d); } catch (...) { std::unique_lock<std::mutex> l(m_); exc_ = std::current_exception(); }
        exec_ = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - a);
        { std::unique_lock<std::mutex> l(m_); in_progress_ = false; }
        cv_end_.notify_all();
      }
      cv_end_.notify_all();
    });
  }
private:
  Fn fn_;
  AsyncFunctionHandlerParams params_;
  rclcpp::Time time_{0, 0, RCL_CLOCK_UNINITIALIZED};
  rclcpp::Duration period_{0, 0};
  std::thread thread_;
  std::mutex m_;
  std::condition_variable cv_, cv_end_;
  std::atomic<bool> stop_{false}, pause_{false}, in_progress_{false};
  std::atomic<T> ret_{T()};
  std::atomic<std::chrono::nanoseconds> exec_{std::chrono::nanoseconds(0)};
  std::exception_ptr exc_;
};
template <class T> class RealtimeBuffer
{
public:
  RealtimeBuffer() = default;
  explicit RealtimeBuffer(const T & v) : nrt_(v), rt_(v) {}
  T * readFromRT() { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (l.owns_lock() && new_) { rt_ = nrt_; new_ = false; } return &rt_; }
  T * readFromNonRT() const { std::lock_guard<std::mutex> l(m_); return new_ ? &nrt_ : &rt_; }
  void writeFromNonRT(const T & v) { std::lock_guard<std::mutex> l(m_); nrt_ = v; new_ = true; }
  void initRT(const T & v) { nrt_ = v; rt_ = v; }
  void reset() { nrt_ = T(); rt_ = T(); }
private:
  mutable T nrt_{};
  mutable T rt_{};
  bool new_ = false;
  mutable std::mutex m_;
};
template <class T> class RealtimeThreadSafeBox
{
public:
  RealtimeThreadSafeBox() = default;
  explicit RealtimeThreadSafeBox(const T & v) : v_(v) {}
  void set(const T & v) { std::lock_guard<std::mutex> l(m_); v_ = v; }
  bool try_set(const T & v) { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (!l.owns_lock()) return false; v_ = v; return true; }
  T get() const { std::lock_guard<std::mutex> l(m_); return v_; }
  void get(T & o) const { std::lock_guard<std::mutex> l(m_); o = v_; }
  std::optional<T> try_get() const { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (!l.owns_lock()) return std::nullopt; return v_; }
  void set(const std::function<void(T &)> & f) { std::lock_guard<std::mutex> l(m_); f(v_); }
  void get(const std::function<void(const T &)> & f) const { std::lock_guard<std::mutex> l(m_); f(v_); }
private:
  T v_{};
  mutable std::mutex m_;
};
template <class T> using RealtimeBox = RealtimeThreadSafeBox<T>;
template <class M> class RealtimePublisher
{
public:
  using SharedPtr = std::shared_ptr<RealtimePublisher<M>>;
  M msg_;
  explicit RealtimePublisher(typename rclcpp::Publisher<M>::SharedPtr p) : p_(p) {}
  bool trylock() { return m_.try_lock(); }
  bool try_publish(const M & m) { p_->publish(m); return true; }
  bool tryPublish(const M & m) { return try_publish(m); }
  void unlockAndPublish() { p_->publish(msg_); m_.unlock(); }
  void unlock() { m_.unlock(); }
private:
  typename rclcpp::Publisher<M>::SharedPtr p_;
  std::mutex m_;
};
}  // namespace realtime_tools

namespace libstatistics_collector { namespace moving_average_statistics {
struct StatisticData { double average = std::nan(""), min = std::nan(""), max = std::nan(""), standard_deviation = std::nan(""); uint64_t sample_count = 0; };
} }

namespace pal_statistics {
using IdType = unsigned int;
class RegistrationsRAII;
// Keeps what is registered; sample_all() reads every enabled variable (as the publisher does), so that a registration
// outliving its variable is seen by AddressSanitizer.
class StatisticsRegistry : public std::enable_shared_from_this<StatisticsRegistry>
{
public:
  struct Var { std::string name; std::function<double()> f; bool enabled; };
  template <class T> IdType registerVariable(const std::string & n, const T * v, RegistrationsRAII * b = nullptr, bool en = true)
  { return registerFunction(n, [v] { return static_cast<double>(*v); }, b, en); }
  IdType registerFunction(const std::string & n, const std::function<double()> & f, RegistrationsRAII * b = nullptr, bool en = true);
  void unregisterVariable(const std::string & n, RegistrationsRAII * b = nullptr) { (void)b; std::lock_guard<std::mutex> l(m_); for (auto i = vars_.begin(); i != vars_.end();) if (i->second.name == n) i = vars_.erase(i); else ++i; }
  void unregisterId(IdType id) { std::lock_guard<std::mutex> l(m_); vars_.erase(id); }
  void set(IdType id, bool en) { std::lock_guard<std::mutex> l(m_); auto i = vars_.find(id); if (i != vars_.end()) i->second.enabled = en; }
  size_t sample_all() { std::lock_guard<std::mutex> l(m_); size_t c = 0; for (auto & v : vars_) if (v.second.enabled) { volatile double d = v.second.f(); (void)d; ++c; } return c; }
  size_t size() { std::lock_guard<std::mutex> l(m_); return vars_.size(); }
  struct Seen { std::string name; bool enabled; double value; };
  std::vector<Seen> snapshot() { std::lock_guard<std::mutex> l(m_); std::vector<Seen> r; for (auto & v : vars_) r.push_back({v.second.name, v.second.enabled, v.second.f()}); return r; }
  std::vector<std::string> names() { std::lock_guard<std::mutex> l(m_); std::vector<std::string> r; for (auto & v : vars_) r.push_back(v.second.name); return r; }
private:
  std::mutex m_;
  IdType next_ = 1;
  std::map<IdType, Var> vars_;
};
class RegistrationsRAII
{
public:
  RegistrationsRAII() = default;
  RegistrationsRAII(const RegistrationsRAII &) = delete;
  RegistrationsRAII & operator=(const RegistrationsRAII &) = delete;
  ~RegistrationsRAII() { for (auto & r : regs_) if (auto p = r.first.lock()) p->unregisterId(r.second); }
  void add(std::shared_ptr<StatisticsRegistry> r, IdType id) { std::lock_guard<std::mutex> l(m_); regs_.emplace_back(r, id); }
  bool enableAll() { return setAll(true); }
  bool disableAll() { return setAll(false); }
private:
  bool setAll(bool e) { std::lock_guard<std::mutex> l(m_); for (auto & r : regs_) if (auto p = r.first.lock()) p->set(r.second, e); return true; }
  std::mutex m_;
  std::vector<std::pair<std::weak_ptr<StatisticsRegistry>, IdType>> regs_;
};
inline IdType StatisticsRegistry::registerFunction(const std::string & n, const std::function<double()> & f, RegistrationsRAII * b, bool en)
{ IdType id; { std::lock_guard<std::mutex> l(m_); id = next_++; vars_[id] = Var{n, f, en}; } if (b) b->add(shared_from_this(), id); return id; }

template <class T> inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const T * v, RegistrationsRAII * b = nullptr, bool en = true) { return r.registerVariable(n, v, b, en); }
template <class T> inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const T & v, RegistrationsRAII * b = nullptr, bool en = true)
{
  if constexpr (std::is_invocable_v<T>) return r.registerFunction(n, [v] { return static_cast<double>(v()); }, b, en);
  else if constexpr (std::is_pointer_v<T>) return customRegister(r, n, static_cast<const std::remove_pointer_t<T> *>(v), b, en);
  else return 0;
}
inline std::mutex & shim_registries_mutex() { static auto * m = new std::mutex(); return *m; }
inline std::map<std::string, std::shared_ptr<StatisticsRegistry>> & shim_registries() { static auto * r = new std::map<std::string, std::shared_ptr<StatisticsRegistry>>(); return *r; }
inline std::shared_ptr<StatisticsRegistry> getRegistry(const std::string & key)
{
  std::lock_guard<std::mutex> l(shim_registries_mutex());
  auto & p = shim_registries()[key]; if (!p) p = std::make_shared<StatisticsRegistry>(); return p;
}
inline void clearAllRegistries() { std::lock_guard<std::mutex> l(shim_registries_mutex()); shim_registries().clear(); }
namespace detail {
template <class T> IdType reg(const std::string & key, const std::string & n, const T & v, RegistrationsRAII * b = nullptr, bool en = true)
{
  auto r = getRegistry(key);
  if constexpr (std::is_pointer_v<T> && !std::is_function_v<std::remove_pointer_t<T>>) return customRegister(*r, n, static_cast<const std::remove_const_t<std::remove_pointer_t<T>> *>(v), b, en);
  else return customRegister(*r, n, v, b, en);
}
inline bool & sampling() { static bool s = true; return s; }
inline void publish(const std::string & key) { if (sampling()) getRegistry(key)->sample_all(); }
}
}  // namespace pal_statistics
#define REGISTER_ENTITY(key, name, ...) pal_statistics::detail::reg(key, name, __VA_ARGS__)
#define REGISTER_VARIABLE(key, name, ...) pal_statistics::detail::reg(key, name, __VA_ARGS__)
#define UNREGISTER_ENTITY(key, name) pal_statistics::getRegistry(key)->unregisterVariable(name)
#define UNREGISTER_VARIABLE(key, name) UNREGISTER_ENTITY(key, name)
#define INITIALIZE_REGISTRY(node, topic, key) ((void)(node), (void)(topic), pal_statistics::getRegistry(key))
#define START_PUBLISH_THREAD(key) ((void)(key))
#define PUBLISH_ASYNC_STATISTICS(key) pal_statistics::detail::publish(key)
#define PUBLISH_STATISTICS(key) pal_statistics::detail::publish(key)
#define CLEAR_ALL_REGISTRIES() pal_statistics::clearAllRegistries()

#include "pluginlib/shim_names.hpp"
namespace pluginlib {
struct PluginlibException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LibraryLoadException : PluginlibException { using PluginlibException::PluginlibException; };
struct ClassLoaderException : PluginlibException { using PluginlibException::PluginlibException; };
struct LibraryUnloadException : PluginlibException { using PluginlibException::PluginlibException; };
struct CreateClassException : PluginlibException { using PluginlibException::PluginlibException; };
template <class B> using UniquePtr = std::unique_ptr<B>;
template <class B> std::map<std::string, std::function<B *()>> & shim_registry() { static std::map<std::string, std::function<B *()>> m; return m; }
template <class B> struct ShimRegister { ShimRegister(const std::string & n, std::function<B *()> f) { shim_registry<B>()[n] = f; } };
inline std::atomic<int> & shim_live_loaders() { static std::atomic<int> n{0}; return n; }
template <class B> class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string & base, const std::string & = "plugin", const std::vector<std::string> & = {}) : base_(base) {}
  std::vector<std::string> getDeclaredClasses()
  {
    std::set<std::string> r;
    for (auto & kv : shim_registry<B>())
    {
      bool named = false;
      for (auto & p : shim_plugin_names()) if (p.second == kv.first) { r.insert(p.first); named = true; }
      if (!named) r.insert(kv.first);
    }
    return {r.begin(), r.end()};
  }
  bool isClassAvailable(const std::string & n) { return find(n) != shim_registry<B>().end(); }
  std::string getClassType(const std::string & n) { return n; }
  std::string getBaseClassType() const { return base_; }
  std::string getName(const std::string & n) { return n; }
  B * createUnmanagedInstance(const std::string & n) { auto i = find(n); if (i == shim_registry<B>().end()) throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " with base class type " + base_ + " does not exist."); return i->second(); }
  std::shared_ptr<B> createSharedInstance(const std::string & n) { return std::shared_ptr<B>(createUnmanagedInstance(n)); }
  std::unique_ptr<B> createUniqueInstance(const std::string & n) { return std::unique_ptr<B>(createUnmanagedInstance(n)); }
private:
  auto find(const std::string & n)
  {
    auto & reg = shim_registry<B>();
    auto i = reg.find(n);
    if (i == reg.end())
    {
      auto j = shim_plugin_names().find(n);
      if (j != shim_plugin_names().end()) i = reg.find(j->second);
    }
    return i;
  }
  std::string base_;
};
}  // namespace pluginlib
#define SHIM_CAT2(a, b) a##b
#define SHIM_CAT(a, b) SHIM_CAT2(a, b)
#define SHIM_PLUGIN_(D, B, id) namespace { pluginlib::ShimRegister<B> SHIM_CAT(shim_plugin_, id)(#D, [] { return new D(); }); }
#define PLUGINLIB_EXPORT_CLASS(D, B) SHIM_PLUGIN_(D, B, __COUNTER__)

namespace diagnostic_msgs { namespace msg {
struct KeyValue { std::string key, value; };
struct DiagnosticStatus { static constexpr uint8_t OK = 0, WARN = 1, ERROR = 2, STALE = 3; uint8_t level = 0; std::string name, message, hardware_id; std::vector<KeyValue> values; };
struct DiagnosticArray { std::vector<DiagnosticStatus> status; };
} }
namespace diagnostic_updater {
class DiagnosticStatusWrapper : public diagnostic_msgs::msg::DiagnosticStatus
{
public:
  void summary(uint8_t l, const std::string & s) { level = l; message = s; }
  void summary(const diagnostic_msgs::msg::DiagnosticStatus & s) { summary(s.level, s.message); }
  void clearSummary() { summary(0, ""); }
  void mergeSummary(uint8_t l, const std::string & s)
  {
    if ((l > 0) && (level > 0)) { if (!message.empty()) message += "; "; message += s; }
    else if (l > level) message = s;
    if (l > level) level = l;
  }
  void mergeSummary(const diagnostic_msgs::msg::DiagnosticStatus & s) { mergeSummary(s.level, s.message); }
  __attribute__((format(printf, 3, 4))) void summaryf(uint8_t l, const char * f, ...) { char b[1000]; va_list v; va_start(v, f); vsnprintf(b, 1000, f, v); va_end(v); summary(l, b); }
  __attribute__((format(printf, 3, 4))) void mergeSummaryf(uint8_t l, const char * f, ...) { char b[1000]; va_list v; va_start(v, f); vsnprintf(b, 1000, f, v); va_end(v); mergeSummary(l, b); }
  template <class T> void add(const std::string & k, const T & v) { std::stringstream ss; ss << v; values.push_back({k, ss.str()}); }
  void add(const std::string & k, const bool & b) { values.push_back({k, b ? "True" : "False"}); }
  void clear() { values.clear(); }
};
using TaskFunction = std::function<void(DiagnosticStatusWrapper &)>;
class Updater
{
public:
  template <class N> explicit Updater(N, double = 1.0) {}
  void setHardwareID(const std::string & s) { id_ = s; }
  void add(const std::string & n, TaskFunction f) { tasks_.emplace_back(n, f); registry()[this] = this; }
  template <class T> void add(const std::string & n, T * c, void (T::*f)(DiagnosticStatusWrapper &)) { add(n, [c, f](DiagnosticStatusWrapper & s) { (c->*f)(s); }); }
  ~Updater() { registry().erase(this); }
  Updater(const Updater &) = delete;
  void force_update() {}
  // harness access: run every task as the periodic timer would
  std::vector<DiagnosticStatusWrapper> run() { std::vector<DiagnosticStatusWrapper> r; for (auto & t : tasks_) { DiagnosticStatusWrapper s; s.level = 2; s.message = "No message was set"; s.name = t.first; s.hardware_id = id_; try { t.second(s); } catch (const std::exception & e) { s.level = 2; s.message = std::string("Uncaught exception: ") + e.what(); } r.push_back(s); } return r; }
  static std::map<Updater *, Updater *> & registry() { static std::map<Updater *, Updater *> m; return m; }
private:
  std::string id_;
  std::vector<std::pair<std::string, TaskFunction>> tasks_;
};
}  // namespace diagnostic_updater
