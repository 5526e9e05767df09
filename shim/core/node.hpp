// Stand-in for rclcpp::Node and friends. No middleware: services, timers and subscriptions are called by the harness.
#pragma once
#include <future>
#include <array>
#include <deque>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <queue>
#include <regex>
#include <tuple>
#include "core/params.hpp"
#define RMW_QOS_POLICY_HISTORY_KEEP_ALL rclcpp::shim_keep_all
#define RMW_QOS_POLICY_HISTORY_KEEP_LAST rclcpp::shim_keep_last
namespace rclcpp {
enum ShimHistory { shim_keep_last, shim_keep_all };
struct QoSInitialization { ShimHistory h; size_t depth; QoSInitialization(ShimHistory hh, size_t d, bool = false) : h(hh), depth(d) {} static QoSInitialization from_rmw(int) { return {shim_keep_last, 1}; } };
struct KeepAll : QoSInitialization { KeepAll() : QoSInitialization(shim_keep_all, 0) {} };
struct KeepLast : QoSInitialization { explicit KeepLast(size_t d) : QoSInitialization(shim_keep_last, d) {} };
struct QoS { QoS(const QoSInitialization &) {} QoS(size_t) {} QoS & reliable() { return *this; } QoS & best_effort() { return *this; } QoS & transient_local() { return *this; } QoS & durability_volatile() { return *this; } QoS & keep_all() { return *this; } QoS & keep_last(size_t) { return *this; } };
struct SystemDefaultsQoS : QoS { SystemDefaultsQoS() : QoS(1) {} };
struct SensorDataQoS : QoS { SensorDataQoS() : QoS(5) {} };
struct ServicesQoS : QoS { ServicesQoS() : QoS(10) {} };
struct ParametersQoS : QoS { ParametersQoS() : QoS(10) {} };

enum class CallbackGroupType { MutuallyExclusive, Reentrant };
struct CallbackGroup { using SharedPtr = std::shared_ptr<CallbackGroup>; using WeakPtr = std::weak_ptr<CallbackGroup>; CallbackGroupType type; explicit CallbackGroup(CallbackGroupType t) : type(t) {} };

struct PreShutdownCallbackHandle { using Fn = std::function<void()>; std::weak_ptr<Fn> callback; };
struct OnShutdownCallbackHandle { using Fn = std::function<void()>; std::weak_ptr<Fn> callback; };
class Context
{
public:
  using SharedPtr = std::shared_ptr<Context>;
  PreShutdownCallbackHandle add_pre_shutdown_callback(PreShutdownCallbackHandle::Fn f)
  { std::lock_guard<std::mutex> l(m_); auto p = std::make_shared<PreShutdownCallbackHandle::Fn>(f); cbs_.push_back(p); return {p}; }
  bool remove_pre_shutdown_callback(const PreShutdownCallbackHandle & h)
  { std::lock_guard<std::mutex> l(m_); auto p = h.callback.lock(); for (auto i = cbs_.begin(); i != cbs_.end(); ++i) if (*i == p) { cbs_.erase(i); return true; } return false; }
  OnShutdownCallbackHandle add_on_shutdown_callback(OnShutdownCallbackHandle::Fn f) { auto p = std::make_shared<OnShutdownCallbackHandle::Fn>(f); on_.push_back(p); return {p}; }
  bool is_valid() const { return valid_; }
  bool shutdown(const std::string &) { run_pre_shutdown(); valid_ = false; return true; }
  void run_pre_shutdown()
  { std::vector<std::shared_ptr<PreShutdownCallbackHandle::Fn>> c; { std::lock_guard<std::mutex> l(m_); c = cbs_; } for (auto & f : c) (*f)(); }
  size_t pre_shutdown_count() { std::lock_guard<std::mutex> l(m_); return cbs_.size(); }
  std::atomic<bool> valid_{true};
private:
  std::mutex m_;
  std::vector<std::shared_ptr<PreShutdownCallbackHandle::Fn>> cbs_;
  std::vector<std::shared_ptr<OnShutdownCallbackHandle::Fn>> on_;
};
namespace contexts { inline Context::SharedPtr get_global_default_context() { static auto c = std::make_shared<Context>(); return c; } }
}
namespace shim { inline std::atomic<bool> & ok_flag() { static std::atomic<bool> f{true}; return f; } inline std::atomic<int> & shutdown_calls() { static std::atomic<int> f{0}; return f; } }
namespace rclcpp {
inline bool ok(Context::SharedPtr = nullptr) { return shim::ok_flag().load(); }
inline void init(int, char const * const *) {}
inline bool shutdown(Context::SharedPtr = nullptr, const std::string & = "") { shim::shutdown_calls()++; return true; }
struct InitOptions {};

class NodeOptions
{
public:
  NodeOptions() = default;
  const std::vector<std::string> & arguments() const { return args_; }
  NodeOptions & arguments(const std::vector<std::string> & a) { args_ = a; return *this; }
  std::vector<Parameter> & parameter_overrides() { return ov_; }
  const std::vector<Parameter> & parameter_overrides() const { return ov_; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { ov_ = p; return *this; }
  template <class T> NodeOptions & append_parameter_override(const std::string & n, const T & v) { ov_.emplace_back(n, ParameterValue(v)); return *this; }
#define SHIM_OPT(n, d) bool n() const { return n##_; } NodeOptions & n(bool v) { n##_ = v; return *this; } bool n##_ = d;
  SHIM_OPT(use_global_arguments, true) SHIM_OPT(enable_rosout, true) SHIM_OPT(use_intra_process_comms, false) SHIM_OPT(enable_topic_statistics, false)
  SHIM_OPT(start_parameter_services, true) SHIM_OPT(start_parameter_event_publisher, true) SHIM_OPT(use_clock_thread, true) SHIM_OPT(enable_logger_service, false)
  SHIM_OPT(allow_undeclared_parameters, false) SHIM_OPT(automatically_declare_parameters_from_overrides, false)
#undef SHIM_OPT
  Context::SharedPtr context() const { return contexts::get_global_default_context(); }
  NodeOptions & context(Context::SharedPtr) { return *this; }
private:
  std::vector<std::string> args_;
  std::vector<Parameter> ov_;
};

namespace node_interfaces {
struct NodeBaseInterface
{
  using SharedPtr = std::shared_ptr<NodeBaseInterface>;
  using WeakPtr = std::weak_ptr<NodeBaseInterface>;
  std::string name, ns;
  Context::SharedPtr ctx = contexts::get_global_default_context();
  std::atomic_bool associated{false};
  const char * get_name() const { return name.c_str(); }
  const char * get_namespace() const { return ns.c_str(); }
  std::string get_fqn() const { return ns == "/" ? "/" + name : ns + "/" + name; }
  const char * get_fully_qualified_name() const { fqn_ = get_fqn(); return fqn_.c_str(); }
  Context::SharedPtr get_context() { return ctx; }
  std::atomic_bool & get_associated_with_executor_atomic() { return associated; }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool = true) { return std::make_shared<CallbackGroup>(t); }
private:
  mutable std::string fqn_;
};
struct NodeLoggingInterface { using SharedPtr = std::shared_ptr<NodeLoggingInterface>; Logger logger; Logger get_logger() const { return logger; } const char * get_logger_name() const { return logger.get_name(); } };
struct NodeClockInterface { using SharedPtr = std::shared_ptr<NodeClockInterface>; Clock::SharedPtr clock = std::make_shared<Clock>(RCL_ROS_TIME); Clock::SharedPtr get_clock() { return clock; } };
struct NodeTopicsInterface { using SharedPtr = std::shared_ptr<NodeTopicsInterface>; };
struct NodeServicesInterface { using SharedPtr = std::shared_ptr<NodeServicesInterface>; };
struct NodeTimersInterface { using SharedPtr = std::shared_ptr<NodeTimersInterface>; };
struct NodeGraphInterface { using SharedPtr = std::shared_ptr<NodeGraphInterface>; };
struct NodeWaitablesInterface { using SharedPtr = std::shared_ptr<NodeWaitablesInterface>; };
}  // namespace node_interfaces

class PublisherBase { public: using SharedPtr = std::shared_ptr<PublisherBase>; virtual ~PublisherBase() = default; std::string topic; const char * get_topic_name() const { return topic.c_str(); } size_t get_subscription_count() const { return 1; } };
template <class M, class A = void> class Publisher : public PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  using ConstSharedPtr = std::shared_ptr<const Publisher<M>>;
  void publish(const M & m) { std::lock_guard<std::mutex> l(m_); last_ = std::make_shared<M>(m); ++count_; }
  void publish(std::unique_ptr<M> m) { publish(*m); }
  std::shared_ptr<M> last() { std::lock_guard<std::mutex> l(m_); return last_; }
  size_t count() { std::lock_guard<std::mutex> l(m_); return count_; }
private:
  std::mutex m_;
  std::shared_ptr<M> last_;
  size_t count_ = 0;
};
class SubscriptionBase { public: using SharedPtr = std::shared_ptr<SubscriptionBase>; virtual ~SubscriptionBase() = default; std::string topic; const char * get_topic_name() const { return topic.c_str(); } };
template <class M> class Subscription : public SubscriptionBase
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
  std::function<void(std::shared_ptr<M>)> cb;
  template <class F> void set(F f)
  {
    if constexpr (std::is_invocable_v<F, std::shared_ptr<M>>) cb = [f](std::shared_ptr<M> m) { f(m); };
    else cb = [f](std::shared_ptr<M> m) { f(*m); };
  }
};
class ServiceBase { public: using SharedPtr = std::shared_ptr<ServiceBase>; virtual ~ServiceBase() = default; std::string name; const char * get_service_name() const { return name.c_str(); } };
template <class S> class Service : public ServiceBase
{
public:
  using SharedPtr = std::shared_ptr<Service<S>>;
  std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)> cb;
  typename S::Response call(const typename S::Request & r) { auto q = std::make_shared<typename S::Request>(r); auto p = std::make_shared<typename S::Response>(); cb(q, p); return *p; }
};
class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  std::function<void()> cb;
  std::chrono::nanoseconds period{0};
  std::atomic<bool> canceled{false};
  void cancel() { canceled = true; }
  bool is_canceled() { return canceled; }
  void reset() { canceled = false; }
  void fire() { if (!canceled) cb(); }
};
using WallTimer_ = TimerBase;

enum class FutureReturnCode { SUCCESS, INTERRUPTED, TIMEOUT };
template <class S> class Client
{
public:
  using SharedPtr = std::shared_ptr<Client>;
  using SharedFuture = std::shared_future<std::shared_ptr<typename S::Response>>;
  template <class D> bool wait_for_service(D) { return true; }
  SharedFuture async_send_request(std::shared_ptr<typename S::Request> r) { return std::async(std::launch::async, [c = call, r] { return c(r); }).share(); }
  std::function<std::shared_ptr<typename S::Response>(std::shared_ptr<typename S::Request>)> call;
};
class Executor
{
public:
  using SharedPtr = std::shared_ptr<Executor>;
  using WeakPtr = std::weak_ptr<Executor>;
  virtual ~Executor() = default;
  void add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true)
  {
    std::lock_guard<std::mutex> l(m_);
    if (n->associated.exchange(true)) throw std::runtime_error("Node '" + n->get_fqn() + "' has already been added to an executor.");
    nodes_.push_back(n);
  }
  template <class N> void add_node(std::shared_ptr<N> n, bool b = true) { add_node(n->get_node_base_interface(), b); }
  void remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true)
  {
    std::lock_guard<std::mutex> l(m_);
    if (!n->associated.load()) throw std::runtime_error("Node '" + n->get_fqn() + "' needs to be associated with an executor.");
    for (auto i = nodes_.begin(); i != nodes_.end(); ++i) if (i->lock() == n) { nodes_.erase(i); n->associated = false; return; }
    throw std::runtime_error("Node '" + n->get_fqn() + "' needs to be associated with this executor.");
  }
  template <class N> void remove_node(std::shared_ptr<N> n, bool b = true) { remove_node(n->get_node_base_interface(), b); }
  virtual void spin() { while (!cancel_.load() && rclcpp::ok()) std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  void spin_some(std::chrono::nanoseconds = std::chrono::nanoseconds(0)) {}
  void cancel() { cancel_ = true; }
  template <class F> FutureReturnCode spin_until_future_complete(F & f, std::chrono::nanoseconds t = std::chrono::nanoseconds(-1))
  {
    if (t.count() < 0) { f.wait(); return FutureReturnCode::SUCCESS; }
    return f.wait_for(t) == std::future_status::ready ? FutureReturnCode::SUCCESS : FutureReturnCode::TIMEOUT;
  }
  bool is_spinning() { return true; }
  std::vector<std::string> node_names() { std::lock_guard<std::mutex> l(m_); std::vector<std::string> r; for (auto & w : nodes_) if (auto n = w.lock()) r.push_back(n->name); return r; }
private:
  std::mutex m_;
  std::vector<std::weak_ptr<node_interfaces::NodeBaseInterface>> nodes_;
  std::atomic<bool> cancel_{false};
};
namespace executors { using SingleThreadedExecutor = Executor; using MultiThreadedExecutor = Executor; }
}  // namespace rclcpp

namespace shim {
// parameters injected into nodes by name (what a parameter file would do); set before nodes are created
inline std::map<std::string, std::vector<rclcpp::Parameter>> & node_overrides() { static std::map<std::string, std::vector<rclcpp::Parameter>> m; return m; }
// reads a parameter file named in node arguments (only set where a YAML reader is linked in)
inline std::function<std::vector<rclcpp::Parameter>(const std::string & file, const std::string & node, const std::string & ns)> & params_file_loader() { static std::function<std::vector<rclcpp::Parameter>(const std::string &, const std::string &, const std::string &)> f; return f; }
inline std::mutex & node_overrides_mutex() { static std::mutex m; return m; }
inline std::map<std::string, rclcpp::NodeOptions> & node_options_seen() { static std::map<std::string, rclcpp::NodeOptions> m; return m; }
}

namespace rclcpp {
// Everything Node and LifecycleNode share.
class NodeCore;
}
namespace shim {
// nodes alive, by name (the last one created with that name)
inline std::map<std::string, rclcpp::NodeCore *> & live_nodes() { static auto * m = new std::map<std::string, rclcpp::NodeCore *>(); return *m; }
inline std::mutex & live_nodes_mutex() { static auto * m = new std::mutex(); return *m; }
}
namespace rclcpp {
class NodeCore
{
public:
  ~NodeCore() { std::lock_guard<std::mutex> l(shim::live_nodes_mutex()); auto & m = shim::live_nodes(); auto i = m.find(base_->name); if (i != m.end() && i->second == this) m.erase(i); }
  NodeCore(const NodeCore &) = delete;
  NodeCore(const std::string & name, const std::string & ns, const NodeOptions & o, bool)
  : options_(o)
  {
    if (name.empty()) throw exceptions::InvalidNodeNameError("Invalid node name: node name must not be empty");
    for (char c : name) if (!(isalnum(static_cast<unsigned char>(c)) || c == '_')) throw exceptions::InvalidNodeNameError("Invalid node name: node name must not contain characters other than alphanumerics or '_': " + name);
    if (isdigit(static_cast<unsigned char>(name[0]))) throw exceptions::InvalidNodeNameError("Invalid node name: node name must not start with a number: " + name);
    base_->name = name;
    base_->ns = ns.empty() ? "/" : (ns[0] == '/' ? ns : "/" + ns);
    logging_->logger = Logger((base_->ns == "/" ? "" : base_->ns.substr(1) + ".") + name);
    params_->allow_undeclared = o.allow_undeclared_parameters();
    for (auto & p : o.parameter_overrides()) params_->overrides[p.get_name()] = p.get_parameter_value();
    {
      std::lock_guard<std::mutex> l(shim::node_overrides_mutex());
      auto & m = shim::node_overrides();
      auto i = m.find(name);
      if (i != m.end()) for (auto & p : i->second) params_->overrides[p.get_name()] = p.get_parameter_value();
      shim::node_options_seen()[name] = o;
    }
    const auto & a = o.arguments();
    for (size_t i = 0; i + 1 < a.size(); ++i)
      if (a[i] == "--params-file" && shim::params_file_loader()) {
        for (auto & p : shim::params_file_loader()(a[i + 1], name, base_->ns)) params_->overrides[p.get_name()] = p.get_parameter_value();
      }
      else if (a[i] == "-p" || a[i] == "--param") {
        auto pos = a[i + 1].find(":=");
        if (pos == std::string::npos) continue;
        std::string k = a[i + 1].substr(0, pos), v = a[i + 1].substr(pos + 2);
        if (v == "true" || v == "false") params_->overrides[k] = ParameterValue(v == "true");
        else params_->overrides[k] = ParameterValue(v);
      }
    if (o.automatically_declare_parameters_from_overrides())
      for (auto & kv : std::map<std::string, ParameterValue>(params_->overrides)) params_->declare_parameter(kv.first, kv.second, {}, true);
    if (!params_->has_parameter("use_sim_time")) params_->declare_parameter("use_sim_time", ParameterValue(false));
    { std::lock_guard<std::mutex> l(shim::live_nodes_mutex()); shim::live_nodes()[name] = this; }
  }
  const char * get_name() const { return base_->name.c_str(); }
  const char * get_namespace() const { return base_->ns.c_str(); }
  const char * get_effective_namespace() const { return base_->ns.c_str(); }
  std::string get_fully_qualified_name_() const { return base_->get_fqn(); }
  const char * get_fully_qualified_name() const { return base_->get_fully_qualified_name(); }
  Logger get_logger() const { return logging_->logger; }
  Clock::SharedPtr get_clock() { return clock_->clock; }
  Clock::ConstSharedPtr get_clock() const { return clock_->clock; }
  Time now() const { return clock_->clock->now(); }
  const NodeOptions & get_node_options() const { return options_; }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() { return base_; }
  node_interfaces::NodeLoggingInterface::SharedPtr get_node_logging_interface() { return logging_; }
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() { return params_; }
  node_interfaces::NodeClockInterface::SharedPtr get_node_clock_interface() { return clock_; }
  node_interfaces::NodeTopicsInterface::SharedPtr get_node_topics_interface() { return std::make_shared<node_interfaces::NodeTopicsInterface>(); }
  node_interfaces::NodeServicesInterface::SharedPtr get_node_services_interface() { return std::make_shared<node_interfaces::NodeServicesInterface>(); }
  node_interfaces::NodeTimersInterface::SharedPtr get_node_timers_interface() { return std::make_shared<node_interfaces::NodeTimersInterface>(); }

  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & v, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool io = false) { return params_->declare_parameter(n, v, d, io); }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool io = false) { return params_->declare_parameter(n, t, d, io); }
  template <class T> auto declare_parameter(const std::string & n, const T & v, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool io = false) -> std::enable_if_t<!std::is_same_v<T, ParameterValue> && !std::is_same_v<T, ParameterType>, decltype(ParameterValue(v), T())>
  { return params_->declare_parameter(n, ParameterValue(v), d, io).template get<T>(); }
  std::string declare_parameter(const std::string & n, const char * v) { return declare_parameter<std::string>(n, std::string(v)); }
  template <class T> T declare_parameter(const std::string & n)
  { return params_->declare_parameter(n, ParameterValue(T{}).get_type()).template get<T>(); }
  void undeclare_parameter(const std::string & n) { params_->undeclare_parameter(n); }
  bool has_parameter(const std::string & n) const { return params_->has_parameter(n); }
  Parameter get_parameter(const std::string & n) const { return params_->get_parameter(n); }
  bool get_parameter(const std::string & n, Parameter & p) const { return params_->get_parameter(n, p); }
  template <class T> bool get_parameter(const std::string & n, T & v) const
  { Parameter p; if (!params_->get_parameter(n, p)) return false; v = p.get_value<T>(); return true; }
  template <class T> bool get_parameter_or(const std::string & n, T & v, const T & d) const { if (get_parameter(n, v)) return true; v = d; return false; }
  template <class T> T get_parameter_or(const std::string & n, const T & d) const { T v{}; get_parameter_or(n, v, d); return v; }
  template <class T> bool get_parameters(const std::string & prefix, std::map<std::string, T> & out) const { std::map<std::string, Parameter> m; bool r = params_->get_parameters_by_prefix(prefix, m); for (auto & kv : m) out[kv.first] = kv.second.get_value<T>(); return r; }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & ns) const { return params_->get_parameters(ns); }
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p) { return params_->set_parameters_atomically({p}); }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & p) { return params_->set_parameters(p); }
  rcl_interfaces::msg::SetParametersResult set_parameters_atomically(const std::vector<Parameter> & p) { return params_->set_parameters_atomically(p); }
  rcl_interfaces::msg::ListParametersResult list_parameters(const std::vector<std::string> & a, uint64_t d) const { return params_->list_parameters(a, d); }
  node_interfaces::OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(node_interfaces::NodeParametersInterface::OnSetParametersCallbackType f) { return params_->add_on_set_parameters_callback(f); }

  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool = true) { return std::make_shared<CallbackGroup>(t); }
  template <class M, class... A> typename Publisher<M>::SharedPtr create_publisher(const std::string & t, const QoS &, A &&...)
  { auto p = std::make_shared<Publisher<M>>(); p->topic = t; std::lock_guard<std::mutex> l(reg_m_); pubs_[t] = p; return p; }
  template <class M, class F, class... A> typename Subscription<M>::SharedPtr create_subscription(const std::string & t, const QoS &, F f, A &&...)
  { auto s = std::make_shared<Subscription<M>>(); s->topic = t; s->set(f); std::lock_guard<std::mutex> l(reg_m_); subs_[t] = s; return s; }
  template <class S, class F, class... A> typename Service<S>::SharedPtr create_service(const std::string & n, F f, A &&...)
  { auto s = std::make_shared<Service<S>>(); s->name = n; s->cb = f; std::lock_guard<std::mutex> l(reg_m_); srvs_[n] = s; return s; }
  template <class S> typename Client<S>::SharedPtr create_client(const std::string & n)  // "node/service"
  {
    auto c = std::make_shared<Client<S>>();
    c->call = [n](std::shared_ptr<typename S::Request> r)
    {
      auto k = n.rfind('/');
      auto p = n.find_first_not_of('/');
      typename Service<S>::SharedPtr s;
      { std::lock_guard<std::mutex> l(shim::live_nodes_mutex()); auto i = shim::live_nodes().find(n.substr(p, k - p)); if (i != shim::live_nodes().end()) s = i->second->template shim_service<S>("~" + n.substr(k)); }
      auto a = std::make_shared<typename S::Response>();
      if (s) s->cb(r, a);
      return a;
    };
    return c;
  }
  template <class D, class F> TimerBase::SharedPtr create_wall_timer(D d, F f, CallbackGroup::SharedPtr = nullptr, bool = true)
  { auto t = std::make_shared<TimerBase>(); t->cb = f; t->period = std::chrono::duration_cast<std::chrono::nanoseconds>(d); std::lock_guard<std::mutex> l(reg_m_); timers_.push_back(t); return t; }
  template <class D, class F> TimerBase::SharedPtr create_timer(D d, F f, CallbackGroup::SharedPtr g = nullptr) { return create_wall_timer(d, f, g); }
  // --- harness access
  template <class S> typename Service<S>::SharedPtr shim_service(const std::string & n) { std::lock_guard<std::mutex> l(reg_m_); auto i = srvs_.find(n); return i == srvs_.end() ? nullptr : std::dynamic_pointer_cast<Service<S>>(i->second.lock()); }
  template <class M> typename Publisher<M>::SharedPtr shim_publisher(const std::string & n) { std::lock_guard<std::mutex> l(reg_m_); auto i = pubs_.find(n); return i == pubs_.end() ? nullptr : std::dynamic_pointer_cast<Publisher<M>>(i->second.lock()); }
  template <class M> typename Subscription<M>::SharedPtr shim_subscription(const std::string & n) { std::lock_guard<std::mutex> l(reg_m_); auto i = subs_.find(n); return i == subs_.end() ? nullptr : std::dynamic_pointer_cast<Subscription<M>>(i->second.lock()); }
  std::vector<TimerBase::SharedPtr> shim_timers() { std::lock_guard<std::mutex> l(reg_m_); std::vector<TimerBase::SharedPtr> r; for (auto & w : timers_) if (auto t = w.lock()) r.push_back(t); return r; }
protected:
  NodeOptions options_;
  node_interfaces::NodeBaseInterface::SharedPtr base_ = std::make_shared<node_interfaces::NodeBaseInterface>();
  node_interfaces::NodeLoggingInterface::SharedPtr logging_ = std::make_shared<node_interfaces::NodeLoggingInterface>();
  node_interfaces::NodeParametersInterface::SharedPtr params_ = std::make_shared<node_interfaces::NodeParametersInterface>();
  node_interfaces::NodeClockInterface::SharedPtr clock_ = std::make_shared<node_interfaces::NodeClockInterface>();
  std::mutex reg_m_;
  std::map<std::string, std::weak_ptr<PublisherBase>> pubs_;
  std::map<std::string, std::weak_ptr<SubscriptionBase>> subs_;
  std::map<std::string, std::weak_ptr<ServiceBase>> srvs_;
  std::vector<std::weak_ptr<TimerBase>> timers_;
};

class Node : public NodeCore, public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  using WeakPtr = std::weak_ptr<Node>;
  explicit Node(const std::string & n, const NodeOptions & o = NodeOptions()) : NodeCore(n, "", o, true) {}
  Node(const std::string & n, const std::string & ns, const NodeOptions & o = NodeOptions()) : NodeCore(n, ns, o, true) {}
  virtual ~Node() = default;
  static SharedPtr make_shared(const std::string & n, const NodeOptions & o = NodeOptions()) { return std::make_shared<Node>(n, o); }
};
inline void spin(Node::SharedPtr) {}
inline void spin_some(Node::SharedPtr) {}
inline Logger get_logger(const Node & n) { return n.get_logger(); }
}  // namespace rclcpp
