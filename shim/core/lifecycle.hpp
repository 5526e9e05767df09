// Stand-in for rclcpp_lifecycle. Transition rules follow rcl_lifecycle's default state machine.
#pragma once
#include "core/node.hpp"
namespace lifecycle_msgs { namespace msg {
struct State {
  static constexpr uint8_t PRIMARY_STATE_UNKNOWN = 0, PRIMARY_STATE_UNCONFIGURED = 1, PRIMARY_STATE_INACTIVE = 2, PRIMARY_STATE_ACTIVE = 3, PRIMARY_STATE_FINALIZED = 4,
    TRANSITION_STATE_CONFIGURING = 10, TRANSITION_STATE_CLEANINGUP = 11, TRANSITION_STATE_SHUTTINGDOWN = 12, TRANSITION_STATE_ACTIVATING = 13, TRANSITION_STATE_DEACTIVATING = 14, TRANSITION_STATE_ERRORPROCESSING = 15;
  using _id_type = uint8_t; using _label_type = std::string; using SharedPtr = std::shared_ptr<State>;
  uint8_t id = 0; std::string label;
  bool operator==(const State &) const = default;
};
struct Transition {
  static constexpr uint8_t TRANSITION_CREATE = 0, TRANSITION_CONFIGURE = 1, TRANSITION_CLEANUP = 2, TRANSITION_ACTIVATE = 3, TRANSITION_DEACTIVATE = 4, TRANSITION_UNCONFIGURED_SHUTDOWN = 5, TRANSITION_INACTIVE_SHUTDOWN = 6, TRANSITION_ACTIVE_SHUTDOWN = 7, TRANSITION_DESTROY = 8,
    TRANSITION_CALLBACK_SUCCESS = 97, TRANSITION_CALLBACK_FAILURE = 98, TRANSITION_CALLBACK_ERROR = 99;
  uint8_t id = 0; std::string label;
};
} }
namespace rclcpp_lifecycle {
class State  // internally locked, as the original is
{
public:
  State() : State(0, "unknown") {}
  State(uint8_t id, const std::string & label) : id_(id), label_(label) { if (label.empty()) throw std::runtime_error("Lifecycle State cannot have an empty label."); }
  State(const State & o) { std::lock_guard<std::mutex> l(o.m_); id_ = o.id_; label_ = o.label_; }
  State & operator=(const State & o) { if (this == &o) return *this; uint8_t i; std::string s; { std::lock_guard<std::mutex> l(o.m_); i = o.id_; s = o.label_; } std::lock_guard<std::mutex> l(m_); id_ = i; label_ = s; return *this; }
  virtual ~State() = default;
  uint8_t id() const { std::lock_guard<std::mutex> l(m_); return id_; }
  std::string label() const { std::lock_guard<std::mutex> l(m_); return label_; }
private:
  mutable std::mutex m_;
  uint8_t id_;
  std::string label_;
};
namespace node_interfaces {
class LifecycleNodeInterface
{
public:
  enum class CallbackReturn : uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::FAILURE; }
  virtual ~LifecycleNodeInterface() = default;
};
}  // namespace node_interfaces

class LifecycleNode : public node_interfaces::LifecycleNodeInterface, public rclcpp::NodeCore, public std::enable_shared_from_this<LifecycleNode>
{
public:
  using SharedPtr = std::shared_ptr<LifecycleNode>;
  using WeakPtr = std::weak_ptr<LifecycleNode>;
  using CR = node_interfaces::LifecycleNodeInterface::CallbackReturn;
  using Cb = std::function<CR(const State &)>;
  explicit LifecycleNode(const std::string & n, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool c = true) : LifecycleNode(n, "", o, c) {}
  LifecycleNode(const std::string & n, const std::string & ns, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true)
  : rclcpp::NodeCore(n, ns, o, true), cur_(&st(1))
  {
    cb_[0] = [this](const State & s) { return on_configure(s); };
    cb_[1] = [this](const State & s) { return on_cleanup(s); };
    cb_[2] = [this](const State & s) { return on_shutdown(s); };
    cb_[3] = [this](const State & s) { return on_activate(s); };
    cb_[4] = [this](const State & s) { return on_deactivate(s); };
    cb_[5] = [this](const State & s) { return on_error(s); };
  }
  virtual ~LifecycleNode() = default;
  template <class... A> static SharedPtr make_shared(A &&... a) { return std::make_shared<LifecycleNode>(std::forward<A>(a)...); }
  bool register_on_configure(Cb f) { cb_[0] = f; return true; }
  bool register_on_cleanup(Cb f) { cb_[1] = f; return true; }
  bool register_on_shutdown(Cb f) { cb_[2] = f; return true; }
  bool register_on_activate(Cb f) { cb_[3] = f; return true; }
  bool register_on_deactivate(Cb f) { cb_[4] = f; return true; }
  bool register_on_error(Cb f) { cb_[5] = f; return true; }
  const State & get_current_state() const { return *cur_.load(); }
  const State & configure() { return go(0, {1}, 10, 2, 1); }
  const State & configure(CR & r) { r = CR::SUCCESS; auto & s = configure(); r = last_; return s; }
  const State & cleanup() { return go(1, {2}, 11, 1, 2); }
  const State & cleanup(CR & r) { auto & s = cleanup(); r = last_; return s; }
  const State & activate() { return go(3, {2}, 13, 3, 2); }
  const State & activate(CR & r) { auto & s = activate(); r = last_; return s; }
  const State & deactivate() { return go(4, {3}, 14, 2, 3); }
  const State & deactivate(CR & r) { auto & s = deactivate(); r = last_; return s; }
  const State & shutdown() { return go(2, {1, 2, 3}, 12, 4, 4); }
  const State & shutdown(CR & r) { auto & s = shutdown(); r = last_; return s; }
private:
  static const State & st(uint8_t id)
  {
    static const State s1(1, "unconfigured"), s2(2, "inactive"), s3(3, "active"), s4(4, "finalized"), s10(10, "configuring"), s11(11, "cleaningup"), s12(12, "shuttingdown"), s13(13, "activating"), s14(14, "deactivating"), s15(15, "errorprocessing"), s0(0, "unknown");
    switch (id) { case 1: return s1; case 2: return s2; case 3: return s3; case 4: return s4; case 10: return s10; case 11: return s11; case 12: return s12; case 13: return s13; case 14: return s14; case 15: return s15; default: return s0; }
  }
  CR exec(int which, const State & prev)
  {
    try { return cb_[which](prev); } catch (const std::exception & e) { RCLCPP_ERROR(get_logger(), "Original error: %s", e.what()); return CR::ERROR; }
  }
  const State & go(int which, std::initializer_list<uint8_t> from, uint8_t trans, uint8_t ok, uint8_t fail)
  {
    std::lock_guard<std::recursive_mutex> l(tm_);
    const State & prev = *cur_.load();
    bool allowed = false;
    for (auto f : from) allowed |= prev.id() == f;
    if (!allowed) { last_ = CR::ERROR; RCLCPP_ERROR(get_logger(), "Unable to start transition from current state %s", prev.label().c_str()); return *cur_.load(); }
    cur_ = &st(trans);
    CR r = exec(which, prev);
    last_ = r;
    if (r == CR::SUCCESS) cur_ = &st(ok);
    else if (r == CR::FAILURE) cur_ = &st(fail);
    else {
      cur_ = &st(15);
      CR e = exec(5, prev);
      cur_ = &st(e == CR::SUCCESS ? 1 : 4);
    }
    return *cur_.load();
  }
  std::recursive_mutex tm_;
  std::atomic<const State *> cur_;
  CR last_ = CR::SUCCESS;
  Cb cb_[6];
};
}  // namespace rclcpp_lifecycle
