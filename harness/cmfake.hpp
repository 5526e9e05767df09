// Scripted controllers and a harness around the real controller manager: services are called from another thread while this one runs the loop.
#pragma once
#include <thread>
#include "hwfake.hpp"
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager/controller_manager.hpp"
#include "std_msgs/msg/string.hpp"
namespace cmf
{
using CfgType = controller_interface::interface_configuration_type;
using CtrlRet = controller_interface::return_type;
using CCR = controller_interface::CallbackReturn;
struct Cfg
{
  CfgType type = CfgType::NONE;
  std::vector<std::string> names;
  bool operator==(const Cfg &) const = default;
};
struct Def
{
  std::string name;
  bool chain = false, async = false;
  int rate = 0;  // 0: the manager's
  Cfg cmd, st;
  std::vector<std::string> refs, exps;  // without the controller's name
  std::vector<std::string> fb;
};
struct Ev
{
  std::string ctrl, cb;
  int from = 0;
  size_t ncmd = 0, nst = 0;
  int64_t t = 0, period = 0;
  uint64_t cycle = 0;
  int answer = 0;
  double base = 0;
  bool chained = false;
  std::vector<double> refs;
  std::map<std::string, double> states, wrote;
};
struct Ctl
{
  Def def;
  std::map<std::string, int> plan;  // callback -> 0 success 1 failure 2 error 3 std exception 4 other exception; update: 0 ok 1 error 3 4
  std::atomic<int> live{0}, in_update{0}, in_callback{0};
  std::atomic<size_t> ncmd{0}, nst{0};
  std::atomic<int> delay_us{0};
  std::atomic<uint64_t> updates{0}, last_cycle{0};
};
struct World
{
  std::mutex m;
  std::map<std::string, std::shared_ptr<Ctl>> ctls;
  std::vector<Ev> log;
  bool logging = true, taping = false;
  std::vector<Ev> tape;  // everything, not consumed by take()
  void mark(const char * what, int64_t t = 0, int64_t period = 0)
  {
    if (!taping) return;
    Ev e;
    e.cb = what;
    e.t = t;
    e.period = period;
    e.cycle = cycle;
    std::lock_guard<std::mutex> l(m);
    tape.push_back(e);
  }
  std::atomic<uint64_t> cycle{0};
  std::atomic<double> counter{1.0};
  std::atomic<uint64_t> nupd{0}, ncb{0};
  // callbacks made by services wait for the control loop to go on
  std::atomic<bool> slow{false}, slow_shutdown{false};
  std::atomic<uint64_t> nslow{0};
  void linger(const std::string & what)
  {
    uint64_t c = cycle;
    auto t0 = std::chrono::steady_clock::now();
    while (slow && cycle < c + 3)
    {
      std::this_thread::sleep_for(std::chrono::microseconds(50));
      if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(40)) { vh::rec().violation("loop_stalled", "the control loop does not go on during " + what); return; }
    }
    nslow++;
  }
  std::shared_ptr<Ctl> ctl(const std::string & n)
  {
    std::lock_guard<std::mutex> l(m);
    auto & c = ctls[n];
    if (!c) { c = std::make_shared<Ctl>(); c->def.name = n; }
    return c;
  }
  void add(Ev e)
  {
    std::lock_guard<std::mutex> l(m);
    if (taping) tape.push_back(e);
    if (logging) log.push_back(std::move(e));
  }
  std::vector<Ev> take() { std::lock_guard<std::mutex> l(m); std::vector<Ev> r; r.swap(log); return r; }
  int plan(const std::shared_ptr<Ctl> & c, const std::string & cb) { std::lock_guard<std::mutex> l(m); auto i = c->plan.find(cb); return i == c->plan.end() ? 0 : i->second; }
  void set(const std::string & n, const std::string & cb, int v) { auto c = ctl(n); std::lock_guard<std::mutex> l(m); if (v) c->plan[cb] = v; else c->plan.erase(cb); }
  void reset() { std::lock_guard<std::mutex> l(m); ctls.clear(); log.clear(); tape.clear(); logging = true; taping = false; slow = false; slow_shutdown = false; cycle = 0; nupd = 0; ncb = 0; }
};
inline World & world() { static World w; return w; }
template <class Base> class Fk : public Base
{
public:
  ~Fk() override { if (ctl_) ctl_->live--; }
  CCR on_init() override
  {
    ctl_ = world().ctl(this->get_node()->get_name());
    ctl_->live++;
    return answer("init", 0);
  }
  controller_interface::InterfaceConfiguration command_interface_configuration() const override { return get([&](const Def & d) { return d.cmd; }); }
  controller_interface::InterfaceConfiguration state_interface_configuration() const override { return get([&](const Def & d) { return d.st; }); }
  CCR on_configure(const rclcpp_lifecycle::State & p) override { return answer("configure", p.id()); }
  CCR on_cleanup(const rclcpp_lifecycle::State & p) override { return answer("cleanup", p.id()); }
  CCR on_shutdown(const rclcpp_lifecycle::State & p) override { return answer("shutdown", p.id()); }
  CCR on_activate(const rclcpp_lifecycle::State & p) override
  {
    auto r = answer("activate", p.id());
    return r;
  }
  CCR on_deactivate(const rclcpp_lifecycle::State & p) override { return answer("deactivate", p.id()); }
  CCR on_error(const rclcpp_lifecycle::State & p) override { return answer("error", p.id()); }
  CtrlRet work(const rclcpp::Time & t, const rclcpp::Duration & d, const std::vector<double> & refs)
  {
    if (ctl_->in_update.fetch_add(1) != 0) vh::rec().violation("update_overlap", "update of " + ctl_->def.name + " runs concurrently with itself");
    if (ctl_->in_callback.load() != 0) vh::rec().violation("update_in_transition", "update of " + ctl_->def.name + " runs during one of its lifecycle callbacks");
    vh::rec().eval();
    {
      uint64_t cyc = world().cycle;
      if (!this->is_async() && cyc && ctl_->last_cycle.exchange(cyc) == cyc) vh::rec().violation("update_twice", ctl_->def.name + " is updated twice in a cycle");
    }
    Ev e;
    e.ctrl = ctl_->def.name;
    e.cb = "update";
    e.from = this->get_lifecycle_id();
    e.ncmd = this->command_interfaces_.size();
    e.nst = this->state_interfaces_.size();
    e.t = t.nanoseconds();
    e.period = d.nanoseconds();
    e.cycle = world().cycle;
    e.refs = refs;
    world().nupd++;
    int us = ctl_->delay_us;
    if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
    for (auto & s : this->state_interfaces_)
    {
      auto v = s.get_optional();
      if (v) e.states[s.get_name()] = *v;
    }
    double base = world().counter.load();
    e.base = base;
    e.chained = this->is_in_chained_mode();
    world().counter.store(base + 1.0);
    size_t k = 0;
    for (auto & c : this->command_interfaces_)
    {
      double v = base + static_cast<double>(k++) / 64.0;
      if (c.set_value(v)) e.wrote[c.get_name()] = v;
    }
    publish(base);
    int a = world().plan(ctl_, "update");
    e.answer = a;
    ctl_->updates++;
    world().add(std::move(e));
    ctl_->in_update--;
    if (a == 3) throw std::runtime_error("scripted update");
    if (a == 4) throw 42;
    return a == 0 ? CtrlRet::OK : CtrlRet::ERROR;
  }
  virtual void publish(double) {}

protected:
  template <class F> controller_interface::InterfaceConfiguration get(F f) const
  {
    std::lock_guard<std::mutex> l(world().m);
    auto c = f(ctl_->def);
    return {c.type, c.names};
  }
  CCR answer(const char * cb, int from)
  {
    ctl_->in_callback++;
    if (ctl_->in_update.load() != 0) vh::rec().violation("transition_in_update", std::string("on_") + cb + " of " + ctl_->def.name + " runs during its update");
    world().ncb++;
    Ev e;
    e.ctrl = ctl_->def.name;
    e.cb = cb;
    e.from = from;
    e.ncmd = this->command_interfaces_.size();
    e.nst = this->state_interfaces_.size();
    e.cycle = world().cycle;
    int a = world().plan(ctl_, cb);
    e.answer = a;
    world().add(std::move(e));
    static const std::set<std::string> by_service = {"init", "configure", "cleanup"};
    if (world().slow && (by_service.count(cb) || world().slow_shutdown)) world().linger(std::string("on_") + cb + " of " + ctl_->def.name);
    ctl_->in_callback--;
    if (a == 3) throw std::runtime_error(std::string("scripted ") + cb);
    if (a == 4) throw 42;
    return a == 0 ? CCR::SUCCESS : a == 1 ? CCR::FAILURE : CCR::ERROR;
  }
  std::shared_ptr<Ctl> ctl_;
};
class Plain : public Fk<controller_interface::ControllerInterface>
{
public:
  CtrlRet update(const rclcpp::Time & t, const rclcpp::Duration & d) override { return work(t, d, {}); }
};
class Chain : public Fk<controller_interface::ChainableControllerInterface>
{
public:
  std::vector<hardware_interface::CommandInterface> on_export_reference_interfaces() override
  {
    if (int a = world().plan(ctl_, "export")) { if (a >= 3) throw std::runtime_error("scripted export"); return {}; }
    std::vector<hardware_interface::CommandInterface> v;
    auto d = def();
    reference_interfaces_.assign(d.refs.size(), std::numeric_limits<double>::quiet_NaN());
    for (size_t k = 0; k < d.refs.size(); ++k) v.emplace_back(hardware_interface::CommandInterface(d.name, d.refs[k], &reference_interfaces_[k]));
    return v;
  }
  std::vector<hardware_interface::StateInterface> on_export_state_interfaces() override
  {
    if (world().plan(ctl_, "export")) return {};
    std::vector<hardware_interface::StateInterface> v;
    auto d = def();
    state_interfaces_values_.assign(d.exps.size(), std::numeric_limits<double>::quiet_NaN());
    for (size_t k = 0; k < d.exps.size(); ++k) v.emplace_back(hardware_interface::StateInterface(d.name, d.exps[k], &state_interfaces_values_[k]));
    return v;
  }
  bool on_set_chained_mode(bool) override { return world().plan(ctl_, "chained") == 0; }
  CtrlRet update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { return CtrlRet::OK; }
  CtrlRet update_and_write_commands(const rclcpp::Time & t, const rclcpp::Duration & d) override { return work(t, d, reference_interfaces_); }
  void publish(double base) override { for (size_t k = 0; k < state_interfaces_values_.size(); ++k) state_interfaces_values_[k] = base + 0.5 + static_cast<double>(k) / 64.0; }

protected:
  Def def() { std::lock_guard<std::mutex> l(world().m); return ctl_->def; }
};
inline void register_controllers()
{
  pluginlib::shim_registry<controller_interface::ControllerInterface>()["fake/plain"] = [] { return new Plain(); };
  pluginlib::shim_registry<controller_interface::ControllerInterface>()["fake/throwing"] = []() -> Plain * { throw std::runtime_error("scripted constructor"); };
  pluginlib::shim_registry<controller_interface::ChainableControllerInterface>()["fake/chain"] = [] { return new Chain(); };
}
inline const char * kName = "controller_manager";
namespace srv = controller_manager_msgs::srv;
// the controller manager with its loop
struct Sys
{
  std::shared_ptr<rclcpp::Executor> ex = std::make_shared<rclcpp::Executor>();
  std::shared_ptr<controller_manager::ControllerManager> cm;
  int64_t now = 1000000000000LL, step = 10000000LL;
  int rate = 100;
  std::function<void()> after_cycle, before_cycle;
  std::function<int64_t()> next_step;
  std::atomic<bool> in_request{false};
  bool cm_threw = false;
  Sys(const std::string & urdf, int r, std::vector<rclcpp::Parameter> p = {}, bool describe = true)
  {
    rate = r;
    step = 1000000000LL / r;
    p.emplace_back("update_rate", r);
    p.emplace_back("overruns.print_warnings", false);
    { std::lock_guard<std::mutex> l(shim::node_overrides_mutex()); shim::node_overrides()[kName] = p; }
    shim::clock_state().manual = true;
    shim::clock_state().now_ns = now;
    cm = std::make_shared<controller_manager::ControllerManager>(ex, kName, "", controller_manager::get_cm_node_options());
    { std::lock_guard<std::mutex> l(shim::node_overrides_mutex()); shim::node_overrides().erase(kName); }
    if (describe) this->describe(urdf);
  }
  ~Sys()
  {
    cm.reset();
    shim::clock_state().manual = false;
  }
  void describe(const std::string & urdf)
  {
    std_msgs::msg::String m;
    m.data = urdf;
    cm->shim_subscription<std_msgs::msg::String>("robot_description")->cb(std::make_shared<std_msgs::msg::String>(m));
  }
  CtrlRet cycle()
  {
    const int64_t step = next_step ? next_step() : this->step;
    now += step;
    shim::clock_state().now_ns = now;
    world().cycle++;
    world().mark("cycle", now, step);
    if (before_cycle) before_cycle();
    rclcpp::Time t(now, cm->get_trigger_clock()->get_clock_type());
    rclcpp::Duration d{std::chrono::nanoseconds{step}};
    cm->read(t, d);
    auto r = cm->update(t, d);
    cm->write(t, d);
    if (after_cycle) after_cycle();
    return r;
  }
  // runs f in another thread while the loop goes on
  // (with stalled, the loop stands still until the request is answered)
  void request(const std::function<void()> & f, bool stalled = false)
  {
    std::atomic<bool> done{false};
    in_request = true;
    world().mark("request");
    std::string err;
    std::thread th([&] { try { f(); } catch (const std::exception & e) { err = e.what(); if (err.empty()) err = "?"; } catch (...) { err = "unknown exception"; } done = true; });
    auto t0 = std::chrono::steady_clock::now();
    while (!done)
    {
      if (!stalled) cycle();
      std::this_thread::sleep_for(std::chrono::microseconds(20));
    }
    th.join();
    world().mark("requested");
    (void)t0;
    VCHECK(err.empty(), "request_threw", "a request ends with an exception: " << err);
    cycle();
    in_request = false;
  }
  template <class S> typename S::Response::SharedPtr call(const std::string & name, typename S::Request::SharedPtr rq)
  {
    auto rs = std::make_shared<typename S::Response>();
    auto s = cm->shim_service<S>("~/" + name);
    if (!s) { vh::rec().violation("no_service", "the service " + name + " does not exist"); return rs; }
    s->cb(rq, rs);
    return rs;
  }
  srv::ListControllers::Response::SharedPtr list() { return call<srv::ListControllers>("list_controllers", std::make_shared<srv::ListControllers::Request>()); }
  srv::ListHardwareInterfaces::Response::SharedPtr list_hw_ifs() { return call<srv::ListHardwareInterfaces>("list_hardware_interfaces", std::make_shared<srv::ListHardwareInterfaces::Request>()); }
  srv::ListHardwareComponents::Response::SharedPtr list_hw() { return call<srv::ListHardwareComponents>("list_hardware_components", std::make_shared<srv::ListHardwareComponents::Request>()); }
};
}  // namespace cmf
