// Scripted hardware plugins: every callback is recorded with the lifecycle state it was made in and returns what the script says.
#pragma once
#include "common.hpp"
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "hardware_interface/types/lifecycle_state_names.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "pluginlib/class_loader.hpp"
namespace hwf
{
using CR = hardware_interface::CallbackReturn;
using RT = hardware_interface::return_type;
// 0 ok, 1 failure (ERROR for cycles), 2 error (DEACTIVATE for cycles), 3 std exception, 4 other exception
struct Ev
{
  std::string comp, cb;
  int st = 0;
  std::vector<std::string> start, stop;
  int64_t t = 0, period = 0;
};
struct Script
{
  std::map<std::string, int> plan;              // constant answer per callback
  std::map<std::string, double> states;         // written to state interfaces in read()
  std::map<std::string, double> seen_commands;  // command interfaces as seen in write()
  std::set<std::string> hide;                   // interfaces not exported
  std::atomic<int> block{0};                    // on_configure waits while 1
  std::atomic<int> blocked{0};
  int delay_us = 0;
  std::atomic<int> in_cycle{0};
  std::atomic<int> live{0};
};
struct World
{
  std::mutex m;
  std::map<std::string, std::shared_ptr<Script>> scripts;
  std::vector<Ev> log;
  bool logging = true;
  std::atomic<uint64_t> nlog{0};
  std::shared_ptr<Script> script(const std::string & n)
  {
    std::lock_guard<std::mutex> l(m);
    auto & s = scripts[n];
    if (!s) s = std::make_shared<Script>();
    return s;
  }
  std::function<void(const Ev &)> hook;  // called first, in the calling thread
  void add(const Ev & e) { nlog++; if (hook) hook(e); std::lock_guard<std::mutex> l(m); if (logging) log.push_back(e); }
  std::vector<Ev> take() { std::lock_guard<std::mutex> l(m); std::vector<Ev> r; r.swap(log); return r; }
  // the command interfaces each component was last told to run, and whether any component refused to be told
  std::map<std::string, std::set<std::string>> running;
  bool refused = false;
  void switched(const std::string & n, bool perform, int answer, const std::vector<std::string> & start, const std::vector<std::string> & stop)
  {
    std::lock_guard<std::mutex> l(m);
    if (answer) { refused = true; return; }
    if (!perform) return;
    for (auto & i : stop) running[n].erase(i);
    for (auto & i : start) running[n].insert(i);
  }
  int plan(const std::shared_ptr<Script> & s, const std::string & cb)
  {
    std::lock_guard<std::mutex> l(m);
    auto i = s->plan.find(cb);
    return i == s->plan.end() ? 0 : i->second;
  }
  void set(const std::shared_ptr<Script> & s, const std::string & cb, int v) { std::lock_guard<std::mutex> l(m); s->plan[cb] = v; }
  void reset() { std::lock_guard<std::mutex> l(m); scripts.clear(); log.clear(); running.clear(); refused = false; logging = true; nlog = 0; hook = nullptr; }
};
inline World & world() { static World w; return w; }
inline CR as_cr(int r)
{
  switch (r)
  {
    case 0: return CR::SUCCESS;
    case 1: return CR::FAILURE;
    case 2: return CR::ERROR;
    case 3: throw std::runtime_error("scripted");
    default: throw 42;
  }
}
inline RT as_rt(int r)
{
  switch (r)
  {
    case 0: return RT::OK;
    case 1: return RT::ERROR;
    case 2: return RT::DEACTIVATE;
    case 3: throw std::runtime_error("scripted");
    default: throw 42;
  }
}
template <class Base> class Fake : public Base
{
public:
  ~Fake() override { if (sc_) sc_->live--; }
  CR on_init(const hardware_interface::HardwareComponentInterfaceParams & p) override
  {
    name_ = p.hardware_info.name;
    sc_ = world().script(name_);
    sc_->live++;
    CR r = cb("init");
    if (r != CR::SUCCESS) return r;
    return Base::on_init(p);
  }
  CR on_configure(const rclcpp_lifecycle::State &) override
  {
    if (sc_->block) { sc_->blocked = 1; while (sc_->block) std::this_thread::yield(); sc_->blocked = 0; }
    return cb("configure");
  }
  CR on_cleanup(const rclcpp_lifecycle::State &) override { return cb("cleanup"); }
  CR on_shutdown(const rclcpp_lifecycle::State &) override { return cb("shutdown"); }
  CR on_activate(const rclcpp_lifecycle::State &) override { return cb("activate"); }
  CR on_deactivate(const rclcpp_lifecycle::State &) override { return cb("deactivate"); }
  CR on_error(const rclcpp_lifecycle::State &) override { return cb("error"); }
  RT read(const rclcpp::Time & t, const rclcpp::Duration & p) override
  {
    Guard g(this);
    world().add({name_, "read", this->get_lifecycle_id(), {}, {}, t.nanoseconds(), p.nanoseconds()});
    std::map<std::string, double> s;
    { std::lock_guard<std::mutex> l(world().m); s = sc_->states; }
    for (auto & [k, v] : s) if (this->has_state(k)) this->set_state(k, v);
    return as_rt(world().plan(sc_, "read"));
  }
  RT write_(const rclcpp::Time & t, const rclcpp::Duration & p)
  {
    Guard g(this);
    world().add({name_, "write", this->get_lifecycle_id(), {}, {}, t.nanoseconds(), p.nanoseconds()});
    for (auto & c : this->joint_commands_)
      if (c->get_data_type() == hardware_interface::HandleDataType::DOUBLE)
      {
        double v = this->template get_command<double>(c->get_name());
        std::lock_guard<std::mutex> l(world().m);
        sc_->seen_commands[c->get_name()] = v;
      }
    for (auto & c : this->gpio_commands_)
      if (c->get_data_type() == hardware_interface::HandleDataType::DOUBLE)
      {
        double v = this->template get_command<double>(c->get_name());
        std::lock_guard<std::mutex> l(world().m);
        sc_->seen_commands[c->get_name()] = v;
      }
    return as_rt(world().plan(sc_, "write"));
  }
  RT sw(const char * w, const std::vector<std::string> & a, const std::vector<std::string> & b)
  {
    world().add({name_, w, this->get_lifecycle_id(), a, b});
    const int answer = world().plan(sc_, w);
    world().switched(name_, std::string(w) == "perform", answer, a, b);
    return as_rt(answer);
  }
  std::vector<hardware_interface::StateInterface::ConstSharedPtr> on_export_state_interfaces() override
  {
    auto v = Base::on_export_state_interfaces();
    filter(v);
    if (world().plan(sc_, "export_states")) as_cr(world().plan(sc_, "export_states"));
    return v;
  }
  std::vector<hardware_interface::CommandInterface::SharedPtr> on_export_command_interfaces() override
  {
    auto v = Base::on_export_command_interfaces();
    filter(v);
    if (world().plan(sc_, "export_commands")) as_cr(world().plan(sc_, "export_commands"));
    return v;
  }

protected:
  struct Guard
  {
    Fake * f;
    explicit Guard(Fake * x) : f(x)
    {
      if (f->sc_->in_cycle.fetch_add(1) != 0) vh::rec().violation("hw_cycle_overlap", "read/write of " + f->name_ + " runs concurrently with itself");
      if (f->sc_->delay_us) std::this_thread::sleep_for(std::chrono::microseconds(f->sc_->delay_us));
    }
    ~Guard() { f->sc_->in_cycle--; }
  };
  CR cb(const char * w)
  {
    world().add({name_, w, this->get_lifecycle_id(), {}, {}});
    return as_cr(world().plan(sc_, w));
  }
  template <class V> void filter(V & v)
  {
    std::set<std::string> h;
    { std::lock_guard<std::mutex> l(world().m); h = sc_->hide; }
    V o;
    for (auto & x : v) if (!h.count(x->get_name())) o.push_back(x);
    v = o;
  }
  std::string name_;
  std::shared_ptr<Script> sc_;
};
class FakeActuator : public Fake<hardware_interface::ActuatorInterface>
{
public:
  RT write(const rclcpp::Time & t, const rclcpp::Duration & p) override { return write_(t, p); }
  RT prepare_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override { return sw("prepare", a, b); }
  RT perform_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override { return sw("perform", a, b); }
};
class FakeSystem : public Fake<hardware_interface::SystemInterface>
{
public:
  RT write(const rclcpp::Time & t, const rclcpp::Duration & p) override { return write_(t, p); }
  RT prepare_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override { return sw("prepare", a, b); }
  RT perform_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override { return sw("perform", a, b); }
};
class FakeSensor : public Fake<hardware_interface::SensorInterface> {};
inline void register_plugins()
{
  pluginlib::shim_registry<hardware_interface::ActuatorInterface>()["fake/actuator"] = [] { return new FakeActuator(); };
  pluginlib::shim_registry<hardware_interface::SensorInterface>()["fake/sensor"] = [] { return new FakeSensor(); };
  pluginlib::shim_registry<hardware_interface::SystemInterface>()["fake/system"] = [] { return new FakeSystem(); };
}
struct JointD
{
  std::string name;
  std::vector<std::string> cmd, st;
  bool limited = false, enable = true;
  double lo = -1, hi = 1, vel = 1, eff = 1;
  std::string extra;
};
struct HwD
{
  std::string name, type = "system", group, plugin;
  int rate = 0;
  bool async = false;
  std::vector<JointD> joints;
  std::vector<JointD> gpios, sensors;
  std::vector<std::string> cifs() const
  {
    std::vector<std::string> r;
    for (auto & j : joints) for (auto & i : j.cmd) r.push_back(j.name + "/" + i);
    for (auto & j : gpios) for (auto & i : j.cmd) r.push_back(j.name + "/" + i);
    return r;
  }
  std::vector<std::string> sifs() const
  {
    std::vector<std::string> r;
    for (auto & j : joints) for (auto & i : j.st) r.push_back(j.name + "/" + i);
    for (auto & j : gpios) for (auto & i : j.st) r.push_back(j.name + "/" + i);
    for (auto & j : sensors) for (auto & i : j.st) r.push_back(j.name + "/" + i);
    return r;
  }
};
inline std::string urdf(const std::vector<HwD> & hws)
{
  std::ostringstream o;
  o.precision(17);
  o << "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n<link name=\"world\"/>\n";
  for (auto & h : hws)
    for (auto & j : h.joints)
    {
      o << "<link name=\"l_" << j.name << "\"/><joint name=\"" << j.name << "\" type=\"" << (j.limited ? "revolute" : "continuous")
        << "\"><parent link=\"world\"/><child link=\"l_" << j.name << "\"/>";
      if (j.limited) o << "<limit lower=\"" << j.lo << "\" upper=\"" << j.hi << "\" velocity=\"" << j.vel << "\" effort=\"" << j.eff << "\"/>";
      o << "</joint>\n";
    }
  for (auto & h : hws)
  {
    o << "<ros2_control name=\"" << h.name << "\" type=\"" << h.type << "\"";
    if (h.rate) o << " rw_rate=\"" << h.rate << "\"";
    if (h.async) o << " is_async=\"true\"";
    o << "><hardware><plugin>" << (h.plugin.empty() ? "fake/" + h.type : h.plugin) << "</plugin>";
    if (!h.group.empty()) o << "<group>" << h.group << "</group>";
    o << "</hardware>\n";
    auto comp = [&](const char * tag, const JointD & j)
    {
      o << "<" << tag << " name=\"" << j.name << "\">";
      if (!j.enable) o << "<limits enable=\"false\"/>";
      for (auto & c : j.cmd) o << "<command_interface name=\"" << c << "\"/>";
      for (auto & c : j.st) o << "<state_interface name=\"" << c << "\"/>";
      o << j.extra << "</" << tag << ">\n";
    };
    for (auto & j : h.joints) comp("joint", j);
    for (auto & j : h.sensors) comp("sensor", j);
    for (auto & j : h.gpios) comp("gpio", j);
    o << "</ros2_control>\n";
  }
  o << "</robot>\n";
  return o.str();
}
inline const char * sname(int s)
{
  static const char * n[] = {"unknown", "unconfigured", "inactive", "active", "finalized"};
  return n[s];
}
inline std::string show(const std::vector<Ev> & v)
{
  std::ostringstream o;
  for (auto & e : v)
  {
    o << e.comp << "." << e.cb << "@" << sname(e.st);
    if (!e.start.empty() || !e.stop.empty()) o << "(+" << vh::join(e.start) << " -" << vh::join(e.stop) << ")";
    o << " ";
  }
  return o.str();
}
// ---- reference model of one component's lifecycle
struct Comp
{
  HwD d;
  int st = 1;
  bool avail = false;
  bool thrown = false;  // a callback threw out of the component
  int thrown_kind = 0;
  bool is_sensor() const { return d.type == "sensor"; }
};
struct Sim
{
  std::vector<Ev> ev;
  std::map<std::string, std::map<std::string, int>> * plan = nullptr;  // comp -> cb -> answer
  struct Thrown { int kind; };
  int ans(Comp & c, const std::string & cb)
  {
    ev.push_back({c.d.name, cb, c.st, {}, {}});
    auto i = plan->find(c.d.name);
    if (i == plan->end()) return 0;
    auto j = i->second.find(cb);
    return j == i->second.end() ? 0 : j->second;
  }
  void error(Comp & c)
  {
    if (c.st != 2 && c.st != 3) return;
    int r = ans(c, "error");
    c.st = r == 0 ? 1 : 4;  // an error handler that throws has not handled anything
  }
  // transition of the component itself; throws Thrown when the callback throws
  void go(Comp & c, const std::string & cb)
  {
    auto a = [&] { int r = ans(c, cb); if (r >= 3) throw Thrown{r}; return r; };
    if (cb == "configure") { if (c.st == 1) { int r = a(); if (r == 0) c.st = 2; else if (r == 2) error(c); } }
    else if (cb == "cleanup") { if (c.st == 2) { if (a() == 0) c.st = 1; else error(c); } }
    else if (cb == "shutdown") { if (c.st >= 1 && c.st <= 3) { if (a() == 0) c.st = 4; else error(c); } }
    else if (cb == "activate") { if (c.st == 2) { int r = a(); if (r == 0) c.st = 3; else if (r == 2) error(c); } }
    else if (cb == "deactivate") { if (c.st == 3) { int r = a(); if (r == 0) c.st = 2; else if (r == 2) error(c); } }
  }
};
}  // namespace hwf
