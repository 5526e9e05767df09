// C35: what is registered for introspection and statistics, and the status messages of the hardware.
#include "hwfake.hpp"
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
using namespace hwf;
using vh::Rng;
using hardware_interface::CommandInterface;
using hardware_interface::HandleDataType;
using hardware_interface::ResourceManager;
using hardware_interface::StateInterface;
namespace
{
struct Rm : ResourceManager
{
  using ResourceManager::ResourceManager;
  using ResourceManager::load_and_initialize_components;
};
struct Seen { int n = 0; bool enabled = false; double value = 0; };
std::map<std::string, Seen> registered(const char * key = hardware_interface::DEFAULT_REGISTRY_KEY)
{
  std::map<std::string, Seen> r;
  for (auto & v : pal_statistics::getRegistry(key)->snapshot()) { auto & s = r[v.name]; ++s.n; s.enabled |= v.enabled; s.value = v.value; }
  return r;
}
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

// ---- hardware with interfaces of every type, variables of its own, status messages
struct Own { double a = 0; int b = 0; std::map<std::string, double> legacy; std::vector<std::string> publishes; hardware_interface::HardwareComponentInterface * self = nullptr; int updates = 0, inits = 0; int init_answer = 0, update_answer = 0; size_t template_size = 1; };
std::map<std::string, Own> & own() { static std::map<std::string, Own> o; return o; }
template <class B> class Rich : public B
{
public:
  ~Rich() override { if (!this->name_.empty()) own()[this->name_].self = nullptr; }
  CR on_init(const hardware_interface::HardwareComponentInterfaceParams & p) override
  {
    auto r = B::on_init(p);
    if (r != CR::SUCCESS) return r;
    auto & o = own()[p.hardware_info.name];
    o.self = this;
    auto & stats_registrations_ = this->stats_registrations_;
    auto get_name = [&] { return this->B::get_name(); };
    REGISTER_ROS2_CONTROL_INTROSPECTION("own_a", &o.a);
    REGISTER_ROS2_CONTROL_INTROSPECTION("own_b", &o.b);
    return r;
  }
  CR init_hardware_status_message(control_msgs::msg::HardwareStatus & m) override
  {
    auto & o = own()[this->get_hardware_info().name];
    ++o.inits;
    m.hardware_id = this->get_hardware_info().name;
    m.hardware_device_states.resize(o.template_size);
    return as_cr(o.init_answer);
  }
  RT update_hardware_status_message(control_msgs::msg::HardwareStatus & m) override
  {
    auto & o = own()[this->get_hardware_info().name];
    ++o.updates;
    m.hardware_id += "#" + std::to_string(o.updates);
    return o.update_answer ? RT::ERROR : RT::OK;
  }
};
// exports its interfaces in the way of older hardware: with pointers to its own values
template <class B> class Old : public Rich<B>
{
public:
  std::vector<hardware_interface::StateInterface> export_state_interfaces() override
  {
    std::vector<hardware_interface::StateInterface> v;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    for (auto * l : {&this->info_.joints, &this->info_.gpios, &this->info_.sensors})
      for (auto & j : *l) for (auto & i : j.state_interfaces) v.emplace_back(j.name, i.name, &own()[this->name_].legacy["s " + j.name + "/" + i.name]);
    return v;
  }
  std::vector<hardware_interface::CommandInterface> export_command_interfaces() override
  {
    std::vector<hardware_interface::CommandInterface> v;
    for (auto * l : {&this->info_.joints, &this->info_.gpios})
      for (auto & j : *l) for (auto & i : j.command_interfaces) v.emplace_back(j.name, i.name, &own()[this->name_].legacy["c " + j.name + "/" + i.name]);
#pragma GCC diagnostic pop
    return v;
  }
};
template <class T> void add(const std::string & n, bool old)
{
  using I = std::conditional_t<std::is_base_of_v<hardware_interface::ActuatorInterface, T>, hardware_interface::ActuatorInterface, std::conditional_t<std::is_base_of_v<hardware_interface::SensorInterface, T>, hardware_interface::SensorInterface, hardware_interface::SystemInterface>>;
  pluginlib::shim_registry<I>()[n] = [old]() -> I * { if (old) { if constexpr (!std::is_same_v<I, hardware_interface::SensorInterface>) return new Old<T>(); } return new Rich<T>(); };
}
const std::vector<std::string> TYPES{"double", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "float32"};
struct ItfD { std::string name, type; bool cmd; };
struct CompD
{
  HwD h;
  bool old = false;
  double rate = 0;
  std::string rate_text;
  std::vector<ItfD> itfs;
  int st = 1;
};
std::vector<CompD> random_comps(Rng & r)
{
  std::vector<CompD> v;
  int n = static_cast<int>(r.range(1, 3));
  for (int k = 0; k < n; ++k)
  {
    CompD c;
    c.h.name = "Hw" + std::to_string(k);
    c.h.type = r.pick({"actuator", "sensor", "system"});
    c.old = c.h.type != "sensor" && r.chance(0.25);
    c.h.plugin = (c.old ? "old/" : "rich/") + c.h.type;
    int nj = c.h.type == "system" ? static_cast<int>(r.range(1, 3)) : 1;
    for (int j = 0; j < nj; ++j)
    {
      JointD d;
      d.name = "j" + std::to_string(k) + std::to_string(j);
      if (c.h.type != "sensor") d.cmd.push_back("position");
      d.st.push_back("position");
      if (c.h.type != "sensor" && r.chance(0.5)) d.cmd.push_back("velocity");
      if (r.chance(0.5)) d.st.push_back("velocity");
      d.limited = c.h.type != "sensor" && r.chance(0.5);
      for (auto & i : d.cmd) c.itfs.push_back({d.name + "/" + i, "double", true});
      for (auto & i : d.st) c.itfs.push_back({d.name + "/" + i, "double", false});
      if (!c.old)
        for (int x = 0; x < 4; ++x)
          if (r.chance(0.5))
          {
            bool cmd = c.h.type != "sensor" && r.chance(0.5);
            std::string nm = "t" + std::to_string(x), t = r.pick(TYPES);
            d.extra += std::string("<") + (cmd ? "command" : "state") + "_interface name=\"" + nm + "\" data_type=\"" + t + "\"/>";
            c.itfs.push_back({d.name + "/" + nm, t, cmd});
          }
      c.h.joints.push_back(d);
    }
    v.push_back(c);
  }
  return v;
}
std::string describe(const std::vector<CompD> & v)
{
  std::string s;
  for (auto & c : v) { s += c.h.name + "(" + c.h.type + (c.old ? " old" : "") + ") "; for (auto & i : c.itfs) s += std::string(i.cmd ? "c:" : "s:") + i.name + ":" + i.type + " "; }
  return s;
}
std::string to_urdf(const std::vector<CompD> & v) { std::vector<HwD> h; for (auto & c : v) h.push_back(c.h); return urdf(h); }
template <class T> double put_as(hardware_interface::Handle & h, double x) { if (!h.set_value(static_cast<T>(x))) return std::nan(""); return static_cast<double>(static_cast<T>(x)); }
double put(hardware_interface::Handle & h, const std::string & t, Rng & r)
{
  if (t == "bool") return put_as<bool>(h, static_cast<double>(r.below(2)));
  if (t == "uint8") return put_as<uint8_t>(h, static_cast<double>(r.below(256)));
  if (t == "int8") return put_as<int8_t>(h, static_cast<double>(r.range(-128, 127)));
  if (t == "uint16") return put_as<uint16_t>(h, static_cast<double>(r.below(65536)));
  if (t == "int16") return put_as<int16_t>(h, static_cast<double>(r.range(-32768, 32767)));
  if (t == "uint32") return put_as<uint32_t>(h, static_cast<double>(r.range(0, 4294967295ll)));
  if (t == "int32") return put_as<int32_t>(h, static_cast<double>(r.range(-2147483648ll, 2147483647ll)));
  if (t == "float32") return put_as<float>(h, r.uniform(-1e6, 1e6));
  return put_as<double>(h, r.chance(0.05) ? std::numeric_limits<double>::infinity() : r.uniform(-5, 5));
}
hardware_interface::InterfaceDescription desc(const std::string & p, const std::string & n, const std::string & t)
{
  hardware_interface::InterfaceInfo i;
  i.name = n;
  i.data_type = t;
  return hardware_interface::InterfaceDescription(p, i);
}

void rm_case(Rng & r)
{
  world().reset();
  own().clear();
  pal_statistics::clearAllRegistries();
  shim::clock_state().manual = true;
  shim::clock_state().now_ns = 1000000000;
  auto comps = random_comps(r);
  hardware_interface::ResourceManagerParams p;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.update_rate = 100;
  std::string hist = describe(comps);
  auto rm = std::make_unique<Rm>(p, false);
  if (r.chance(0.4))
  {
    // a description that cannot be loaded: nothing of it may stay registered
    auto bad = random_comps(r);
    auto & who = bad[r.below(bad.size())];
    int kind = static_cast<int>(r.range(0, 3));
    auto sc = world().script(who.h.name);
    if (kind == 0) sc->plan["init"] = static_cast<int>(r.range(1, 4));
    else if (kind == 1) who.h.plugin = "no/such";
    else if (kind == 2 && !who.old) sc->plan["export_states"] = 3;
    else sc->hide.insert(who.itfs[0].name), who.old ? void(sc->plan["init"] = 2) : void();
    p.robot_description = to_urdf(bad);
    bool ok = true;
    if (r.chance(0.5)) rm->import_joint_limiters(p.robot_description);
    try { ok = rm->load_and_initialize_components(p); } catch (...) { ok = false; }
    VCHECK(!ok, "bad_loaded", "a description that cannot be loaded was loaded: " << describe(bad));
    if (ok) return;
    // reading a variable of something that is gone is seen by AddressSanitizer
    for (auto & [n, s] : registered()) vh::rec().violation("left_registered", n + " is still registered after a description was refused (kind " + std::to_string(kind) + "): " + describe(bad)), (void)s;
    world().reset();
    own().clear();
    vh::rec().count("bad_loads");
    hist = "after a refused description: " + hist;
  }
  p.robot_description = to_urdf(comps);
  bool limits = r.chance(0.6);
  if (limits) rm->import_joint_limiters(p.robot_description);
  bool ok = rm->load_and_initialize_components(p);
  VCHECK(ok, "not_loaded", "not loaded: " << hist);
  if (!ok) return;
  // the values the interfaces hold: interface (with "s "/"c ") -> value
  std::map<std::string, double> truth;
  std::map<std::string, int> limited;   // 0 no 1 yes
  std::map<std::string, std::string> owner;
  auto initial = [](const std::string & t) -> double
  {
    if (t == "bool") return 0;
    if (t == "uint8") return 255;
    if (t == "int8") return 127;
    if (t == "uint16") return 65535;
    if (t == "int16") return 32767;
    if (t == "uint32") return 4294967295.0;
    if (t == "int32") return 2147483647.0;
    return std::nan("");
  };
  for (auto & c : comps) for (auto & i : c.itfs) { truth[(i.cmd ? "c " : "s ") + i.name] = c.old ? 0.0 : initial(i.type); }
  std::map<std::string, std::map<std::string, std::shared_ptr<hardware_interface::Handle>>> ctrls;
  std::map<std::string, std::shared_ptr<hardware_interface::Handle>> chandles;
  std::map<std::string, hardware_interface::LoanedCommandInterface> claimed;
  auto audit = [&]
  {
    auto got = registered();
    std::set<std::string> want;
    for (auto & [k, v] : truth)
    {
      const std::string n = k.substr(2), key = (k[0] == 'c' ? "command_interface." : "state_interface.") + n;
      want.insert(key);
      auto g = got.find(key);
      VCHECK(g != got.end(), "not_registered", key << " is not registered: " << hist);
      if (g == got.end()) continue;
      VCHECK(g->second.n == 1, "registered_twice", key << " is registered " << g->second.n << " times: " << hist);
      VCHECK(g->second.enabled, "not_published", key << " is not published: " << hist);
      VCHECK(same(g->second.value, v), "value", key << " is published as " << g->second.value << " but the interface holds " << v << ": " << hist);
      if (k[0] != 'c') continue;
      want.insert(key + ".is_limited");
      auto l = got.find(key + ".is_limited");
      VCHECK(l != got.end() && l->second.n == 1 && l->second.enabled, "not_registered", key << ".is_limited is not registered once: " << hist);
      if (l != got.end()) VCHECK(l->second.value == limited[n], "is_limited", key << ".is_limited is published as " << l->second.value << " although the last command was " << (limited[n] ? "" : "not ") << "limited: " << hist);
    }
    for (auto & c : comps)
      for (auto v : {"own_a", "own_b"})
      {
        auto key = c.h.name + "." + v;
        want.insert(key);
        auto g = got.find(key);
        VCHECK(g != got.end() && g->second.n == 1, "own_registered", key << " is not registered once: " << hist);
        if (g == got.end()) continue;
        VCHECK(g->second.enabled == (c.st == 3), "own_enabled", key << " is " << (g->second.enabled ? "" : "not ") << "published although " << c.h.name << " is " << sname(c.st) << ": " << hist);
        auto & o = own()[c.h.name];
        VCHECK(same(g->second.value, std::string(v) == "own_a" ? o.a : o.b), "own_value", key << " is published as " << g->second.value << ": " << hist);
      }
    for (auto & [n, s] : got) if (s.n) VCHECK(want.count(n), "left_registered", n << " is registered but does not exist: " << hist);
    vh::rec().count("registrations_compared", got.size());
  };
  audit();
  int steps = static_cast<int>(r.range(5, 40));
  for (int k = 0; k < steps; ++k)
  {
    auto & c = comps[r.below(comps.size())];
    auto & o = own()[c.h.name];
    int op = static_cast<int>(r.below(10));
    if (op < 3)
    {
      // an interface gets another value
      auto & i = c.itfs[r.below(c.itfs.size())];
      const std::string key = (i.cmd ? "c " : "s ") + i.name;
      if (c.old) { o.legacy[key] = r.uniform(-5, 5); truth[key] = o.legacy[key]; }
      else if (!o.self) continue;
      else if (i.cmd) truth[key] = put(*o.self->get_command_interface_handle(i.name), i.type, r);
      else truth[key] = put(*o.self->get_state_interface_handle(i.name), i.type, r);
      hist += "set " + i.name + " ";
      vh::rec().count("values_set");
    }
    else if (op == 3) { o.a = r.uniform(-9, 9); o.b = static_cast<int>(r.range(-9, 9)); hist += "own "; }
    else if (op < 7)
    {
      int target = static_cast<int>(r.range(1, 4));
      if (target == 4 && r.chance(0.8)) target = 3;
      auto sc = world().script(c.h.name);
      for (auto cb : {"configure", "cleanup", "shutdown", "activate", "deactivate", "error"})
      {
        int a = 0;
        if (r.chance(0.25)) a = static_cast<int>(r.range(1, 4));
        world().set(sc, cb, a);
      }
      rclcpp_lifecycle::State goal(static_cast<uint8_t>(target), sname(target));
      try { (void)rm->set_component_state(c.h.name, goal); } catch (...) {}
      const int before = c.st;
      c.st = rm->get_components_status().at(c.h.name).state.id();
      hist += c.h.name + ":" + sname(before) + ">" + sname(target) + "=" + sname(c.st) + " ";
      vh::rec().count("transitions");
      if (c.st == before && before == 3 && target != 3) vh::rec().count("refused_deactivations");
      for (auto cb : {"configure", "cleanup", "shutdown", "activate", "deactivate", "error"}) world().set(sc, cb, 0);
    }
    else if (op == 7)
    {
      // a cycle, which may fail
      auto sc = world().script(c.h.name);
      if (r.chance(0.3)) world().set(sc, r.chance(0.5) ? "read" : "write", static_cast<int>(r.range(1, 3)));
      rclcpp::Time t(shim::clock_state().now_ns += 10000000, RCL_STEADY_TIME);
      rclcpp::Duration d = rclcpp::Duration::from_nanoseconds(10000000);
      try { (void)rm->read(t, d); (void)rm->write(t, d); } catch (...) {}
      world().set(sc, "read", 0);
      world().set(sc, "write", 0);
      for (auto & x : comps) x.st = rm->get_components_status().at(x.h.name).state.id();
      hist += "cycle ";
    }
    else if (op == 8)
    {
      // a command through its owner
      std::vector<ItfD> can;
      for (auto & i : c.itfs) if (i.cmd && i.type == "double" && rm->command_interface_is_available(i.name)) can.push_back(i);
      if (can.empty()) continue;
      auto i = can[r.below(can.size())];
      if (c.old && limits) continue;
      auto l = rm->claim_command_interface(i.name);
      double v = r.uniform(-3, 3);
      bool set = true, thrown = false;
      // a joint outside of its limits is refused with an exception
      try { set = l.set_value(v); } catch (const std::exception &) { thrown = true; }
      auto h = c.old ? nullptr : o.self->get_command_interface_handle(i.name);
      double now = c.old ? o.legacy["c " + i.name] : h->get_optional<double>().value_or(-777);
      if (!set) continue;
      truth["c " + i.name] = now;
      if (!c.old) limited[i.name] = h->is_limited();
      else limited[i.name] = 0;
      if (thrown) continue;
      if (now != v) VCHECK(limited[i.name], "is_limited", i.name << " holds " << now << " instead of the commanded " << v << " but is not marked as limited: " << hist);
      if (now != v) vh::rec().count("limited_commands");
      hist += "command " + i.name + " ";
    }
    else
    {
      std::string cn = r.pick({"ctrlA", "ctrlB"});
      if (ctrls.count(cn))
      {
        for (auto & [n, h] : ctrls[cn]) { truth.erase(n); limited.erase(n.substr(2)); (void)h; }
        rm->remove_controller_reference_interfaces(cn);
        rm->remove_controller_exported_state_interfaces(cn);
        ctrls.erase(cn);
        hist += "remove " + cn + " ";
        vh::rec().count("removals");
      }
      else
      {
        std::vector<CommandInterface::SharedPtr> refs;
        std::vector<StateInterface::ConstSharedPtr> sts;
        auto & m = ctrls[cn];
        for (auto x : {"a", "b"})
          if (r.chance(0.7)) { auto h = std::make_shared<CommandInterface>(desc(cn, x, "double")); refs.push_back(h); m["c " + cn + "/" + x] = h; truth["c " + cn + "/" + x] = put(*h, "double", r); }
        for (auto x : {"a", "s"})
          if (r.chance(0.7)) { std::string t = r.pick(TYPES); auto h = std::make_shared<StateInterface>(desc(cn, x, t)); sts.push_back(h); m["s " + cn + "/" + x] = h; truth["s " + cn + "/" + x] = put(*h, t, r); }
        rm->import_controller_reference_interfaces(cn, refs);
        rm->import_controller_exported_state_interfaces(cn, sts);
        // the manager does not keep what is removed alive
        hist += "import " + cn + " ";
        vh::rec().count("imports");
      }
    }
    audit();
  }
  vh::rec().distinct(hist);
  if (vh::rec().current() < 3) vh::rec().sample(hist);
  claimed.clear();
}

// ---- controllers
template <class B> class Ctrl : public B
{
public:
  std::map<std::string, int> plan;
  double mine = 0;
  bool registered = false;
  int upd = 0;
  CR ans(const char * n) { int a = plan.count(n) ? plan[n] : 0; if (a == 3) throw std::runtime_error(n); return a == 0 ? CR::SUCCESS : a == 1 ? CR::FAILURE : CR::ERROR; }
  controller_interface::InterfaceConfiguration command_interface_configuration() const override { return {controller_interface::interface_configuration_type::NONE, {}}; }
  controller_interface::InterfaceConfiguration state_interface_configuration() const override { return {controller_interface::interface_configuration_type::NONE, {}}; }
  CR on_init() override { auto & stats_registrations_ = this->stats_registrations_; auto get_name = [&] { return std::string(this->get_node()->get_name()); }; REGISTER_ROS2_CONTROL_INTROSPECTION("mine", &mine); return CR::SUCCESS; }
  CR on_configure(const rclcpp_lifecycle::State &) override { return ans("configure"); }
  CR on_cleanup(const rclcpp_lifecycle::State &) override { return ans("cleanup"); }
  CR on_shutdown(const rclcpp_lifecycle::State &) override { return ans("shutdown"); }
  CR on_activate(const rclcpp_lifecycle::State &) override { return ans("activate"); }
  CR on_deactivate(const rclcpp_lifecycle::State &) override { return ans("deactivate"); }
  CR on_error(const rclcpp_lifecycle::State &) override { return ans("error"); }
};
class P : public Ctrl<controller_interface::ControllerInterface>
{
public:
  controller_interface::return_type update(const rclcpp::Time &, const rclcpp::Duration &) override { return upd ? controller_interface::return_type::ERROR : controller_interface::return_type::OK; }
};
class Ch : public Ctrl<controller_interface::ChainableControllerInterface>
{
public:
  controller_interface::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { return controller_interface::return_type::OK; }
  controller_interface::return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration &) override { return upd ? controller_interface::return_type::ERROR : controller_interface::return_type::OK; }
};
template <class C> void ctrl_case_(Rng & r)
{
  pal_statistics::clearAllRegistries();
  shim::clock_state().manual = true;
  auto c = std::make_shared<C>();
  controller_interface::ControllerInterfaceParams p;
  p.controller_name = "ctrl";
  p.robot_description = "<r/>";
  p.update_rate = p.controller_manager_update_rate = 100;
  c->init(p);
  int st = 1, configured = 0;
  int64_t triggers = 0, now = 1000000000;
  std::string hist;
  int steps = static_cast<int>(r.range(4, 40));
  for (int k = 0; k < steps; ++k)
  {
    for (auto cb : {"configure", "cleanup", "shutdown", "activate", "deactivate", "error"}) c->plan[cb] = r.chance(0.25) ? static_cast<int>(r.range(1, 3)) : 0;
    std::string op = r.pick({"configure", "configure", "activate", "activate", "activate", "deactivate", "deactivate", "cleanup", "update", "update", "mine", "shutdown"});
    if (op == "shutdown" && r.chance(0.7)) op = "update";
    const int before = st;
    try
    {
      if (op == "configure") { if (st == 1) { ++configured; triggers = 0; c->configure(); } else if (st == 2) { op = "cleanup"; c->get_node()->cleanup(); } else continue; }
      else if (op == "activate") c->get_node()->activate();
      else if (op == "deactivate") c->get_node()->deactivate();
      else if (op == "cleanup") c->get_node()->cleanup();
      else if (op == "shutdown") c->get_node()->shutdown();
      else if (op == "mine") c->mine = r.uniform(-9, 9);
      else
      {
        if (st != 3) continue;
        c->upd = r.chance(0.2);
        ++triggers;
        c->trigger_update(rclcpp::Time(now += 10000000, RCL_STEADY_TIME), rclcpp::Duration::from_nanoseconds(10000000));
      }
    }
    catch (const std::exception &) {}
    st = c->get_lifecycle_state().id();
    hist += op + (c->plan.count(op) && c->plan[op] ? "!" : "") + "=" + sname(st) + " ";
    if (st == 3 && op == "deactivate") vh::rec().count("refused_deactivations");
    if (st == 2 && op == "activate" && before == 2) vh::rec().count("refused_activations");
    vh::rec().count("controller_operations");
    auto got = registered();
    std::set<std::string> want{"ctrl.mine"};
    if (configured) want.insert({"ctrl.total_triggers", "ctrl.failed_triggers"});
    for (auto & n : want)
    {
      auto g = got.find(n);
      VCHECK(g != got.end(), "not_registered", n << " is not registered: " << hist);
      if (g == got.end()) continue;
      VCHECK(g->second.n == 1, "registered_twice", n << " is registered " << g->second.n << " times: " << hist);
      VCHECK(g->second.enabled == (st == 3), "own_enabled", n << " is " << (g->second.enabled ? "" : "not ") << "published although the controller is " << sname(st) << ": " << hist);
      if (n == "ctrl.mine") VCHECK(g->second.value == c->mine, "own_value", n << " is published as " << g->second.value << " instead of " << c->mine << ": " << hist);
      if (n == "ctrl.total_triggers") VCHECK(g->second.value == static_cast<double>(triggers), "triggers", "the triggers are published as " << g->second.value << " instead of " << triggers << ": " << hist);
      if (n == "ctrl.failed_triggers") VCHECK(g->second.value == 0, "triggers", "the failed triggers are published as " << g->second.value << ": " << hist);
    }
    want.insert({"ctrl.total_triggers", "ctrl.failed_triggers"});   // registering them earlier does no harm
    for (auto & [n, s] : got) if (s.n) VCHECK(want.count(n), "left_registered", n << " is registered: " << hist);
  }
  if (st != 4) { c->plan.clear(); c->get_node()->shutdown(); }
  c.reset();
  auto got = registered();
  VCHECK(got.empty(), "left_registered", got.begin()->first << " is still registered although the controller is destroyed: " << hist);
  vh::rec().distinct(hist);
  if (vh::rec().current() < 3) vh::rec().sample(hist);
}
void ctrl_case(Rng & r) { if (r.chance(0.5)) ctrl_case_<P>(r); else ctrl_case_<Ch>(r); }

// ---- status messages of the hardware
void status_case(Rng & r)
{
  world().reset();
  own().clear();
  shim::clock_state().manual = true;
  shim::clock_state().now_ns = 1000000000;
  std::string type = r.pick({"actuator", "sensor", "system"});
  HwD h;
  h.name = r.pick({"Hw", "arm/Left", "GRIPPER_1"});
  h.type = type;
  JointD j;
  j.name = "j";
  j.st = {"position"};
  if (type != "sensor") j.cmd = {"position"};
  h.joints.push_back(j);
  auto infos = hardware_interface::parse_control_resources_from_urdf(urdf({h}));
  double rate = 0;
  int kind = static_cast<int>(r.below(9));
  std::string text;
  if (kind < 5) { rate = r.pick({1.0, 10.0, 0.5, 100.0, 33.0, 1000.0}); std::ostringstream o; o << rate; text = o.str(); }
  else if (kind == 5) text = "0";
  else if (kind == 6) text = "-3";
  else if (kind == 7) text = r.pick({"fast", "", "nan", "1,5", "10Hz"});
  if (kind != 8) infos[0].hardware_parameters["status_publish_rate"] = text;
  auto & o = own()[h.name];
  o.init_answer = r.chance(0.15) ? static_cast<int>(r.range(1, 2)) : 0;
  o.template_size = r.chance(0.15) ? 0 : r.below(3) + 1;
  auto exec = r.chance(0.8) ? std::make_shared<rclcpp::Executor>() : nullptr;
  std::unique_ptr<hardware_interface::HardwareComponentInterface> hw;
  if (type == "actuator") hw = std::make_unique<Rich<FakeActuator>>();
  else if (type == "sensor") hw = std::make_unique<Rich<FakeSensor>>();
  else hw = std::make_unique<Rich<FakeSystem>>();
  hardware_interface::HardwareComponentParams p;
  p.hardware_info = infos[0];
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  if (exec) p.executor = exec;
  std::string ctx = h.name + " rate '" + text + "'" + (kind == 8 ? " (absent)" : "") + " template of " + std::to_string(o.template_size) + (o.init_answer ? " template refused" : "") + (exec ? "" : " without executor");
  CR a = CR::ERROR;
  bool thrown = false;
  try { a = hw->init(p); } catch (...) { thrown = true; }
  VCHECK(!thrown, "status_throws", "initialisation throws: " << ctx);
  if (thrown) return;
  const bool wanted = rate > 0;
  VCHECK((a == CR::SUCCESS) == !(wanted && o.init_answer), "status_init", "initialisation answers " << int(a) << ": " << ctx);
  VCHECK(o.inits == (wanted ? 1 : 0), "status_template", "the message was prepared " << o.inits << " times: " << ctx);
  auto node = hw->get_node();
  VCHECK((node != nullptr) == (exec != nullptr), "status_node", "node: " << ctx);
  if (!node) { vh::rec().count("without_node"); return; }
  std::string lower;
  for (char ch : h.name) lower += ch == '/' ? '_' : static_cast<char>(std::tolower(ch));
  VCHECK(node->get_name() == lower, "status_node_name", "the node is called " << node->get_name() << ": " << ctx);
  VCHECK(exec->node_names() == std::vector<std::string>{lower}, "status_node_name", "nodes of the executor: " << vh::join(exec->node_names()) << ": " << ctx);
  auto timers = node->shim_timers();
  auto pub = node->shim_publisher<control_msgs::msg::HardwareStatus>("~/hardware_status");
  const bool expect = wanted && !o.init_answer && o.template_size > 0;
  VCHECK(timers.size() == (expect ? 1u : 0u) && (pub != nullptr) == expect, "status_publisher", timers.size() << " timers, " << (pub ? "a" : "no") << " publisher: " << ctx);
  if (!expect || timers.size() != 1 || !pub) { vh::rec().count("without_status"); return; }
  const double per = std::chrono::duration<double>(timers[0]->period).count();
  VCHECK(std::abs(per - 1.0 / rate) < 2e-9, "status_rate", "period " << per << ": " << ctx);
  size_t sent = 0;
  int n = static_cast<int>(r.range(1, 20));
  for (int k = 0; k < n; ++k)
  {
    o.update_answer = r.chance(0.3);
    shim::clock_state().now_ns += r.range(1, 100000000);
    timers[0]->fire();
    VCHECK(o.updates == k + 1, "status_updates", o.updates << " updates after " << k + 1 << " ticks: " << ctx);
    if (!o.update_answer) ++sent;
    VCHECK(pub->count() == sent, "status_published", pub->count() << " messages instead of " << sent << ": " << ctx);
    if (o.update_answer || !pub->last()) continue;
    auto m = pub->last();
    // every message starts from the prepared one
    VCHECK(m->hardware_id == h.name + "#" + std::to_string(k + 1) && m->hardware_device_states.size() == o.template_size, "status_content", "message of " << m->hardware_id << " with " << m->hardware_device_states.size() << " devices: " << ctx);
    VCHECK(rclcpp::Time(m->header.stamp).nanoseconds() == shim::clock_state().now_ns, "status_stamp", "stamp " << rclcpp::Time(m->header.stamp).nanoseconds() << " instead of " << shim::clock_state().now_ns << ": " << ctx);
    vh::rec().count("status_messages");
  }
  timers.clear();
  pub.reset();
  node.reset();
  vh::rec().distinct(ctx + std::to_string(sent));
  if (vh::rec().current() < 3) vh::rec().sample(ctx);
}
}  // namespace
int main(int argc, char ** argv)
{
  hwf::register_plugins();
  for (bool old : {false, true})
  {
    const std::string k = old ? "old/" : "rich/";
    add<FakeActuator>(k + "actuator", old);
    add<FakeSystem>(k + "system", old);
    add<FakeSensor>(k + "sensor", old);
  }
  return vh::run_cases(argc, argv, [](Rng & r, uint64_t, const vh::Args & a)
  {
    if (a.mode == "rm") rm_case(r);
    else if (a.mode == "ctrl") ctrl_case(r);
    else status_case(r);
  });
}
