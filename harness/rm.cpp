// C12 claims, C14 availability, C15 cycles, C16 mode switches, C17 limits at the resource manager.
#include "hwfake.hpp"
#include "limits_model.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "hardware_interface/types/resource_manager_params.hpp"
#include "hardware_interface/types/hardware_interface_type_values.hpp"
using namespace hwf;
using vh::Rng;
using hardware_interface::ResourceManager;
namespace
{
std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
struct Rm : ResourceManager
{
  using ResourceManager::ResourceManager;
  using ResourceManager::load_and_initialize_components;
};
std::vector<HwD> random_hws(Rng & r, int lo, int hi, bool groups, bool rates, int cm_rate)
{
  std::vector<HwD> v;
  int n = static_cast<int>(r.range(lo, hi));
  static const char * names[] = {"hw", "hw1", "hw10", "arm/left", "Grip_per"};
  for (int i = 0; i < n; ++i)
  {
    HwD h;
    h.name = names[i];
    h.type = r.pick({"actuator", "sensor", "system", "system"});
    if (groups && r.chance(0.6)) h.group = r.pick({"G", "G", "G2"});
    if (rates && r.chance(0.6)) h.rate = static_cast<int>(r.range(1, cm_rate + cm_rate / 4));
    int nj = h.type == "system" ? static_cast<int>(r.range(1, 2)) : 1;
    for (int k = 0; k < nj; ++k)
    {
      JointD j;
      j.name = "j" + std::to_string(i * 9 + k);
      for (auto s : {"position", "velocity", "effort"}) if (r.chance(0.6)) j.st.push_back(s);
      if (h.type != "sensor") for (auto s : {"position", "velocity", "effort"}) if (r.chance(0.6)) j.cmd.push_back(s);
      if (j.st.empty()) j.st.push_back("position");
      if (h.type != "sensor" && j.cmd.empty()) j.cmd.push_back("velocity");
      if (h.type == "sensor") h.sensors.push_back(j); else h.joints.push_back(j);
    }
    if (h.type == "system" && r.chance(0.4)) { JointD g; g.name = "io" + std::to_string(i); g.cmd = {"out"}; g.st = {"in"}; h.gpios.push_back(g); }
    v.push_back(h);
  }
  return v;
}
hardware_interface::ResourceManagerParams params(const std::string & u, int rate)
{
  hardware_interface::ResourceManagerParams p;
  p.robot_description = u;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.update_rate = static_cast<unsigned>(rate);
  return p;
}
rclcpp_lifecycle::State state(int id) { return rclcpp_lifecycle::State(static_cast<uint8_t>(id), sname(id)); }

// ---- model of the whole set of components
struct Model
{
  std::vector<Comp> comps;
  std::map<std::string, std::map<std::string, int>> plan;
  std::map<std::string, int> group;  // sticky result of a group
  std::set<std::string> exported_s, exported_c;  // available interfaces that controllers export
  Comp * find(const std::string & n) { for (auto & c : comps) if (c.d.name == n) return &c; return nullptr; }
  std::vector<Comp *> order(bool writing)
  {
    std::vector<Comp *> o;
    for (auto t : {"actuator", "sensor", "system"})
    {
      if (writing && std::string(t) == "sensor") continue;
      for (auto & c : comps) if (c.d.type == t) o.push_back(&c);
    }
    return o;
  }
  void settle(Comp & c) { c.avail = c.st == 2 || c.st == 3; }
  // one request to the resource manager; expected events in sim
  bool request(Sim & sim, Comp & c, int target, bool & threw)
  {
    auto step = [&](const char * cb, int want)
    {
      try { sim.go(c, cb); }
      catch (const Sim::Thrown &) { threw = true; if (c.d.group.size() && (std::string(cb) == "configure" || std::string(cb) == "cleanup")) group[c.d.group] = 0; return false; }
      if (c.d.group.size() && (std::string(cb) == "configure" || std::string(cb) == "cleanup" || (std::string(cb) == "shutdown" && c.st == 4))) group[c.d.group] = 0;
      return c.st == want;
    };
    bool ok = false;
    switch (target)
    {
      case 1: ok = c.st == 1 ? true : c.st == 2 ? step("cleanup", 1) : c.st == 3 ? step("deactivate", 2) && step("cleanup", 1) : false; break;
      case 2: ok = c.st == 1 ? step("configure", 2) : c.st == 2 ? true : c.st == 3 ? step("deactivate", 2) : false; break;
      case 3: ok = c.st == 1 ? step("configure", 2) && step("activate", 3) : c.st == 2 ? step("activate", 3) : c.st == 3; break;
      case 4: ok = c.st == 4 ? true : c.st == 3 ? step("deactivate", 2) && step("shutdown", 4) : step("shutdown", 4); break;
      default: break;
    }
    settle(c);
    return ok;
  }
};
std::string brief(const std::vector<Ev> & v) { std::string s; for (auto & e : v) s += e.comp + "." + e.cb + "@" + sname(e.st) + " "; return s; }
void check_avail(Rm & rm, Model & m, const std::string & ctx)
{
  std::vector<std::string> es(m.exported_s.begin(), m.exported_s.end()), ec(m.exported_c.begin(), m.exported_c.end());
  for (auto & c : m.comps)
    if (c.avail)
    {
      for (auto & i : c.d.sifs()) es.push_back(i);
      for (auto & i : c.d.cifs()) ec.push_back(i);
    }
  auto as = sorted(rm.available_state_interfaces()), ac = sorted(rm.available_command_interfaces());
  VCHECK(as == sorted(es), "available_states", "available state interfaces [" << vh::join(as) << "] expected [" << vh::join(sorted(es)) << "] " << ctx);
  VCHECK(ac == sorted(ec), "available_commands", "available command interfaces [" << vh::join(ac) << "] expected [" << vh::join(sorted(ec)) << "] " << ctx);
  for (auto & c : m.comps)
  {
    for (auto & i : c.d.cifs())
    {
      VCHECK(rm.command_interface_exists(i), "exists", i << " does not exist " << ctx);
      VCHECK(rm.command_interface_is_available(i) == c.avail, "is_available", i << " availability wrong " << ctx);
    }
    for (auto & i : c.d.sifs())
    {
      VCHECK(rm.state_interface_exists(i), "exists", i << " does not exist " << ctx);
      VCHECK(rm.state_interface_is_available(i) == c.avail, "is_available", i << " availability wrong " << ctx);
    }
  }
  auto & st = rm.get_components_status();
  VCHECK(st.size() == m.comps.size(), "status_size", st.size() << " components listed, expected " << m.comps.size() << " " << ctx);
  for (auto & c : m.comps)
  {
    auto i = st.find(c.d.name);
    VCHECK(i != st.end() && i->second.state.id() == c.st, "status_state", c.d.name << " listed as " << (i == st.end() ? "missing" : i->second.state.label()) << " expected " << sname(c.st) << " " << ctx);
    if (i == st.end()) continue;
    VCHECK(sorted(i->second.command_interfaces) == sorted(c.d.cifs()) && sorted(i->second.state_interfaces) == sorted(c.d.sifs()) && i->second.type == c.d.type && i->second.group == c.d.group, "status_info", "information of " << c.d.name << " wrong " << ctx);
  }
}
void draw_plan(Rng & r, Model & m, double bad, std::initializer_list<const char *> cbs, int hi = 4)
{
  m.plan.clear();
  for (auto & c : m.comps)
  {
    auto sc = world().script(c.d.name);
    sc->plan.clear();
    for (auto cb : cbs)
      if (r.chance(bad)) sc->plan[cb] = m.plan[c.d.name][cb] = static_cast<int>(r.range(1, hi));
  }
}
std::string show_plan(const Model & m)
{
  std::string s = " plan:";
  for (auto & [n, p] : m.plan) for (auto & [a, b] : p) s += " " + n + "." + a + "=" + std::to_string(b);
  return s;
}
std::string show_hws(const std::vector<HwD> & v)
{
  std::string s;
  for (auto & h : v) s += h.name + ":" + h.type + (h.group.empty() ? "" : "/" + h.group) + "@" + std::to_string(h.rate) + " ";
  return s;
}
std::unique_ptr<Rm> build(Rng &, Model & m, const std::vector<HwD> & hws, hardware_interface::ResourceManagerParams & p, bool limits = false)
{
  p.robot_description = urdf(hws);
  auto rm = std::make_unique<Rm>(p, false);
  if (limits) rm->import_joint_limiters(p.robot_description);
  bool ok = rm->load_and_initialize_components(p);
  if (!ok) vh::rec().violation("load_failed", "loading a good description failed " + show_hws(hws));
  m.comps.clear();
  for (auto & h : hws) { Comp c; c.d = h; m.comps.push_back(c); }
  world().take();
  return rm;
}

// ---------------------------------------------------------------- C14
void avail_case(Rng & r)
{
  world().reset();
  shim::clock_state().manual = true;
  int cm = 100;
  Model m;
  auto hws = random_hws(r, 1, 4, true, false, cm);
  auto p = params("", cm);
  // a description that cannot be loaded leaves nothing behind
  std::unique_ptr<Rm> rm;
  bool limits = r.chance(0.4);
  if (r.chance(0.5))
  {
    auto bad = random_hws(r, 1, 4, true, false, cm);
    for (auto & h : bad) for (auto & j : h.joints) { j.limited = r.chance(0.5); j.lo = -9; j.hi = 9; j.vel = 90; j.eff = 900; }
    int kind = static_cast<int>(r.range(0, 6));
    size_t who = r.below(bad.size());
    auto sc = world().script(bad[who].name);
    if (kind == 0) { bad.push_back(bad[who]); for (auto & j : bad.back().joints) j.name += "x"; }
    else if (kind == 1) sc->plan["init"] = static_cast<int>(r.range(1, 4));
    else if (kind == 2) bad[who].plugin = "no/such";
    else if (kind == 3) { auto s = bad[who].sifs(); sc->hide.insert(r.pick(s)); }
    else if (kind == 4) { auto s = bad[who].cifs(); if (s.empty()) s = bad[who].sifs(); sc->hide.insert(r.pick(s)); }
    else if (kind == 5) sc->plan["export_states"] = static_cast<int>(r.range(3, 4));
    else { if (bad[who].type == "sensor") sc->plan["init"] = 2; else sc->plan["export_commands"] = static_cast<int>(r.range(3, 4)); }
    p.robot_description = urdf(bad);
    rm = std::make_unique<Rm>(p, false);
    if (limits) rm->import_joint_limiters(p.robot_description);
    bool handled = true;
    bool ok = true;
    try { ok = rm->load_and_initialize_components(p); } catch (...) { handled = false; }
    std::string ctx = " bad kind " + std::to_string(kind) + " " + show_hws(bad);
    VCHECK(handled, "load_throws", "loading threw" << ctx);
    VCHECK(!ok && !rm->are_components_initialized(), "load_accepts_bad", "a description that cannot be loaded was accepted" << ctx);
    VCHECK(rm->state_interface_keys().empty() && rm->command_interface_keys().empty() && rm->available_command_interfaces().empty() && rm->available_state_interfaces().empty(), "load_leaves_interfaces", "interfaces left behind: " << vh::join(rm->state_interface_keys()) << " | " << vh::join(rm->command_interface_keys()) << ctx);
    VCHECK(rm->get_components_status().empty() && rm->actuator_components_size() + rm->sensor_components_size() + rm->system_components_size() == 0, "load_leaves_components", "components left behind" << ctx);
    for (auto & h : bad) VCHECK(world().script(h.name)->live == 0, "load_leaves_instances", "an instance of " << h.name << " is still alive" << ctx);
    VCHECK(rm->get_hard_joint_limits().empty(), "load_leaves_limits", "joint limits of " << rm->get_hard_joint_limits().size() << " joints left behind" << ctx);
    vh::rec().count("bad_loads");
    world().reset();
    if (limits) rm->import_joint_limiters(urdf(hws));
    p.robot_description = urdf(hws);
    ok = rm->load_and_initialize_components(p);
    VCHECK(ok && rm->are_components_initialized(), "load_after_bad", "a good description after a bad one was refused" << ctx);
    m.comps.clear();
    for (auto & h : hws) { Comp c; c.d = h; m.comps.push_back(c); }
    world().take();
    if (!ok) return;
  }
  else rm = build(r, m, hws, p, limits);
  int switches = 0;
  rm->set_on_component_state_switch_callback([&] { ++switches; });
  std::vector<std::string> all;
  for (auto & c : m.comps)
  {
    for (auto & i : c.d.cifs()) all.push_back(i);
    VCHECK(c.d.type == "sensor" || rm->get_components_status().at(c.d.name).rw_rate == static_cast<unsigned>(cm), "rw_rate", "default read/write rate of " << c.d.name << " is not the manager's");
  }
  VCHECK(rm->command_interface_keys() == sorted(all), "keys", "command interfaces " << vh::join(rm->command_interface_keys()) << " expected " << vh::join(sorted(all)));
  check_avail(*rm, m, "after loading");
  // controllers that export interfaces
  std::map<std::string, std::pair<std::vector<std::string>, std::vector<std::string>>> ctrls;
  std::vector<std::vector<hardware_interface::CommandInterface::SharedPtr>> keep;
  std::string hist = show_hws(hws) + ": ";
  int steps = static_cast<int>(r.range(10, 60));
  for (int k = 0; k < steps; ++k)
  {
    draw_plan(r, m, r.pick({0.0, 0.2, 0.5}), {"configure", "cleanup", "shutdown", "activate", "deactivate", "error"});
    if (r.chance(0.25))
    {
      std::string cn = r.pick({"ctrlA", "ctrlB", "ctrl"});
      int op = static_cast<int>(r.range(0, 5));
      bool have = ctrls.count(cn);
      hist += cn + "#" + std::to_string(op) + " ";
      if (!have)
      {
        std::vector<hardware_interface::CommandInterface::SharedPtr> refs;
        std::vector<hardware_interface::StateInterface::ConstSharedPtr> sts;
        auto & [rn, sn] = ctrls[cn];
        for (auto x : {"a/pos", "b/pos"})
          if (r.chance(0.7))
          {
            hardware_interface::InterfaceInfo ii; ii.name = x; ii.data_type = "double";
            refs.push_back(std::make_shared<hardware_interface::CommandInterface>(hardware_interface::InterfaceDescription(cn, ii)));
            rn.push_back(cn + "/" + x);
          }
        if (r.chance(0.7))
        {
          hardware_interface::InterfaceInfo ii; ii.name = "out"; ii.data_type = "double";
          sts.push_back(std::make_shared<const hardware_interface::StateInterface>(hardware_interface::InterfaceDescription(cn, ii)));
          sn.push_back(cn + "/out");
        }
        rm->import_controller_reference_interfaces(cn, refs);
        rm->import_controller_exported_state_interfaces(cn, sts);
        VCHECK(sorted(rm->get_controller_reference_interface_names(cn)) == sorted(rn) && sorted(rm->get_controller_exported_state_interface_names(cn)) == sorted(sn), "controller_names", "names of " << cn << " differ");
        vh::rec().count("controller_imports");
      }
      else
      {
        auto & [rn, sn] = ctrls[cn];
        if (op == 0) { rm->make_controller_reference_interfaces_available(cn); m.exported_c.insert(rn.begin(), rn.end()); }
        else if (op == 1) { rm->make_controller_reference_interfaces_unavailable(cn); for (auto & x : rn) m.exported_c.erase(x); }
        else if (op == 2) { rm->make_controller_exported_state_interfaces_available(cn); m.exported_s.insert(sn.begin(), sn.end()); }
        else if (op == 3) { rm->make_controller_exported_state_interfaces_unavailable(cn); for (auto & x : sn) m.exported_s.erase(x); }
        else if (op == 4)
        {
          rm->make_controller_reference_interfaces_unavailable(cn);
          rm->make_controller_exported_state_interfaces_unavailable(cn);
          for (auto & x : rn) m.exported_c.erase(x);
          for (auto & x : sn) m.exported_s.erase(x);
          rm->remove_controller_reference_interfaces(cn);
          rm->remove_controller_exported_state_interfaces(cn);
          for (auto & x : rn) VCHECK(!rm->command_interface_exists(x), "removed_exists", x << " exists after removal");
          for (auto & x : sn) VCHECK(!rm->state_interface_exists(x), "removed_exists", x << " exists after removal");
          ctrls.erase(cn);
        }
        else { rm->remove_controller_reference_interfaces("nobody"); rm->remove_controller_exported_state_interfaces("nobody"); }
      }
      for (auto & [n, x] : ctrls)
        for (auto & i : x.first) VCHECK(rm->command_interface_exists(i) && rm->command_interface_is_available(i) == (m.exported_c.count(i) > 0), "reference_available", i << " wrong " << hist);
      check_avail(*rm, m, hist);
      continue;
    }
    Comp & c = r.pick(m.comps);
    int target = static_cast<int>(r.range(1, 4));
    if (target == 4 && r.chance(0.8)) target = 3;
    Sim sim;
    sim.plan = &m.plan;
    bool threw = false;
    int before = c.st;
    int how = static_cast<int>(r.range(0, 9));
    std::string ctx;
    if (how == 0)
    {
      auto s = r.chance(0.5) ? rclcpp_lifecycle::State(0, "nonsense") : rclcpp_lifecycle::State(static_cast<uint8_t>(r.range(10, 20)), "transition");
      auto ret = rm->set_component_state(c.d.name, s);
      VCHECK(ret == RT::ERROR, "unknown_state_accepted", "state " << s.label() << "/" << int(s.id()) << " accepted");
      VCHECK(world().take().empty(), "unknown_state_calls", "callbacks for an unknown state");
    }
    else if (how == 1)
    {
      auto s = state(target);
      int sw = switches;
      auto ret = rm->set_component_state(c.d.name + "x", s);
      VCHECK(ret == RT::ERROR, "unknown_component_accepted", "unknown component accepted");
      VCHECK(world().take().empty() && switches == sw, "unknown_component_calls", "something happened for an unknown component");
    }
    else
    {
      bool ok = m.request(sim, c, target, threw);
      auto s = how == 2 ? rclcpp_lifecycle::State(0, sname(target)) : state(target);
      int sw = switches;
      auto ret = rm->set_component_state(c.d.name, s);
      auto ev = world().take();
      hist += c.d.name + ">" + sname(target) + " ";
      ctx = c.d.name + " " + sname(before) + " -> " + sname(target) + show_plan(m) + " history " + hist;
      VCHECK(brief(ev) == brief(sim.ev), "request_callbacks", "callbacks [" << brief(ev) << "] expected [" << brief(sim.ev) << "] " << ctx);
      int id = rm->get_components_status().at(c.d.name).state.id();
      VCHECK(ret != RT::OK || id == target, "request_result", "reported " << (ret == RT::OK ? "OK" : "not OK") << " but the state is " << sname(id) << " " << ctx);
      VCHECK((ret == RT::OK) == ok, "request_result_model", "reported " << int(ret) << " expected " << ok << " " << ctx);
      if (c.st != before) VCHECK(switches > sw, "switch_callback", "a state change was not notified " << ctx);
      vh::rec().count(ret == RT::OK ? "requests_ok" : "requests_failed");
      vh::rec().distinct(c.d.type + std::to_string(before) + std::to_string(target) + std::to_string(c.st) + brief(ev));
      if (id != c.st) return;
    }
    check_avail(*rm, m, ctx);
  }
  if (r.chance(0.5))
  {
    draw_plan(r, m, 0.2, {"shutdown", "deactivate", "error"});
    bool all = true;
    for (auto & c : m.comps) { Sim sim; sim.plan = &m.plan; bool threw = false; all &= m.request(sim, c, 4, threw); }
    bool ok = rm->shutdown_components();
    VCHECK(ok == all, "shutdown_result", "shutdown_components returned " << ok << " expected " << all << show_plan(m) << " " << hist);
    check_avail(*rm, m, "after shutdown " + hist);
    vh::rec().count("shutdowns");
  }
  if (vh::rec().current() < 3) vh::rec().sample(hist);
}

// ---------------------------------------------------------------- C15
struct Timing { bool known = false; int64_t last = 0; };
void cycle_case(Rng & r)
{
  world().reset();
  auto & cs = shim::clock_state();
  cs.manual = true;
  cs.now_ns = 1000000000;
  int cm = static_cast<int>(r.pick({10, 50, 100, 100, 333, 1000}));
  Model m;
  auto hws = random_hws(r, 1, 5, r.chance(0.6), r.chance(0.7), cm);
  auto p = params("", cm);
  p.return_failed_hardware_names_on_return_deactivate_write_cycle_ = r.chance(0.7);
  auto rm = build(r, m, hws, p);
  std::map<std::string, Timing> rt, wt;
  std::string hist = show_hws(hws) + "cm " + std::to_string(cm) + ": ";
  for (auto & c : m.comps)
  {
    auto s = state(3);
    if (r.chance(0.8)) { rm->set_component_state(c.d.name, s); c.st = 3; c.avail = true; }
  }
  world().take();
  double jitter = r.pick({0.0, 0.0, 0.05, 0.3});
  double bad = r.pick({0.0, 0.003, 0.03});
  int steps = static_cast<int>(r.range(50, 250));
  std::map<std::string, std::pair<int, int64_t>> count;  // reads since activation, time of activation
  bool group_deactivated = false;
  for (int k = 0; k < steps && !group_deactivated; ++k)
  {
    cs.now_ns += static_cast<int64_t>(1e9 / cm * (1.0 + jitter * r.uniform(-1, 1)));
    rclcpp::Time now(cs.now_ns.load(), RCL_STEADY_TIME);
    rclcpp::Duration per = rclcpp::Duration::from_nanoseconds(static_cast<int64_t>(1e9 / cm) + r.range(-1000, 1000));
    // sometimes somebody brings a component back or changes its state
    if (r.chance(0.06))
    {
      draw_plan(r, m, 0.1, {"configure", "cleanup", "activate", "deactivate", "error"});
      Comp & c = r.pick(m.comps);
      int target = static_cast<int>(r.range(1, 3));
      if (r.chance(0.6)) target = 3;
      Sim sim; sim.plan = &m.plan; bool threw = false;
      m.request(sim, c, target, threw);
      auto s = state(target);
      rm->set_component_state(c.d.name, s);
      auto ev = world().take();
      for (auto & e : ev) if (e.cb == "activate") { rt[c.d.name] = wt[c.d.name] = Timing(); }
      hist += "[" + c.d.name + ">" + sname(target) + "]";
    }
    for (int wr = 0; wr < 2 && !group_deactivated; ++wr)
    {
      const char * cb = wr ? "write" : "read";
      draw_plan(r, m, 0.0, {});
      for (auto & c : m.comps)
      {
        auto sc = world().script(c.d.name);
        if (r.chance(bad)) sc->plan[cb] = m.plan[c.d.name][cb] = static_cast<int>(r.range(1, 4));
        if (r.chance(0.2)) sc->plan["error"] = m.plan[c.d.name]["error"] = static_cast<int>(r.range(1, 4));
        if (r.chance(0.1)) sc->plan["deactivate"] = m.plan[c.d.name]["deactivate"] = static_cast<int>(r.range(1, 4));
      }
      world().take();
      hardware_interface::HardwareReadWriteStatus res;
      bool escaped = false;
      try { res = wr ? rm->write(now, per) : rm->read(now, per); }
      catch (...) { escaped = true; }
      auto ev = world().take();
      std::string ctx = std::string(cb) + " cycle " + std::to_string(k) + show_plan(m) + " " + hist;
      VCHECK(!escaped, "cycle_exception", "an exception left the cycle " << ctx);
      if (escaped) return;
      Sim sim; sim.plan = &m.plan;
      std::set<std::string> failed;
      int worst = 0;
      std::vector<std::string> groups_before;
      std::map<std::string, int> g0 = m.group;
      for (auto * c : m.order(wr))
      {
        auto & tm = wr ? wt[c->d.name] : rt[c->d.name];
        // due?
        int rate = (c->d.rate == 0 || c->d.rate > cm) ? cm : c->d.rate;
        bool due = true;
        int64_t period = per.nanoseconds();
        bool tie = false;
        if (rate != cm)
        {
          period = tm.known ? cs.now_ns - tm.last : static_cast<int64_t>(1e9 / rate);
          double sec = period * 1e-9;
          double now_e = std::fabs(sec * rate - 1), skip_e = std::fabs((sec + 1.0 / cm) * rate - 1);
          due = now_e <= skip_e;
          tie = std::fabs(now_e - skip_e) < 1e-7;
        }
        bool state_ok = wr ? c->st == 3 : (c->st == 2 || c->st == 3);
        const Ev * e = nullptr;
        size_t calls = 0;
        for (auto & x : ev) if (x.comp == c->d.name && x.cb == cb) { ++calls; e = &x; }
        if (state_ok && tie) due = calls > 0;
        bool expect = due && state_ok;
        VCHECK(calls == (expect ? 1u : 0u), "cycle_calls", c->d.name << " (" << rate << " Hz, " << sname(c->st) << ") called " << calls << " times, expected " << expect << " " << ctx);
        if (calls > 1 || (calls == 1) != expect) return;
        int own = 0;
        if (expect)
        {
          VCHECK(e->st == c->st, "cycle_state", c->d.name << " called in " << sname(e->st) << " " << ctx);
          VCHECK(std::llabs(e->period - period) <= 2 && e->t == cs.now_ns, "cycle_period", c->d.name << " given period " << e->period << " time " << e->t << " expected " << period << " / " << cs.now_ns << " " << ctx);
          vh::rec().count(wr ? "writes" : "reads");
          if (rate != cm) vh::rec().count("slow_calls");
          own = sim.ans(*c, cb);
          if (own < 3) { tm.known = true; tm.last = cs.now_ns; }
          if (own == 1) { sim.error(*c); }
        }
        else if (due && !state_ok && c->st != 2) { tm.known = true; tm.last = cs.now_ns; }
        int eff = own >= 3 ? 1 : own;  // 0 ok 1 error 2 deactivate
        if (!c->d.group.empty())
        {
          if (eff) m.group[c->d.group] = eff;
          eff = m.group[c->d.group];
        }
        if (eff == 2 && !c->d.group.empty()) group_deactivated = true;
        if (eff == 1 || (eff == 2 && !wr))
        {
          failed.insert(c->d.name);
          sim.error(*c);
          c->avail = false;
          worst = 1;
          vh::rec().count(eff != own && own != 3 && own != 4 ? "failed_by_group" : "failed");
        }
        else if (eff == 2)
        {
          bool threw = false;
          m.request(sim, *c, 2, threw);
          if (worst == 0) worst = 2;
          if (p.return_failed_hardware_names_on_return_deactivate_write_cycle_) failed.insert(c->d.name);
          vh::rec().count("self_deactivated");
        }
      }
      VCHECK(brief(ev) == brief(sim.ev), "cycle_callbacks", "callbacks [" << brief(ev) << "] expected [" << brief(sim.ev) << "] " << ctx);
      VCHECK(int(res.result) == worst, "cycle_result", "result " << int(res.result) << " expected " << worst << " " << ctx);
      std::set<std::string> named(res.failed_hardware_names.begin(), res.failed_hardware_names.end());
      VCHECK(named == failed && named.size() == res.failed_hardware_names.size(), "failed_names", "named failed: [" << vh::join(res.failed_hardware_names) << "] expected [" << vh::join(failed) << "] " << ctx);
      for (auto & c : m.comps)
      {
        int id = rm->get_components_status().at(c.d.name).state.id();
        VCHECK(id == c.st, "cycle_end_state", c.d.name << " is " << sname(id) << " expected " << sname(c.st) << " " << ctx);
        if (id != c.st) return;
      }
      if (!failed.empty()) check_avail(*rm, m, ctx);
    }
  }
  if (group_deactivated)
  {
    // what happens to a group whose member deactivated itself
    draw_plan(r, m, 0.0, {});
    std::map<std::string, int> st;
    for (auto & c : m.comps) st[c.d.name] = c.st;
    cs.now_ns += static_cast<int64_t>(1e9 / cm);
    auto res = rm->read(rclcpp::Time(cs.now_ns.load(), RCL_STEADY_TIME), rclcpp::Duration::from_nanoseconds(static_cast<int64_t>(1e9 / cm)));
    bool lost = false;
    for (auto & c : m.comps) lost |= st[c.d.name] == 2 && rm->get_components_status().at(c.d.name).state.id() != 2;
    VCHECK(!(res.result != RT::OK && lost), "group_deactivation_becomes_error", "after one component of a group deactivated itself (all became inactive) the next read cycle reports an error and takes them out of service " << hist);
  }
  for (auto & c : m.comps) vh::rec().distinct(c.d.type + std::to_string(c.d.rate) + "/" + std::to_string(cm) + std::to_string(c.st) + std::to_string(count[c.d.name].first));
  vh::rec().distinct(hist);
  if (vh::rec().current() < 3) vh::rec().sample(hist);
}
// the cycle must not wait for a slow transition, and must be free of races with listings and transitions
void cycle_stress(Rng & r)
{
  world().reset();
  world().logging = false;
  shim::clock_state().manual = false;
  Model m;
  auto hws = random_hws(r, 2, 4, false, true, 200);
  for (auto & h : hws) if (r.chance(0.3)) h.async = true;
  auto p = params("", 200);
  auto rm = build(r, m, hws, p);
  std::vector<std::string> names;
  for (auto & h : hws) { names.push_back(h.name); auto s = state(3); rm->set_component_state(h.name, s); world().script(h.name)->delay_us = static_cast<int>(r.range(0, 20)); }
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> lists{0}, sets{0}, claims{0};
  uint64_t s1 = r.next(), s2 = r.next(), s3 = r.next();
  std::thread setter([&]
  {
    Rng q(s1);
    while (!stop)
    {
      auto n = q.pick(names);
      auto s = state(static_cast<int>(q.range(1, 3)));
      rm->set_component_state(n, s);
      if (q.chance(0.2)) { auto sc = world().script(n); world().set(sc, "read", q.chance(0.5)); world().set(sc, "write", q.chance(0.5)); }
      sets++;
      std::this_thread::sleep_for(std::chrono::microseconds(q.range(0, 300)));
    }
  });
  std::thread lister([&]
  {
    Rng q(s2);
    while (!stop)
    {
      auto a = rm->available_command_interfaces();
      auto b = rm->available_state_interfaces();
      std::set<std::string> u(a.begin(), a.end());
      if (u.size() != a.size()) vh::rec().violation("available_twice", "an interface is listed twice");
      for (auto & i : a) { rm->command_interface_is_claimed(i); rm->get_command_interface_data_type(i); }
      for (auto & k : rm->state_interface_keys()) rm->state_interface_is_available(k);
      lists++;
      std::this_thread::sleep_for(std::chrono::microseconds(q.range(0, 100)));
    }
  });
  std::vector<std::string> cifs;
  for (auto & h : hws) for (auto & i : h.cifs()) cifs.push_back(i);
  Rng q(s3);
  int cycles = vh::rec().thorough ? 1500 : 300;
  auto clock = p.clock;
  for (int k = 0; k < cycles; ++k)
  {
    rm->read(clock->now(), rclcpp::Duration::from_nanoseconds(5000000));
    // a controller in the loop: claims and commands what is available
    if (!cifs.empty() && q.chance(0.5))
    {
      auto i = q.pick(cifs);
      try { auto l = rm->claim_command_interface(i); (void)l.set_value(q.uniform(-1, 1)); claims++; } catch (const std::runtime_error &) {}
    }
    rm->enforce_command_limits(rclcpp::Duration::from_nanoseconds(5000000));
    rm->write(clock->now(), rclcpp::Duration::from_nanoseconds(5000000));
    std::this_thread::sleep_for(std::chrono::microseconds(q.range(0, 60)));
  }
  stop = true;
  setter.join();
  lister.join();
  vh::rec().count("stress_cycles", cycles);
  vh::rec().count("stress_lists", lists);
  vh::rec().count("stress_requests", sets);
  vh::rec().count("stress_claims", claims);
  vh::rec().eval(cycles);
  vh::rec().distinct("stress" + std::to_string(lists) + "/" + std::to_string(sets));
  // a cycle during a transition that takes long
  auto n = q.pick(names);
  auto sc = world().script(n);
  for (auto & x : names) { world().script(x)->plan.clear(); }
  { auto s = state(1); rm->set_component_state(n, s); }
  sc->block = 1;
  std::thread slow([&] { auto s = state(3); rm->set_component_state(n, s); });
  while (!sc->blocked && rm->get_components_status().at(n).state.id() == 1) std::this_thread::yield();
  auto a = std::chrono::steady_clock::now();
  for (int i = 0; i < 5; ++i)
  {
    rm->read(clock->now(), rclcpp::Duration::from_nanoseconds(5000000));
    rm->write(clock->now(), rclcpp::Duration::from_nanoseconds(5000000));
  }
  (void)a;
  bool still = sc->blocked;  // the cycles above came back while the transition was still going on
  VCHECK(still, "cycle_waits", "the transition ended by itself");
  sc->block = 0;
  slow.join();
  VCHECK(rm->get_components_status().at(n).state.id() == 3, "slow_transition", "state after the slow transition is not active");
  vh::rec().count("cycles_during_transition", 5);
}

// ---------------------------------------------------------------- C16
void switch_case(Rng & r)
{
  world().reset();
  shim::clock_state().manual = true;
  Model m;
  auto hws = random_hws(r, 1, 5, false, false, 100);
  auto p = params("", 100);
  p.allow_controller_activation_with_inactive_hardware = r.chance(0.5);
  const bool allow = p.allow_controller_activation_with_inactive_hardware;
  auto rm = build(r, m, hws, p);
  for (auto & c : m.comps)
  {
    int t = static_cast<int>(r.pick({1, 2, 2, 3, 3, 3, 3}));
    auto s = state(t);
    rm->set_component_state(c.d.name, s);
    c.st = t;
    c.avail = t >= 2;
  }
  // interfaces of a chained controller belong to no hardware
  hardware_interface::InterfaceInfo ii; ii.name = "pos"; ii.data_type = "double";
  rm->import_controller_reference_interfaces("ctrl", {std::make_shared<hardware_interface::CommandInterface>(hardware_interface::InterfaceDescription("ctrl", ii))});
  bool ref_avail = r.chance(0.7);
  if (ref_avail) rm->make_controller_reference_interfaces_available("ctrl");
  std::vector<std::string> pool;
  for (auto & c : m.comps) for (auto & i : c.d.cifs()) pool.push_back(i);
  int steps = static_cast<int>(r.range(10, 40));
  for (int k = 0; k < steps; ++k)
  {
    if (r.chance(0.1))
    {
      draw_plan(r, m, 0.0, {});
      Comp & c = r.pick(m.comps);
      int t = static_cast<int>(r.range(1, 3));
      auto s = state(t);
      rm->set_component_state(c.d.name, s);
      c.st = t;
      c.avail = t >= 2;
    }
    draw_plan(r, m, r.pick({0.0, 0.0, 0.2}), {"prepare", "perform"});
    world().take();
    std::vector<std::string> lists[2];
    for (auto & l : lists)
    {
      std::vector<std::string> c = pool;
      r.shuffle(c);
      // mostly interfaces of components that are in service
      if (r.chance(0.7)) c.erase(std::remove_if(c.begin(), c.end(), [&](auto & i) { for (auto & x : m.comps) for (auto & y : x.d.cifs()) if (y == i) return !(x.st == 3 || (allow && x.st == 2)); return true; }), c.end());
      size_t n = r.below(c.size() + 1);
      if (r.chance(0.5)) n = std::min<size_t>(n, 3);
      c.resize(n);
      if (r.chance(0.05)) c.insert(c.begin() + r.below(c.size() + 1), r.pick({"nobody/position", "j0", "", "j0/"}));
      if (r.chance(0.1)) c.insert(c.begin() + r.below(c.size() + 1), "ctrl/pos");
      l = c;
    }
    auto & start = lists[0];
    auto & stop = lists[1];
    bool prepare = r.chance(0.6);
    bool both_steps = prepare && r.chance(0.6);
    for (int step = 0; step < (both_steps ? 2 : 1); ++step)
    {
      bool prep = prepare && step == 0;
      const char * cb = prep ? "prepare" : "perform";
      bool ret = false, threw = false;
      try { ret = prep ? rm->prepare_command_mode_switch(start, stop) : rm->perform_command_mode_switch(start, stop); }
      catch (...) { threw = true; }
      auto ev = world().take();
      std::string states;
      for (auto & c : m.comps) states += c.d.name + "(" + c.d.type + ")=" + sname(c.st) + " ";
      std::string ctx = std::string(cb) + " +[" + vh::join(start) + "] -[" + vh::join(stop) + "] " + states + "allow=" + std::to_string(allow) + " calls: " + show(ev) + show_plan(m);
      VCHECK(!threw, "switch_throws", "exception " << ctx);
      if (threw) return;
      bool acceptable = true;
      bool unavailable = false;
      for (auto * l : {&start, &stop})
        for (auto & i : *l)
        {
          bool av = i == "ctrl/pos" && ref_avail;
          for (auto & c : m.comps) for (auto & y : c.d.cifs()) if (y == i && c.avail) av = true;
          if (!av) unavailable = true;
        }
      if (unavailable && prep) acceptable = false;
      std::map<std::string, const Ev *> called;
      for (auto & e : ev)
      {
        VCHECK(e.cb == cb, "switch_other_call", "unexpected " << e.cb << " " << ctx);
        VCHECK(!called.count(e.comp), "switch_twice", e.comp << " asked twice " << ctx);
        called[e.comp] = &e;
      }
      if (unavailable && prep) VCHECK(ev.empty(), "switch_calls_on_unavailable", "components were asked although an interface is unknown or unavailable " << ctx);
      std::set<std::string> must;
      for (auto & c : m.comps)
      {
        std::vector<std::string> a, b;
        std::set<std::string> mine;
        for (auto & i : c.d.cifs()) mine.insert(i);
        for (auto & i : start) if (mine.count(i)) a.push_back(i);
        for (auto & i : stop) if (mine.count(i)) b.push_back(i);
        bool concerned = !a.empty() || !b.empty();
        auto e = called.find(c.d.name);
        if (!concerned || c.d.type == "sensor")
        {
          VCHECK(e == called.end(), "switch_unconcerned", c.d.name << " is not concerned but was asked " << ctx);
          continue;
        }
        bool state_ok = c.st == 3 || (c.st == 2 && (a.empty() || allow));
        if (!state_ok)
        {
          acceptable = false;
          VCHECK(e == called.end(), "switch_wrong_state", c.d.name << " is " << sname(c.st) << " but was asked " << ctx);
        }
        else must.insert(c.d.name);
        if (m.plan[c.d.name].count(cb)) { if (state_ok) acceptable = false; }
        if (e != called.end())
        {
          VCHECK(sorted(e->second->start) == sorted(a) && sorted(e->second->stop) == sorted(b), "switch_lists", c.d.name << " got +[" << vh::join(e->second->start) << "] -[" << vh::join(e->second->stop) << "] expected +[" << vh::join(a) << "] -[" << vh::join(b) << "] " << ctx);
          vh::rec().count("asked");
        }
      }
      VCHECK(ret == acceptable, "switch_answer", "answered " << ret << " expected " << acceptable << " " << ctx);
      if (ret) for (auto & n : must) VCHECK(called.count(n), "switch_not_asked", n << " was not asked " << ctx);
      if (start.empty() && stop.empty()) { VCHECK(ret && ev.empty(), "switch_empty", "empty request disturbed something " << ctx); vh::rec().count("empty_requests"); }
      for (auto & c : m.comps) VCHECK(rm->get_components_status().at(c.d.name).state.id() == c.st, "switch_changes_state", "a mode switch changed the state of " << c.d.name << " " << ctx);
      vh::rec().count(ret ? "accepted" : "refused");
      vh::rec().distinct(ctx);
      if (!ret) break;
    }
  }
}

// ---------------------------------------------------------------- C12
void claim_case(Rng & r)
{
  world().reset();
  shim::clock_state().manual = true;
  Model m;
  auto hws = random_hws(r, 1, 3, false, false, 100);
  auto p = params("", 100);
  auto rm = build(r, m, hws, p);
  std::vector<std::string> pool, spool;
  std::map<std::string, Comp *> owner;
  for (auto & c : m.comps)
  {
    for (auto & i : c.d.cifs()) { pool.push_back(i); owner[i] = &c; }
    for (auto & i : c.d.sifs()) spool.push_back(i);
  }
  // references of a controller, one of which is named like an interface of hardware
  bool ref = false, ref_av = false;
  std::map<std::string, std::unique_ptr<hardware_interface::LoanedCommandInterface>> held;
  std::vector<hardware_interface::LoanedStateInterface> states;
  int steps = static_cast<int>(r.range(20, 120));
  std::string hist;
  auto avail = [&](const std::string & i) { if (i == "ctrl/pos") return ref && ref_av; auto o = owner.find(i); return o != owner.end() && o->second->avail; };
  auto all = pool;
  all.push_back("ctrl/pos");
  auto verify = [&]
  {
    for (auto & i : all)
    {
      bool exp = avail(i) && held.count(i);
      VCHECK(rm->command_interface_is_claimed(i) == exp, "claimed_flag", i << " claimed " << rm->command_interface_is_claimed(i) << " expected " << exp << " " << hist);
    }
  };
  for (int k = 0; k < steps; ++k)
  {
    int op = static_cast<int>(r.range(0, 11));
    std::string i = r.pick(all);
    if (op <= 4)
    {
      hist += "claim " + i + "; ";
      bool exp = avail(i) && !held.count(i);
      bool got = false;
      try
      {
        auto l = rm->claim_command_interface(i);
        got = true;
        VCHECK(l.get_name() == i, "claim_name", "claimed " << i << " got " << l.get_name());
        int what = static_cast<int>(r.range(0, 3));
        if (what == 0) { hist += "drop; "; }  // dropped at once
        else if (what == 1 && exp)
        {
          hist += "throw; ";
          try { auto l2 = std::move(l); throw std::logic_error("x"); } catch (const std::logic_error &) {}
          VCHECK(!rm->command_interface_is_claimed(i), "release_on_exception", i << " still claimed after an exception " << hist);
        }
        else if (exp) held[i] = std::make_unique<hardware_interface::LoanedCommandInterface>(std::move(l));
        if (what >= 2 && exp) VCHECK(rm->command_interface_is_claimed(i), "moved_loan_released", i << " was released by moving its loan " << hist);
      }
      catch (const std::runtime_error &) {}
      VCHECK(got == exp, got ? "second_claim" : "claim_refused", "claim of " << i << (got ? " accepted" : " refused") << ", available " << avail(i) << " held " << held.count(i) << " " << hist);
      vh::rec().count(got ? "claims" : "claims_refused");
      if (got != exp) return;
    }
    else if (op <= 7 && !held.empty())
    {
      auto it = held.begin();
      std::advance(it, r.below(held.size()));
      hist += "release " + it->first + "; ";
      if (r.chance(0.3))
      {
        std::vector<hardware_interface::LoanedCommandInterface> v;
        v.push_back(std::move(*it->second));
        it->second.reset();  // the moved-from loan ends: nothing may happen
        VCHECK(!avail(it->first) || rm->command_interface_is_claimed(it->first), "moved_from_released", it->first << " released by a moved-from loan " << hist);
        v.reserve(64);
      }
      held.erase(it);
      vh::rec().count("releases");
    }
    else if (op == 8)
    {
      Comp & c = r.pick(m.comps);
      int t = static_cast<int>(r.range(1, 3));
      auto s = state(t);
      rm->set_component_state(c.d.name, s);
      c.st = t;
      c.avail = t >= 2;
      hist += c.d.name + ">" + sname(t) + "; ";
    }
    else if (op == 9)
    {
      if (!ref)
      {
        hardware_interface::InterfaceInfo ii; ii.name = "pos"; ii.data_type = "double";
        rm->import_controller_reference_interfaces("ctrl", {std::make_shared<hardware_interface::CommandInterface>(hardware_interface::InterfaceDescription("ctrl", ii))});
        ref = true; ref_av = false;
      }
      else if (r.chance(0.3) && !held.count("ctrl/pos"))
      {
        rm->make_controller_reference_interfaces_unavailable("ctrl");
        rm->remove_controller_reference_interfaces("ctrl");
        ref = ref_av = false;
      }
      else
      {
        ref_av = !ref_av;
        if (ref_av) rm->make_controller_reference_interfaces_available("ctrl");
        else rm->make_controller_reference_interfaces_unavailable("ctrl");
      }
      hist += "ref" + std::to_string(ref) + std::to_string(ref_av) + "; ";
    }
    else if (op == 10)
    {
      std::string s = r.pick(spool);
      Comp * o = nullptr;
      for (auto & c : m.comps) for (auto & x : c.d.sifs()) if (x == s) o = &c;
      bool got = false;
      try { states.push_back(rm->claim_state_interface(s)); got = true; VCHECK(states.back().get_name() == s, "state_name", "claimed state " << s << " got " << states.back().get_name()); } catch (const std::runtime_error &) {}
      VCHECK(got == o->avail, "state_claim", "claim of state " << s << " " << got << " expected " << o->avail << " " << hist);
      vh::rec().count("state_claims");
    }
    else
    {
      for (auto bad : {"nobody/x", "", "j0", "j0/position/"})
      {
        bool got = false;
        try { auto l = rm->claim_command_interface(bad); got = true; } catch (const std::runtime_error &) {}
        VCHECK(!got, "unknown_claim", "claimed unknown " << bad);
        try { auto l = rm->claim_state_interface(bad); got = true; } catch (const std::runtime_error &) {}
        VCHECK(!got, "unknown_claim", "claimed unknown state " << bad);
        VCHECK(!rm->command_interface_is_claimed(bad), "unknown_claimed", "unknown interface claimed");
      }
    }
    verify();
  }
  held.clear();
  verify();
  for (auto & i : pool)
    if (avail(i))
    {
      bool got = false;
      try { auto l = rm->claim_command_interface(i); got = true; } catch (const std::runtime_error &) {}
      VCHECK(got, "lost_interface", i << " cannot be claimed any more " << hist);
    }
  vh::rec().distinct(hist);
  if (vh::rec().current() < 3) vh::rec().sample(hist);
}
void claim_stress(Rng & r)
{
  world().reset();
  world().logging = false;
  shim::clock_state().manual = false;
  Model m;
  auto hws = random_hws(r, 1, 2, false, false, 100);
  for (auto & h : hws) if (h.type == "sensor") { h.type = "system"; JointD j; j.name = "jx" + h.name.substr(2); j.cmd = {"position"}; j.st = {"position"}; h.sensors.clear(); h.joints = {j}; }
  auto p = params("", 100);
  auto rm = build(r, m, hws, p);
  std::vector<std::string> pool;
  for (auto & h : hws) { auto s = state(3); rm->set_component_state(h.name, s); for (auto & i : h.cifs()) pool.push_back(i); }
  std::vector<std::atomic<int>> owners(pool.size());
  std::atomic<uint64_t> got{0}, refused{0};
  std::atomic<bool> go{false};
  std::vector<std::thread> th;
  int nt = static_cast<int>(r.range(2, 4));
  for (int t = 0; t < nt; ++t)
  {
    uint64_t s = r.next();
    th.emplace_back([&, s]
    {
      Rng q(s);
      while (!go) std::this_thread::yield();
      for (int k = 0; k < 150; ++k)
      {
        size_t i = q.below(pool.size());
        try
        {
          auto l = rm->claim_command_interface(pool[i]);
          struct Out { std::atomic<int> & o; explicit Out(std::atomic<int> & x) : o(x) {} };
          int n = ++owners[i];
          if (n != 1) vh::rec().violation("two_owners", pool[i] + " has " + std::to_string(n) + " owners");
          if (!rm->command_interface_is_claimed(pool[i])) vh::rec().violation("owned_not_claimed", pool[i] + " is owned but not reported as claimed");
          if (q.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(q.range(0, 30)));
          (void)l.set_value(1.0);
          if (q.chance(0.3)) { auto l2 = std::move(l); std::this_thread::yield(); owners[i]--; }
          else owners[i]--;
          got++;
        }
        catch (const std::runtime_error &) { refused++; }
      }
    });
  }
  go = true;
  for (auto & t : th) t.join();
  for (auto & i : pool)
  {
    bool ok = false;
    try { auto l = rm->claim_command_interface(i); ok = true; } catch (...) {}
    VCHECK(ok && !rm->command_interface_is_claimed(i), "lost_interface", i << " cannot be claimed after all loans ended");
  }
  vh::rec().count("concurrent_claims", got);
  vh::rec().count("concurrent_refusals", refused);
  vh::rec().eval(got + refused);
  vh::rec().distinct("c" + std::to_string(got) + "/" + std::to_string(refused));
}

// ---------------------------------------------------------------- C17
void limit_case(Rng & r)
{
  world().reset();
  auto & cs = shim::clock_state();
  cs.manual = true;
  cs.now_ns = 1000000000;
  int cm = static_cast<int>(r.pick({10, 100, 500}));
  std::vector<HwD> hws;
  int nh = static_cast<int>(r.range(1, 2));
  static const char * jn[] = {"j", "j1", "j10", "j2"};
  int ji = 0;
  bool enforce = r.chance(0.85);
  for (int i = 0; i < nh; ++i)
  {
    HwD h;
    h.name = "hw" + std::to_string(i);
    h.type = "system";
    for (int k = static_cast<int>(r.range(1, 2)); k-- > 0;)
    {
      JointD j;
      j.name = jn[ji++];
      j.limited = r.chance(0.8);
      j.lo = -r.uniform(0.2, 2);
      j.hi = r.uniform(0.2, 2);
      j.vel = r.uniform(0.1, 3);
      j.eff = r.uniform(1, 20);
      j.enable = r.chance(0.85);
      for (auto s : {"position", "velocity", "effort"}) if (r.chance(0.7)) j.st.push_back(s);
      for (auto s : {"position", "velocity", "effort", "acceleration", "torque"}) if (r.chance(0.6)) j.cmd.push_back(s);
      if (j.st.empty()) j.st.push_back("position");
      if (j.cmd.empty()) j.cmd.push_back("position");
      h.joints.push_back(j);
    }
    JointD g; g.name = "io" + std::to_string(i); g.cmd = {"position", "out"}; g.st = {"in"};
    h.gpios.push_back(g);
    hws.push_back(h);
  }
  Model m;
  auto p = params("", cm);
  auto infos = hardware_interface::parse_control_resources_from_urdf(urdf(hws));
  auto rm = build(r, m, hws, p, enforce);
  std::map<std::string, lm::Model> lim;
  std::map<std::string, JointD> joints;
  for (size_t i = 0; i < hws.size(); ++i)
    for (auto & j : hws[i].joints)
    {
      joints[j.name] = j;
      if (enforce && j.enable && infos[i].limits.count(j.name)) { lm::Model x; x.l = infos[i].limits.at(j.name); lim[j.name] = x; }
    }
  for (auto & h : hws) { auto s = state(3); rm->set_component_state(h.name, s); }
  std::map<std::string, std::unique_ptr<hardware_interface::LoanedCommandInterface>> held;
  std::map<std::string, double> cmd, act;
  auto claim_some = [&]
  {
    held.clear();
    std::vector<std::string> start, stop;
    for (auto & h : hws)
      for (auto & i : h.cifs())
        if (r.chance(0.6)) { held[i] = std::make_unique<hardware_interface::LoanedCommandInterface>(rm->claim_command_interface(i)); start.push_back(i); }
    if (r.chance(0.7) && !start.empty())
    {
      bool ok = rm->prepare_command_mode_switch(start, stop) && rm->perform_command_mode_switch(start, stop);
      VCHECK(ok, "switch_refused", "mode switch refused");
      for (auto & [n, x] : lim) x.reset();
    }
  };
  auto key = [](const std::string & i) { return i.substr(0, i.find('/')); };
  auto itf = [](const std::string & i) { return i.substr(i.find('/') + 1); };
  auto slot = [](joint_limits::JointControlInterfacesData & d, const std::string & n) -> std::optional<double> *
  {
    return n == "position" ? &d.position : n == "velocity" ? &d.velocity : n == "effort" ? &d.effort : n == "acceleration" ? &d.acceleration : nullptr;
  };
  auto actual = [&](const std::string & j)
  {
    joint_limits::JointControlInterfacesData d;
    for (auto & s : joints[j].st) if (auto * o = slot(d, s)) *o = act.count(j + "/" + s) ? act[j + "/" + s] : std::nan("");
    return d;
  };
  claim_some();
  std::map<std::string, double> pos;
  for (auto & [n, j] : joints) pos[n] = r.uniform(j.lo, j.hi);
  bool wild = r.chance(0.3);
  int steps = static_cast<int>(r.range(10, 60));
  std::string hist = "cm " + std::to_string(cm) + (enforce ? " enforcing " : " not enforcing ");
  for (auto & [n, j] : joints) hist += n + (j.limited ? "[" + vh::num(j.lo) + "," + vh::num(j.hi) + "] v" + vh::num(j.vel) + " " : " continuous ") + (j.enable ? "" : "disabled ");
  for (int k = 0; k < steps; ++k)
  {
    cs.now_ns += static_cast<int64_t>(1e9 / cm);
    rclcpp::Time now(cs.now_ns.load(), RCL_STEADY_TIME);
    rclcpp::Duration per = rclcpp::Duration::from_nanoseconds(static_cast<int64_t>(1e9 / cm * r.uniform(0.5, 1.5)));
    // measured state
    for (auto & h : hws)
    {
      auto sc = world().script(h.name);
      for (auto & j : h.joints)
        for (auto & s : j.st)
        {
          double v = s == "position" ? pos[j.name] : s == "velocity" ? r.uniform(-1, 1) * j.vel : r.uniform(-1, 1);
          if (s == "position" && wild && r.chance(0.05)) v = r.uniform(2 * j.lo, 2 * j.hi);
          std::lock_guard<std::mutex> l(world().m);
          sc->states[j.name + "/" + s] = v;
          act[j.name + "/" + s] = v;
        }
    }
    rm->read(now, per);
    if (r.chance(0.05)) { claim_some(); hist += "[reclaim]"; }
    bool stop_case = false;
    std::map<std::string, double> wrote;
    for (auto & [i, l] : held)
    {
      if (r.chance(0.2)) continue;
      double v = r.pick({r.uniform(-1, 1), r.uniform(-1, 1) * 100, r.uniform(-0.01, 0.01), std::nan(""), 1e300, -1e300, 0.0});
      auto j = key(i);
      auto n = itf(i);
      bool limited = lim.count(j) && n != "torque";
      double exp = v;
      bool exp_throw = false;
      if (limited)
      {
        joint_limits::JointControlInterfacesData want;
        *slot(want, n) = v;
        auto res = lim[j].step(actual(j), want, rclcpp::Duration::from_seconds(1.0 / cm).seconds());
        exp_throw = res.thrown;
        exp = **slot(res.out, n);
      }
      bool ok = false, threw = false;
      try { ok = l->set_value(v); } catch (const std::runtime_error &) { threw = true; }
      VCHECK(threw == exp_throw, "set_throws", "writing " << v << " to " << i << (threw ? " threw" : " did not throw") << " " << hist);
      if (threw || exp_throw) { if (threw != exp_throw) stop_case = true; continue; }
      VCHECK(ok, "set_refused", "value not accepted for " << i);
      cmd[i] = exp;
      wrote[i] = v;
      double got = l->get_optional().value();
      bool close = vh::same_bits(got, exp) || std::fabs(got - exp) <= 1e-9 * std::max(1.0, std::fabs(exp));
      VCHECK(close, limited ? "set_limited" : "set_changed", "wrote " << v << " to " << i << ", stored " << got << " expected " << exp << " " << hist);
      if (!close) stop_case = true;
    }
    if (stop_case) return;
    // enforcement over all claimed interfaces of a joint
    bool exp_throw = false, threw = false;
    std::map<std::string, double> after = cmd;
    bool exp_any = false;
    std::map<std::string, lm::Model> saved = lim;
    for (auto & [j, x] : lim)
    {
      joint_limits::JointControlInterfacesData want;
      for (auto n : {"position", "velocity", "effort", "acceleration"})
        if (held.count(j + "/" + n)) *slot(want, n) = cmd.count(j + "/" + n) ? cmd[j + "/" + n] : std::nan("");
      auto res = x.step(actual(j), want, per.seconds());
      if (res.thrown) { exp_throw = true; continue; }
      exp_any |= res.changed;
      for (auto n : {"position", "velocity", "effort", "acceleration"})
        if (held.count(j + "/" + n)) after[j + "/" + n] = **slot(res.out, n);
    }
    bool any = false;
    try { any = rm->enforce_command_limits(per); } catch (const std::runtime_error &) { threw = true; }
    VCHECK(threw == exp_throw, "enforce_throws", "enforce_command_limits " << (threw ? "threw" : "did not throw") << " " << hist);
    if (threw || exp_throw) { vh::rec().count("refused_cycles"); return; }
    VCHECK(any == exp_any, "enforce_reports", "enforce_command_limits returned " << any << " expected " << exp_any << " " << hist);
    cmd = after;
    for (auto & h : hws) { auto sc = world().script(h.name); std::lock_guard<std::mutex> l(world().m); sc->seen_commands.clear(); }
    rm->write(now, per);
    for (auto & h : hws)
    {
      auto seen = world().script(h.name)->seen_commands;
      for (auto & i : h.cifs())
      {
        VCHECK(seen.count(i), "not_written", i << " was not seen by write");
        double exp = cmd.count(i) ? cmd[i] : std::nan("");
        double got = seen[i];
        auto j = key(i);
        auto n = itf(i);
        bool close = vh::same_bits(got, exp) || std::fabs(got - exp) <= 1e-9 * std::max(1.0, std::fabs(exp));
        if (!lim.count(j) || n == "torque") { VCHECK(vh::same_bits(got, exp), "unlimited_changed", i << " reached hardware as " << got << " written " << exp << " " << hist); vh::rec().count("passed"); }
        else
        {
          VCHECK(close, "limited_value", i << " reached hardware as " << got << " expected " << exp << " step " << k << " " << hist);
          vh::rec().count("limited_seen");
          // stand-alone bounds
          if (held.count(i) && !std::isnan(got))
          {
            const auto & l = lim[j].l;
            double e = 1e-9;
            if (n == "position" && l.has_position_limits) VCHECK(got >= l.min_position - e && got <= l.max_position + e, "position_bound", i << " = " << got << " outside [" << l.min_position << "," << l.max_position << "] " << hist);
            if (n == "velocity" && l.has_velocity_limits) VCHECK(std::fabs(got) <= l.max_velocity + e, "velocity_bound", i << " = " << got << " above " << l.max_velocity << " " << hist);
            if (n == "effort" && l.has_effort_limits) VCHECK(std::fabs(got) <= l.max_effort + e, "effort_bound", i << " = " << got << " above " << l.max_effort << " " << hist);
            if (wrote.count(i) && !vh::same_bits(wrote[i], got)) vh::rec().count("changed_by_limits");
          }
          if (!close) return;
        }
        vh::rec().distinct(i + vh::num(got));
      }
    }
    // the joints follow
    for (auto & [n, j] : joints)
    {
      if (cmd.count(n + "/position") && std::isfinite(cmd[n + "/position"]) && std::fabs(cmd[n + "/position"]) < 10) pos[n] += 0.7 * (cmd[n + "/position"] - pos[n]);
      pos[n] = std::min(std::max(pos[n], j.lo), j.hi);
    }
  }
  if (vh::rec().current() < 2) vh::rec().sample(hist);
}
}  // namespace
int main(int argc, char ** argv)
{
  register_plugins();
  return vh::run_cases(argc, argv, [](Rng & r, uint64_t, const vh::Args & a)
  {
    if (a.mode == "avail") avail_case(r);
    else if (a.mode == "cycle") cycle_case(r);
    else if (a.mode == "cycle_stress") cycle_stress(r);
    else if (a.mode == "switch") switch_case(r);
    else if (a.mode == "claim") claim_case(r);
    else if (a.mode == "claim_stress") claim_stress(r);
    else if (a.mode == "limit") limit_case(r);
  });
}
