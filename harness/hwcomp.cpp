// C13: lifecycle of hardware components (Actuator/Sensor/System wrappers), synchronous and asynchronous.
#include "hwfake.hpp"
#include "hardware_interface/actuator.hpp"
#include "hardware_interface/sensor.hpp"
#include "hardware_interface/system.hpp"
#include "hardware_interface/hardware_component.hpp"
#include "hardware_interface/component_parser.hpp"
using namespace hwf;
using vh::Rng;
using hardware_interface::HardwareComponent;
namespace
{
HwD random_hw(Rng & r, const std::string & name)
{
  HwD h;
  h.name = name;
  h.type = r.pick({"actuator", "sensor", "system"});
  int nj = h.type == "system" ? static_cast<int>(r.range(1, 3)) : 1;
  for (int i = 0; i < nj; ++i)
  {
    JointD j;
    j.name = name + "_j" + std::to_string(i);
    for (auto s : {"position", "velocity", "effort", "custom"}) if (r.chance(0.5)) j.st.push_back(s);
    if (h.type != "sensor") for (auto s : {"position", "velocity", "effort", "mode"}) if (r.chance(0.5)) j.cmd.push_back(s);
    if (j.st.empty()) j.st.push_back("position");
    if (h.type != "sensor" && j.cmd.empty()) j.cmd.push_back("position");
    if (h.type == "sensor") { if (r.chance(0.7)) { h.sensors.push_back(j); continue; } }
    h.joints.push_back(j);
  }
  if (h.type == "system" && r.chance(0.5)) { JointD g; g.name = name + "_io"; g.cmd = {"out"}; g.st = {"in", "out"}; h.gpios.push_back(g); }
  if (h.type == "sensor" && r.chance(0.3) && h.sensors.empty()) { JointD g; g.name = name + "_s"; g.st = {"x"}; h.sensors.push_back(g); }
  return h;
}
std::unique_ptr<HardwareComponent> make(const HwD & h)
{
  std::unique_ptr<hardware_interface::HardwareComponentInterface> i;
  if (h.type == "actuator") i = std::make_unique<FakeActuator>();
  else if (h.type == "sensor") i = std::make_unique<FakeSensor>();
  else i = std::make_unique<FakeSystem>();
  HardwareComponent c(std::move(i));
  return std::make_unique<HardwareComponent>(std::move(c));
}
std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }

void sync_case(Rng & r)
{
  world().reset();
  HwD d = random_hw(r, "hw");
  auto infos = hardware_interface::parse_control_resources_from_urdf(urdf({d}));
  Comp m;
  m.d = d;
  m.st = 0;
  std::map<std::string, std::map<std::string, int>> plan;
  auto sc = world().script("hw");
  auto clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  shim::clock_state().manual = true;
  shim::clock_state().now_ns = 1000000000;
  auto hw = make(d);
  std::vector<std::string> cexp, sexp;
  std::string hist;
  int steps = static_cast<int>(r.range(5, 60));
  for (int k = 0; k < steps; ++k)
  {
    // answers for this request
    plan.clear();
    sc->plan.clear();
    double bad = r.pick({0.0, 0.15, 0.5});
    for (auto cb : {"init", "configure", "cleanup", "shutdown", "activate", "deactivate", "error"})
      if (r.chance(bad)) sc->plan[cb] = plan["hw"][cb] = static_cast<int>(r.range(1, 4));
    for (auto cb : {"read", "write"})
      if (r.chance(bad * 0.6)) sc->plan[cb] = plan["hw"][cb] = static_cast<int>(r.range(1, 4));
    std::string op = k == 0 ? "init" : r.pick({"init", "configure", "configure", "cleanup", "shutdown", "activate", "activate", "activate", "deactivate", "deactivate", "error", "read", "read", "write", "write"});
    if (op == "shutdown" && r.chance(0.6)) op = "configure";
    if (k == 0 && r.chance(0.8)) { sc->plan.erase("init"); plan["hw"].erase("init"); }
    hist += op + " ";
    shim::clock_state().now_ns += r.range(1, 100000000);
    rclcpp::Time now = clock->now();
    rclcpp::Duration per = rclcpp::Duration::from_nanoseconds(r.range(1, 20000000));
    world().take();
    // expectation
    Sim sim;
    sim.plan = &plan;
    bool exp_throw = false;
    RT exp_ret = RT::OK;
    const int before = m.st;
    try
    {
      if (op == "init")
      {
        if (m.st == 0)
        {
          int a = sim.ans(m, "init");
          if (a >= 3) throw Sim::Thrown{a};
          m.st = a == 0 ? 1 : 4;
        }
      }
      else if (op == "error") sim.error(m);
      else if (op == "read" || op == "write")
      {
        bool called = op == "read" ? (m.st == 2 || m.st == 3) : (m.st == 3 && !m.is_sensor());
        if (called)
        {
          int a = sim.ans(m, op);
          if (a >= 3) throw Sim::Thrown{a};
          exp_ret = a == 0 ? RT::OK : a == 1 ? RT::ERROR : RT::DEACTIVATE;
          if (a == 1) sim.error(m);
        }
      }
      else sim.go(m, op);
    }
    catch (const Sim::Thrown &) { exp_throw = true; }
    // real
    bool thrown = false;
    RT ret = RT::OK;
    int reported = -1;
    try
    {
      if (op == "init")
      {
        hardware_interface::HardwareComponentParams p;
        p.hardware_info = infos[0];
        p.clock = clock;
        reported = hw->initialize(p).id();
      }
      else if (op == "configure") reported = hw->configure().id();
      else if (op == "cleanup") reported = hw->cleanup().id();
      else if (op == "shutdown") reported = hw->shutdown().id();
      else if (op == "activate") reported = hw->activate().id();
      else if (op == "deactivate") reported = hw->deactivate().id();
      else if (op == "error") reported = hw->error().id();
      else if (op == "read") ret = hw->read(now, per);
      else ret = hw->write(now, per);
    }
    catch (...) { thrown = true; }
    auto ev = world().take();
    std::string ctx = "type=" + d.type + " op=" + op + " from " + sname(before) + " plan:";
    for (auto & [a, b] : plan["hw"]) ctx += " " + a + "=" + std::to_string(b);
    ctx += " history: " + hist;
    auto brief = [](const std::vector<Ev> & v) { std::string s; for (auto & e : v) s += e.cb + "@" + sname(e.st) + " "; return s; };
    // an init that throws leaves a component that was never initialised
    VCHECK(brief(ev) == brief(sim.ev), "callbacks", "callbacks [" << brief(ev) << "] expected [" << brief(sim.ev) << "] " << ctx);
    int id = hw->get_lifecycle_id();
    VCHECK(id == m.st, "state", "state " << sname(id) << " expected " << sname(m.st) << " " << ctx);
    VCHECK(hw->get_lifecycle_state().id() == id && hw->get_lifecycle_state().label() == sname(id), "state_label", "state object " << int(hw->get_lifecycle_state().id()) << "/" << hw->get_lifecycle_state().label() << " id " << id << " " << ctx);
    VCHECK(thrown == exp_throw, "exception", (thrown ? "exception escaped " : "exception swallowed ") << ctx);
    if (!thrown && reported >= 0) VCHECK(reported == m.st, "returned_state", "returned " << reported << " expected " << m.st << " " << ctx);
    if (!thrown && (op == "read" || op == "write")) VCHECK(ret == exp_ret, "cycle_result", "result " << int(ret) << " expected " << int(exp_ret) << " " << ctx);
    if (op == "read" || op == "write")
    {
      for (auto & e : ev)
        if (e.cb == op) VCHECK(e.t == now.nanoseconds() && e.period == per.nanoseconds(), "cycle_args", "time/period passed on as " << e.t << "/" << e.period << " given " << now.nanoseconds() << "/" << per.nanoseconds() << " " << ctx);
    }
    vh::rec().count("ops");
    if (ev.size() > 1) vh::rec().count("multi_callback_ops");
    if (m.st == 4 && before == 4) vh::rec().count("ops_on_finalized");
    vh::rec().distinct(d.type + op + std::to_string(before) + std::to_string(m.st) + brief(ev) + (thrown ? "T" : ""));
    if (id != m.st) return;
    if (op == "init" && m.st == 1 && before == 0)
    {
      auto ss = hw->export_state_interfaces();
      auto cs = d.type == "sensor" ? std::vector<hardware_interface::CommandInterface::SharedPtr>() : hw->export_command_interfaces();
      std::vector<std::string> a, b;
      for (auto & x : ss) a.push_back(x->get_name());
      for (auto & x : cs) b.push_back(x->get_name());
      VCHECK(sorted(a) == sorted(d.sifs()), "exported_states", "exported " << vh::join(a) << " declared " << vh::join(d.sifs()));
      VCHECK(sorted(b) == sorted(d.cifs()), "exported_commands", "exported " << vh::join(b) << " declared " << vh::join(d.cifs()));
      VCHECK(hw->get_name() == d.name && hw->get_group_name() == d.group, "name", "name " << hw->get_name() << " group " << hw->get_group_name());
    }
  }
  if (vh::rec().current() < 3) vh::rec().sample(d.type + ": " + hist + " -> " + sname(m.st));
}

// asynchronous components: cycles run in their own thread, never in a state that forbids them and never concurrently with themselves or a transition
void async_case(Rng & r)
{
  world().reset();
  shim::clock_state().manual = false;
  HwD d = random_hw(r, "hw");
  d.async = true;
  auto infos = hardware_interface::parse_control_resources_from_urdf(urdf({d}));
  infos[0].rw_rate = 100;
  infos[0].async_params.print_warnings = false;
  auto sc = world().script("hw");
  sc->delay_us = static_cast<int>(r.range(0, 300));
  auto clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  auto hw = make(d);
  hardware_interface::HardwareComponentParams p;
  p.hardware_info = infos[0];
  p.clock = clock;
  hw->initialize(p);
  std::atomic<bool> stop{false};
  // reader of the state, as the listing services do
  std::thread obs([&] { while (!stop) { auto s = hw->get_lifecycle_id(); if (s > 4) vh::rec().violation("state", "odd state"); auto st = hw->get_lifecycle_state(); std::this_thread::sleep_for(std::chrono::microseconds(50)); } });
  int steps = static_cast<int>(r.range(20, 60));
  uint64_t reads = 0, writes = 0;
  for (int k = 0; k < steps; ++k)
  {
    world().set(sc, "read", 0);
    world().set(sc, "write", 0);
    int op = static_cast<int>(r.range(0, 9));
    int before = hw->get_lifecycle_id();
    if (op == 0) hw->configure();
    else if (op == 1) hw->activate();
    else if (op == 2) hw->deactivate();
    else if (op == 3) hw->cleanup();
    if (before == 1 && r.chance(0.7)) hw->configure();
    if (before == 2 && r.chance(0.7)) hw->activate();
    int n = static_cast<int>(r.range(1, 6));
    for (int i = 0; i < n; ++i)
    {
      std::lock_guard<std::recursive_mutex> l(hw->get_mutex());
      try
      {
        hw->read(clock->now(), rclcpp::Duration::from_nanoseconds(1000000));
        if (d.type != "sensor") hw->write(clock->now(), rclcpp::Duration::from_nanoseconds(1000000));
      }
      catch (...) {}
      if (r.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.range(1, 600)));
    }
    if (r.chance(0.15))
    {
      // one failing cycle; it must be reported and the component leaves service within a few cycles
      bool rd = d.type == "sensor" || r.chance(0.5) || hw->get_lifecycle_id() != 3;
      int st = hw->get_lifecycle_id();
      if (st == 2 || st == 3)
      {
        world().set(sc, rd ? "read" : "write", 1);
        bool seen = false;
        for (int i = 0; i < 400 && !seen; ++i)
        {
          RT a = hw->read(clock->now(), rclcpp::Duration::from_nanoseconds(1000000)), b = RT::OK;
          if (a == RT::OK && d.type != "sensor") b = hw->write(clock->now(), rclcpp::Duration::from_nanoseconds(1000000));
          seen = a == RT::ERROR || b == RT::ERROR;
          std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
        VCHECK(seen, "async_failure_hidden", "a failing asynchronous " << (rd ? "read" : "write") << " was never reported, type " << d.type);
        VCHECK(hw->get_lifecycle_id() == 1, "async_failure_state", "after a failing asynchronous cycle the state is " << sname(hw->get_lifecycle_id()));
        world().set(sc, rd ? "read" : "write", 0);
        vh::rec().count("async_failures");
        // back in service: an old failure must not be reported again
        hw->configure();
        bool again = false;
        for (int i = 0; i < 5; ++i)
        {
          again |= hw->read(clock->now(), rclcpp::Duration::from_nanoseconds(1000000)) == RT::ERROR;
          std::this_thread::sleep_for(std::chrono::microseconds(100 + sc->delay_us));
        }
        VCHECK(!again, "async_stale_failure", "a failure from before the component was configured again is reported as a new one");
      }
    }
  }
  stop = true;
  obs.join();
  int last = hw->get_lifecycle_id();
  (void)last;
  hw.reset();
  for (auto & e : world().take())
  {
    if (e.cb == "read") { reads++; VCHECK(e.st == 2 || e.st == 3, "async_read_state", "asynchronous read in state " << sname(e.st)); }
    if (e.cb == "write") { writes++; VCHECK(e.st == 3 && d.type != "sensor", "async_write_state", "asynchronous write in state " << sname(e.st) << " type " << d.type); }
  }
  VCHECK(sc->live == 0, "async_leak", "component still alive");
  vh::rec().count("async_reads", reads);
  vh::rec().count("async_writes", writes);
  vh::rec().distinct("async" + std::to_string(reads) + "/" + std::to_string(writes));
}
}  // namespace
int main(int argc, char ** argv)
{
  return vh::run_cases(argc, argv, [](Rng & r, uint64_t, const vh::Args & a)
  {
    if (a.mode == "async") async_case(r);
    else for (int i = 0; i < 4; ++i) sync_case(r);
  });
}
