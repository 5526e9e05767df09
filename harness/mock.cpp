// C18 mock hardware (GenericSystem) behind the real resource manager, compared with a reference model of its documentation.
#include "common.hpp"
#include <cmath>
#include <limits>
#include "pluginlib/class_loader.hpp"
#include "mock_components/generic_system.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "hardware_interface/types/hardware_interface_type_values.hpp"
#include "hardware_interface/types/resource_manager_params.hpp"
using vh::Rng;
using hardware_interface::LoanedCommandInterface;
using hardware_interface::LoanedStateInterface;
namespace
{
const double NaN = std::numeric_limits<double>::quiet_NaN();
struct If
{
  std::string name, type = "double";
  bool has_init = false;
  double init = 0;
};
struct Part
{
  std::string kind, name;
  std::vector<If> cmd, st;
  int mimic = -1;
  double mult = 1, off = 0;
};
struct Sys
{
  std::string name;
  bool dyn = false, disabled = false, msens = false, mgpio = false, explicit_params = false;
  double offset = 0;
  bool has_offset = false;
  std::string custom;
  std::vector<Part> parts;
  // model
  std::map<std::string, double> st, cmd;
  std::map<std::string, std::string> type;
  std::map<std::string, std::set<int>> mode;  // possible control modes (0 position 1 velocity 2 acceleration)
  int life = 1;
};
bool has(const std::vector<If> & v, const std::string & n) { for (auto & i : v) if (i.name == n) return true; return false; }
std::string num(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
std::string ifx(const char * tag, const If & i)
{
  std::string s = std::string("<") + tag + " name=\"" + i.name + "\"" + (i.type == "double" ? "" : " data_type=\"" + i.type + "\"") + ">";
  if (i.has_init) s += "<param name=\"initial_value\">" + (i.type == "bool" ? std::string(i.init != 0 ? "true" : "false") : num(i.init)) + "</param>";
  return s + "</" + tag + ">";
}
std::string describe(const std::vector<Sys> & v)
{
  std::string o = "<?xml version=\"1.0\"?>\n<robot name=\"r\"><link name=\"world\"/>\n";
  for (auto & s : v)
    for (auto & p : s.parts)
      if (p.kind == "joint")
      {
        o += "<link name=\"l_" + p.name + "\"/><joint name=\"" + p.name + "\" type=\"continuous\"><parent link=\"world\"/><child link=\"l_" + p.name + "\"/>";
        if (p.mimic >= 0)
          o += "<mimic joint=\"" + s.parts[static_cast<size_t>(p.mimic)].name + "\" multiplier=\"" + num(p.mult) + "\" offset=\"" + num(p.off) + "\"/>";
        o += "</joint>\n";
      }
  for (auto & s : v)
  {
    o += "<ros2_control name=\"" + s.name + "\" type=\"system\"><hardware><plugin>mock_components/GenericSystem</plugin>";
    auto par = [&](const char * n, bool b) { if (b || s.explicit_params) o += std::string("<param name=\"") + n + "\">" + (b ? "true" : "false") + "</param>"; };
    par("calculate_dynamics", s.dyn);
    par("disable_commands", s.disabled);
    par("mock_sensor_commands", s.msens);
    par("mock_gpio_commands", s.mgpio);
    if (s.has_offset) o += "<param name=\"position_state_following_offset\">" + num(s.offset) + "</param>";
    if (!s.custom.empty()) o += "<param name=\"custom_interface_with_following_offset\">" + s.custom + "</param>";
    o += "</hardware>\n";
    for (auto & p : s.parts)
    {
      o += "<" + p.kind + " name=\"" + p.name + "\">";
      for (auto & i : p.cmd) o += ifx("command_interface", i);
      for (auto & i : p.st) o += ifx("state_interface", i);
      o += "</" + p.kind + ">\n";
    }
    o += "</ros2_control>\n";
  }
  return o + "</robot>\n";
}
const char * STD3[] = {"position", "velocity", "acceleration"};
std::vector<Sys> generate(Rng & r)
{
  std::vector<Sys> v;
  int n = r.chance(0.3) ? 2 : 1;
  // names that contain each other, on purpose
  std::vector<std::string> pool = {"joint1", "joint10", "joint", "my_joint1", "j", "arm/joint1", "arm", "tool0", "tool", "joint1_b"};
  r.shuffle(pool);
  size_t at = 0;
  for (int k = 0; k < n; ++k)
  {
    Sys s;
    s.name = "mock" + std::to_string(k);
    s.dyn = r.chance(0.5);
    s.disabled = r.chance(0.08);
    s.msens = r.chance(0.4);
    s.mgpio = r.chance(0.4);
    s.explicit_params = r.chance(0.5);
    if (r.chance(0.4)) { s.has_offset = true; s.offset = r.chance(0.2) ? 0.0 : r.uniform(-3, 3); }
    bool use_custom = s.has_offset && r.chance(0.5);
    if (use_custom) s.custom = "actual_position";
    bool custom_exists = r.chance(0.8);
    int nj = static_cast<int>(r.range(1, 4));
    for (int j = 0; j < nj; ++j)
    {
      Part p;
      p.kind = "joint";
      p.name = pool[at++];
      bool mimic = j > 0 && r.chance(0.3);
      for (auto i : {"position", "velocity", "acceleration", "effort", "torque_sensor"})
      {
        double pc = std::string(i) == "position" || std::string(i) == "velocity" ? 0.6 : 0.3;
        if (!mimic && r.chance(pc)) p.cmd.push_back({i});
        if (r.chance(pc + 0.2)) { If f{i}; if (r.chance(0.4)) { f.has_init = true; f.init = r.uniform(-5, 5); } p.st.push_back(f); }
      }
      if (r.chance(0.3)) { if (!mimic && r.chance(0.7)) p.cmd.push_back({"brake", "bool"}); p.st.push_back({"brake", "bool", r.chance(0.5), r.chance(0.5) ? 1.0 : 0.0}); }
      if (r.chance(0.15)) { p.st.push_back({"counter", "int32"}); if (!mimic) p.cmd.push_back({"counter", "int32"}); }
      if (use_custom && custom_exists && r.chance(0.6)) p.st.push_back({s.custom});
      if (mimic)
      {
        std::vector<int> c;
        for (int q = 0; q < j; ++q) if (s.parts[static_cast<size_t>(q)].mimic < 0) c.push_back(q);
        p.mimic = r.pick(c);
        p.mult = r.pick({1.0, -1.0, 2.5, 0.0, -0.3});
        p.off = r.pick({0.0, 0.7, -1.2});
      }
      if (p.st.empty()) p.st.push_back({"position"});
      r.shuffle(p.cmd);
      r.shuffle(p.st);
      s.parts.push_back(p);
    }
    // a mimic joint may be declared before the joint it follows
    if (nj > 1 && r.chance(0.3))
    {
      int a = 0, b = nj - 1;
      std::swap(s.parts[static_cast<size_t>(a)], s.parts[static_cast<size_t>(b)]);
      for (auto & p : s.parts) if (p.mimic == a) p.mimic = b; else if (p.mimic == b) p.mimic = a;
    }
    int nsens = static_cast<int>(r.range(0, 2)), ng = static_cast<int>(r.range(0, 2));
    for (int q = 0; q < nsens; ++q)
    {
      Part p;
      p.kind = "sensor";
      p.name = "sens" + std::to_string(k) + std::to_string(q);
      for (auto i : {"fx", "fy", "position"}) if (r.chance(0.6)) p.st.push_back({i, "double", r.chance(0.3), r.uniform(-5, 5)});
      if (r.chance(0.3)) p.st.push_back({"contact", "bool", r.chance(0.3), 1.0});
      if (p.st.empty()) p.st.push_back({"fz"});
      s.parts.push_back(p);
    }
    for (int q = 0; q < ng; ++q)
    {
      Part p;
      p.kind = "gpio";
      p.name = r.chance(0.3) ? s.parts[0].name + "_io" + std::to_string(k) + std::to_string(q) : "io" + std::to_string(k) + std::to_string(q);
      for (auto i : {"analog", "vacuum", "velocity"})
      {
        if (r.chance(0.5)) p.cmd.push_back({i});
        if (r.chance(0.6)) p.st.push_back({i, "double", r.chance(0.3), r.uniform(-5, 5)});
      }
      if (r.chance(0.4)) { if (r.chance(0.6)) p.cmd.push_back({"on", "bool"}); p.st.push_back({"on", "bool", r.chance(0.3), 1.0}); }
      if (p.st.empty()) p.st.push_back({"raw"});
      s.parts.push_back(p);
    }
    for (auto & p : s.parts)
    {
      for (auto & i : p.cmd) { s.cmd[p.name + "/" + i.name] = i.type == "double" ? NaN : i.type == "bool" ? 0 : 2147483647.0; s.type[p.name + "/" + i.name] = i.type; }
      for (auto & i : p.st)
      {
        auto f = p.name + "/" + i.name;
        s.type[f] = i.type;
        s.st[f] = i.has_init ? i.init : i.type == "double" ? NaN : i.type == "bool" ? 0 : 2147483647.0;
        if ((p.kind == "sensor" && s.msens) || (p.kind == "gpio" && s.mgpio))
          // a mocked command starts with the same initial value as the state it stands for
          if (!s.cmd.count(f)) s.cmd[f] = s.st[f];
      }
      if (p.kind == "joint") s.mode[p.name] = {0};
    }
    v.push_back(s);
  }
  return v;
}
void configure(Sys & s)
{
  for (auto & p : s.parts)
    if (p.kind == "joint")
      for (auto & i : p.st)
        if (i.type == "double")
        {
          double & x = s.st[p.name + "/" + i.name];
          if (std::isnan(x)) x = 0.0;
          if (i.name == "position" && s.custom.empty()) x += s.offset;
        }
}
// one cycle; returns false when the cycle has to be reported as failed. Joints whose outcome depends on an unknown mode are tried
// with the given mode
bool cycle(Sys & s, double dt, const std::map<std::string, int> & mode)
{
  if (s.disabled) return true;
  bool ok = true;
  auto get = [](std::map<std::string, double> & m, const std::string & k) { auto i = m.find(k); return i == m.end() ? NaN : i->second; };
  double off = s.custom.empty() ? s.offset : 0.0;
  auto mirror = [&](const std::string & f)
  {
    if (s.type[f] == "int32") return;
    double c = get(s.cmd, f);
    if (std::isinf(c)) { ok = false; return; }
    if (!std::isnan(c)) s.st[f] = c;
  };
  for (auto & p : s.parts)
  {
    if (p.kind != "joint") continue;
    auto P = p.name + "/position", V = p.name + "/velocity", A = p.name + "/acceleration";
    double cp = get(s.cmd, P), cv = get(s.cmd, V), ca = get(s.cmd, A);
    double x = get(s.st, P), v = get(s.st, V), a = get(s.st, A);
    if (s.dyn)
    {
      switch (mode.at(p.name))
      {
        case 2:
          if (std::isnan(v)) v = 0;
          if (std::isfinite(ca)) a = ca;
          if (!std::isnan(a)) v += a * dt;
          x += v * dt;
          break;
        case 1:
          if (std::isfinite(cv)) { double o = std::isfinite(v) ? v : 0; v = cv; a = (v - o) / dt; }
          if (std::isfinite(v)) x += v * dt;
          break;
        default:
          if (std::isfinite(cp))
          {
            double ox = x, ov = std::isfinite(v) ? v : 0;
            x = cp + off;
            v = (x - ox) / dt;
            a = (v - ov) / dt;
          }
      }
      auto put = [&](const std::string & k, double d) { if (s.st.count(k) && std::isfinite(d)) s.st[k] = d; };
      put(P, x), put(V, v), put(A, a);
    }
    else if (std::isfinite(cp) && s.st.count(P)) s.st[P] = cp + off;
  }
  for (auto & p : s.parts)
  {
    if (p.kind != "joint") continue;
    for (auto & i : p.st)
    {
      auto f = p.name + "/" + i.name;
      if (i.name == "position" || (s.dyn && (i.name == "velocity" || i.name == "acceleration"))) continue;
      if (s.cmd.count(f)) mirror(f);
      if (i.name == s.custom)
      {
        double c = get(s.cmd, p.name + "/position");
        if (std::isfinite(c)) s.st[f] = c + s.offset;
      }
    }
  }
  for (auto & p : s.parts)
    if (p.mimic >= 0)
      for (auto i : STD3)
      {
        auto f = p.name + "/" + i, g = s.parts[static_cast<size_t>(p.mimic)].name + "/" + i;
        if (s.st.count(f) && s.st.count(g)) s.st[f] = (std::string(i) == "position" ? p.off : 0.0) + p.mult * s.st[g];
      }
  for (auto & p : s.parts)
  {
    if (p.kind == "joint") continue;
    for (auto & i : p.st)
    {
      auto f = p.name + "/" + i.name;
      if (s.cmd.count(f)) mirror(f);
    }
  }
  return ok;
}
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-7 * std::max(1.0, std::fabs(b)); }

void run(Rng & r)
{
  auto sys = generate(r);
  auto text = describe(sys);
  hardware_interface::ResourceManagerParams p;
  p.robot_description = text;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.update_rate = 100;
  p.activate_all = true;
  std::unique_ptr<hardware_interface::ResourceManager> rm;
  try { rm = std::make_unique<hardware_interface::ResourceManager>(p, true); }
  catch (const std::exception & e)
  {
    VCHECK(false, "not_loaded", "the description is refused: " << e.what() << "\n" << text);
    return;
  }
  std::string hist;
  auto ctx = [&] { return "history: " + hist + "\n" + text; };
  auto state = [&](Sys & s, int id)
  {
    static const char * names[] = {"unknown", "unconfigured", "inactive", "active", "finalized"};
    auto t = rclcpp_lifecycle::State(static_cast<uint8_t>(id), names[id]);
    auto ret = rm->set_component_state(s.name, t);
    VCHECK(ret == hardware_interface::return_type::OK, "state_request", s.name << " cannot be made " << names[id] << " " << ctx());
    s.life = id;
  };
  std::map<std::string, std::unique_ptr<LoanedCommandInterface>> lc;
  std::map<std::string, std::unique_ptr<LoanedStateInterface>> ls;
  bool complete = true;
  auto claim = [&](Sys & s)
  {
    for (auto & [n, x] : s.cmd)
      try { lc[n] = std::make_unique<LoanedCommandInterface>(rm->claim_command_interface(n)); }
      catch (const std::exception & e) { complete = false; VCHECK(false, "no_command_interface", "command interface " << n << ": " << e.what() << " " << ctx()); }
    for (auto & [n, x] : s.st)
      try { ls[n] = std::make_unique<LoanedStateInterface>(rm->claim_state_interface(n)); }
      catch (const std::exception & e) { complete = false; VCHECK(false, "no_state_interface", "state interface " << n << ": " << e.what() << " " << ctx()); }
  };
  auto release = [&](Sys & s) { for (auto & [n, x] : s.cmd) lc.erase(n); for (auto & [n, x] : s.st) ls.erase(n); };
  auto value = [&](Sys & s, const std::string & n) -> double
  {
    auto & t = s.type[n];
    if (t == "bool") return ls.at(n)->get_optional<bool>().value() ? 1.0 : 0.0;
    if (t == "int32") return ls.at(n)->get_optional<int32_t>().value();
    return ls.at(n)->get_optional<double>().value();
  };
  auto compare = [&](const char * what, const char * key)
  {
    for (auto & s : sys)
    {
      if (s.life < 2) continue;
      for (auto & [n, x] : s.st)
      {
        double v = value(s, n);
        VCHECK(same(v, x), key, what << ": state " << n << " of " << s.name << " is " << v << ", expected " << x << " " << ctx());
        x = v;
      }
    }
  };
  // exactly the declared and mocked interfaces
  {
    std::set<std::string> want, got;
    for (auto & s : sys) for (auto & [n, x] : s.cmd) want.insert(n);
    for (auto & n : rm->command_interface_keys()) got.insert(n);
    VCHECK(want == got, "command_interfaces", "command interfaces [" << vh::join(std::vector<std::string>(got.begin(), got.end())) << "] expected [" << vh::join(std::vector<std::string>(want.begin(), want.end())) << "] " << text);
  }
  for (auto & s : sys)
  {
    // the resource manager has activated everything; start anew from the unconfigured state where asked for
    configure(s);
    s.life = 3;
    claim(s);
  }
  if (!complete) return;
  compare("after activation", "initial_states");
  double now = 1.0;
  int steps = static_cast<int>(r.range(5, 60));
  for (int k = 0; k < steps; ++k)
  {
    int what = static_cast<int>(r.below(20));
    Sys & s = sys[r.below(sys.size())];
    if (what < 12)
    {
      // commands, then one cycle
      bool inf_given = false;
      for (auto & t : sys)
      {
        if (t.life < 2) continue;
        for (auto & [n, x] : t.cmd)
        {
          if (!r.chance(0.4) || t.type[n] == "int32") continue;
          double v = t.type[n] == "bool" ? (r.chance(0.5) ? 1.0 : 0.0)
            : r.chance(0.08) ? NaN : r.chance(0.004) ? (r.chance(0.5) ? 1.0 : -1.0) * std::numeric_limits<double>::infinity() : r.uniform(-10, 10);
          bool ok = t.type[n] == "bool" ? lc.at(n)->set_value(v != 0) : lc.at(n)->set_value(v);
          VCHECK(ok, "set_command", "command " << n << " is not accepted " << ctx());
          x = v;
          inf_given = inf_given || std::isinf(v);
          if (vh::rec().current() < 400) hist += n + "=" + num(v) + " ";
        }
      }
      double dt = r.chance(0.7) ? 0.01 : r.pick({0.001, 0.02, 0.1});
      now += dt;
      hist += "cycle(" + num(dt) + ") ";
      auto before = sys;
      std::vector<Sys> expect = sys;
      // joints whose mode is not determined by the documentation: any of the possible ones, the one that fits is kept
      for (auto & t : expect)
      {
        if (t.life < 2) continue;
        std::map<std::string, int> m;
        for (auto & [j, set] : t.mode) m[j] = *set.begin();
        bool ok = cycle(t, dt, m);
        t.life = ok ? t.life : 0;
      }
      auto ret = rm->read(rclcpp::Time(static_cast<int64_t>(now * 1e9), RCL_STEADY_TIME), rclcpp::Duration::from_seconds(dt));
      if (ret.result == hardware_interface::return_type::OK)
        rm->write(rclcpp::Time(static_cast<int64_t>(now * 1e9), RCL_STEADY_TIME), rclcpp::Duration::from_seconds(dt));
      vh::rec().count("cycles");
      std::set<std::string> failed;
      for (auto & t : expect) if (t.life == 0) failed.insert(t.name);
      std::set<std::string> reported(ret.failed_hardware_names.begin(), ret.failed_hardware_names.end());
      VCHECK(failed == reported, "infinite_command", "components reported as failed [" << vh::join(ret.failed_hardware_names) << "] expected ["
        << vh::join(std::vector<std::string>(failed.begin(), failed.end())) << "] " << ctx());
      if (!failed.empty()) { vh::rec().count("infinite_refused"); return; }
      for (size_t q = 0; q < sys.size(); ++q)
      {
        if (sys[q].life < 2) continue;
        for (auto & [j, set] : sys[q].mode)
        {
          if (set.size() < 2) continue;
          // keep only the modes that explain what is seen
          std::set<int> keep;
          for (int m : set)
          {
            auto c = before[q];
            std::map<std::string, int> mm;
            for (auto & [jj, s2] : c.mode) mm[jj] = *s2.begin();
            mm[j] = m;
            cycle(c, dt, mm);
            bool fits = true;
            for (auto i : STD3) if (c.st.count(j + "/" + i)) fits = fits && same(value(sys[q], j + "/" + i), c.st[j + "/" + i]);
            if (fits)
            {
              keep.insert(m);
              if (keep.size() == 1)
              {
                for (auto & [n, x] : c.st) if (n.substr(0, n.rfind('/')) == j) expect[q].st[n] = x;
                for (auto & p2 : sys[q].parts)
                  if (p2.mimic >= 0 && sys[q].parts[static_cast<size_t>(p2.mimic)].name == j)
                    for (auto & [n, x] : c.st) if (n.substr(0, n.rfind('/')) == p2.name) expect[q].st[n] = x;
              }
            }
          }
          if (!keep.empty()) set = keep;
        }
        sys[q].st = expect[q].st;
      }
      if (inf_given) vh::rec().count("infinite_ignored");
      compare("after a cycle", "states");
      if (sys[0].dyn) vh::rec().count("dynamic_cycles");
      std::ostringstream o;
      for (auto & t : sys) for (auto & [n, x] : t.st) o << x << ",";
      vh::rec().distinct(o.str());
    }
    else if (what < 17)
    {
      if (s.life < 3) continue;
      // a request to start some command interfaces
      std::vector<std::string> start, stop;
      for (auto & [n, x] : s.cmd)
      {
        if (r.chance(0.25)) start.push_back(n);
        else if (r.chance(0.1)) stop.push_back(n);
      }
      if (r.chance(0.5))
      {
        // one mode per joint
        start.clear();
        for (auto & [j, m] : s.mode)
        {
          std::vector<std::string> c;
          for (auto i : STD3) if (s.cmd.count(j + "/" + i)) c.push_back(j + "/" + i);
          if (!c.empty() && r.chance(0.7)) start.push_back(r.pick(c));
        }
      }
      r.shuffle(start);
      if (start.empty()) continue;
      bool ok = true;
      std::map<std::string, int> want;
      if (s.dyn)
        for (auto & [j, m] : s.mode)
        {
          int any = 0, n = 0, w = -1;
          for (auto & f : start)
          {
            if (f.substr(0, f.rfind('/')) != j) continue;
            ++any;
            auto i = f.substr(f.rfind('/') + 1);
            for (int q = 0; q < 3; ++q) if (i == STD3[q]) ++n, w = q;
          }
          if (any && n != 1) ok = false;
          if (any && n == 1) want[j] = w;
        }
      hist += "switch(+" + vh::join(start) + " -" + vh::join(stop) + ") ";
      bool got = rm->prepare_command_mode_switch(start, stop);
      VCHECK(got == ok, "mode_request", "the request to start [" << vh::join(start) << "] is " << (got ? "accepted" : "refused") << " by " << s.name << " " << ctx());
      vh::rec().count(ok ? "modes_accepted" : "modes_refused");
      if (!got) continue;
      bool did = rm->perform_command_mode_switch(start, stop);
      VCHECK(did, "mode_change", "the accepted change to [" << vh::join(start) << "] fails " << ctx());
      for (auto & [j, w] : want) s.mode[j] = {w};
    }
    else if (what < 18)
    {
      if (s.life == 3) { hist += "deactivate(" + s.name + ") "; state(s, 2); }
      else { hist += "activate(" + s.name + ") "; state(s, 3); }
      compare("after a change between active and inactive", "untouched");
    }
    else if (r.chance(0.4))
    {
      hist += "cleanup+configure(" + s.name + ") ";
      release(s);
      state(s, 1);
      state(s, 2);
      claim(s);
      if (!complete) return;
      if (r.chance(0.7)) state(s, 3);
      vh::rec().count("reconfigured");
      // the documentation does not say whether values and modes survive a clean-up: take over the values, allow both modes
      for (auto & [n, x] : s.st) x = value(s, n);
      for (auto & [n, x] : s.cmd) if (s.type[n] == "double") x = lc.at(n)->get_optional<double>().value(); else if (s.type[n] == "bool") x = lc.at(n)->get_optional<bool>().value() ? 1 : 0;
      for (auto & [j, m] : s.mode) m.insert(0);
      for (auto & [n, x] : s.st)
        if (s.type[n] == "double")
          for (auto & q : s.parts)
            if (q.kind == "joint" && n.rfind(q.name + "/", 0) == 0 && n.find('/', q.name.size() + 1) == std::string::npos)
              VCHECK(!std::isnan(x), "configured_states", "joint state " << n << " has no value after configuring " << ctx());
    }
  }
  if (vh::rec().current() < 2) vh::rec().sample(hist + "\n" + text);
  lc.clear();
  ls.clear();
}
}  // namespace
int main(int argc, char ** argv)
{
  pluginlib::shim_registry<hardware_interface::SystemInterface>()["mock_components/GenericSystem"] = [] { return new mock_components::GenericSystem(); };
  return vh::run_cases(argc, argv, [](Rng & r, uint64_t, const vh::Args &) { run(r); });
}
