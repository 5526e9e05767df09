// C04: joint limits from parameters - reading, updating in any order, taking over as a whole (also under concurrency).
#include "common.hpp"
#include "joint_limits/joint_limiter_interface.hpp"
#include "joint_limits/joint_limits_rosparam.hpp"
#include "rclcpp/rclcpp.hpp"
#include "rclcpp_lifecycle/lifecycle_node.hpp"

using namespace vh;
namespace jl = joint_limits;
using rclcpp::Parameter;
using rclcpp::ParameterValue;

static const double NaN = std::numeric_limits<double>::quiet_NaN();
struct M  // model of one joint
{
  std::map<std::string, double> v;  // min_position ...
  std::map<std::string, bool> f;    // has_* and angle_wraparound
};
static const std::vector<std::string> kVal = {"min_position", "max_position", "max_velocity", "max_acceleration", "max_deceleration", "max_jerk", "max_effort"};
static const std::vector<std::string> kFlag = {"has_position_limits", "has_velocity_limits", "has_acceleration_limits", "has_deceleration_limits", "has_jerk_limits", "has_effort_limits", "angle_wraparound"};
static std::vector<std::string> vals_of(const std::string & flag)
{
  if (flag == "has_position_limits") return {"min_position", "max_position"};
  return {"max_" + flag.substr(4, flag.size() - 4 - 7)};
}
static M model_of(const jl::JointLimits & l)
{
  M m;
  m.v = {{"min_position", l.min_position}, {"max_position", l.max_position}, {"max_velocity", l.max_velocity}, {"max_acceleration", l.max_acceleration},
         {"max_deceleration", l.max_deceleration}, {"max_jerk", l.max_jerk}, {"max_effort", l.max_effort}};
  m.f = {{"has_position_limits", l.has_position_limits}, {"has_velocity_limits", l.has_velocity_limits}, {"has_acceleration_limits", l.has_acceleration_limits},
         {"has_deceleration_limits", l.has_deceleration_limits}, {"has_jerk_limits", l.has_jerk_limits}, {"has_effort_limits", l.has_effort_limits},
         {"angle_wraparound", l.angle_wraparound}};
  return m;
}
static void to_limits(const M & m, jl::JointLimits & l)
{
  l.min_position = m.v.at("min_position"); l.max_position = m.v.at("max_position"); l.max_velocity = m.v.at("max_velocity");
  l.max_acceleration = m.v.at("max_acceleration"); l.max_deceleration = m.v.at("max_deceleration"); l.max_jerk = m.v.at("max_jerk"); l.max_effort = m.v.at("max_effort");
  l.has_position_limits = m.f.at("has_position_limits"); l.has_velocity_limits = m.f.at("has_velocity_limits"); l.has_acceleration_limits = m.f.at("has_acceleration_limits");
  l.has_deceleration_limits = m.f.at("has_deceleration_limits"); l.has_jerk_limits = m.f.at("has_jerk_limits"); l.has_effort_limits = m.f.at("has_effort_limits");
  l.angle_wraparound = m.f.at("angle_wraparound");
}
static std::string text(const M & m)
{
  std::string s;
  for (auto & [k, v] : m.v) s += k + "=" + num(v) + " ";
  for (auto & [k, v] : m.f) s += k + "=" + (v ? "1 " : "0 ");
  return s;
}
static bool equal(const M & a, const M & b, const std::set<std::string> & skip)
{
  for (auto & [k, v] : a.v) if (!skip.count(k) && !same_bits(v, b.v.at(k))) return false;
  for (auto & [k, v] : a.f) if (!skip.count(k) && v != b.f.at(k)) return false;
  return true;
}
static std::string text(const std::vector<Parameter> & p)
{
  std::string s;
  for (auto & x : p) s += x.get_name() + ":=" + (x.get_type() == rclcpp::PARAMETER_DOUBLE ? num(x.as_double()) : x.get_type() == rclcpp::PARAMETER_BOOL ? (x.as_bool() ? "true" : "false") : "(other type)") + " ";
  return s;
}

// what an update must lead to; skip: quantities for which the documentation leaves the outcome open
static M apply(const M & old, const std::string & joint, const std::vector<Parameter> & ps, std::set<std::string> & skip)
{
  M m = old;
  const std::string b = "joint_limits." + joint + ".";
  std::set<std::string> set_true, given;
  for (auto & p : ps)
  {
    if (p.get_name().rfind(b, 0) != 0) continue;
    const std::string k = p.get_name().substr(b.size());
    if (m.v.count(k) && p.get_type() == rclcpp::PARAMETER_DOUBLE) m.v[k] = p.as_double();
  }
  for (auto & p : ps)
  {
    if (p.get_name().rfind(b, 0) != 0) continue;
    const std::string k = p.get_name().substr(b.size());
    if (!m.f.count(k) || p.get_type() != rclcpp::PARAMETER_BOOL) continue;
    given.insert(k);
    bool on = p.as_bool();
    if (on && k != "angle_wraparound")
    {
      for (auto & v : vals_of(k)) if (std::isnan(m.v[v])) on = false;
      if (k == "has_position_limits" && !(m.v["min_position"] < m.v["max_position"])) on = false;
      if (!on && old.f.at(k)) { skip.insert(k); for (auto & v : vals_of(k)) skip.insert(v); }
    }
    m.f[k] = on;
  }
  if (given.count("angle_wraparound"))
  {
    // meaningless together with position limits: left open what remains of it then
    if (given.count("has_position_limits") || (old.f.at("angle_wraparound") && old.f.at("has_position_limits"))) skip.insert("angle_wraparound");
    if (m.f["angle_wraparound"] && m.f["has_position_limits"]) m.f["angle_wraparound"] = false;
  }
  if (!skip.count("has_position_limits") && m.f["has_position_limits"] && old.f.at("has_position_limits") && m.v["min_position"] >= m.v["max_position"])
  {
    m.v["min_position"] = old.v.at("min_position");
    m.v["max_position"] = old.v.at("max_position");
  }
  return m;
}

static std::vector<Parameter> random_update(Rng & g, const std::vector<std::string> & joints, const std::map<std::string, M> & state, bool declared_only)
{
  std::vector<Parameter> r;
  std::set<std::string> used;
  for (int n = g.range(1, 6); n > 0; --n)
  {
    const std::string j = g.pick(joints);
    const bool value = g.chance(.65);
    std::string k = value ? g.pick(kVal) : g.pick(kFlag);
    std::string name = "joint_limits." + j + "." + k;
    if (!declared_only && g.chance(.08)) name = g.pick({"joint_limits.", "other.", "limits."}) + j + "." + k;
    if (!declared_only && g.chance(.05)) name += "x";
    if (!used.insert(name).second) continue;
    if (!declared_only && g.chance(.06)) { r.emplace_back(name, ParameterValue(std::string("junk"))); continue; }
    if (!declared_only && g.chance(.04)) { r.emplace_back(name, value ? ParameterValue(true) : ParameterValue(1.5)); continue; }
    if (!value) { r.emplace_back(name, ParameterValue(g.chance(.7))); continue; }
    double v;
    if (k == "min_position") v = g.uniform(-5, 1);
    else if (k == "max_position") v = g.uniform(-1, 5);
    else v = g.uniform(0.1, 9);
    auto it = state.find(j);
    // no value at all is only meaningful for limits that are off
    if (g.chance(.06) && it != state.end())
    {
      bool on = false;
      for (auto & f : kFlag) if (f != "angle_wraparound") for (auto & x : vals_of(f)) if (x == k) on = it->second.f.at(f);
      bool flag_here = false;
      for (auto & p : r) if (p.get_name().rfind("joint_limits." + j + ".has_", 0) == 0) flag_here = true;
      if (!on && !flag_here) v = NaN;
    }
    if (g.chance(.1) && it != state.end()) v = it->second.v.at(k);
    r.emplace_back(name, ParameterValue(v));
  }
  g.shuffle(r);
  return r;
}

// shows the limits that a limiter works with
class Probe : public jl::JointLimiterInterface<int>
{
public:
  std::vector<jl::JointLimits> seen;
  std::vector<jl::SoftJointLimits> seen_soft;
  void reset_internals() override {}
protected:
  bool on_init() override { return true; }
  bool on_configure(const int &) override { return true; }
  bool on_enforce(const int &, int &, const rclcpp::Duration &) override { seen = joint_limits_; seen_soft = soft_joint_limits_; return false; }
};

static void stress(Rng & g)
{
  auto node = std::make_shared<rclcpp::Node>("limits_node");
  const std::vector<std::string> joints = {"j1", "j10", "j1_x"};
  for (auto & j : joints)
    for (auto k : {"max_velocity", "max_effort", "max_jerk"})
    {
      node->declare_parameter("joint_limits." + j + "." + k, 1.0);
      node->declare_parameter("joint_limits." + j + ".has_" + std::string(k).substr(4) + "_limits", true);
    }
  Probe p;
  if (!p.init(joints, node)) { VCHECK(false, "stress.init", "initialisation failed"); return; }
  std::atomic<bool> done{false};
  const int rounds = 400;
  std::thread writer([&]
  {
    Rng w(g.s);
    for (int i = 2; i < rounds; ++i)
    {
      std::vector<Parameter> u;
      for (auto & j : joints)
        for (auto k : {"max_velocity", "max_effort", "max_jerk"}) u.emplace_back("joint_limits." + j + "." + k, ParameterValue(static_cast<double>(i)));
      w.shuffle(u);
      node->set_parameters_atomically(u);
      if (i % 16 == 0) std::this_thread::yield();
    }
    done = true;
  });
  double last = 0;
  size_t changes = 0, cycles = 0;
  while (true)
  {
    const bool fin = done;
    int x = 0;
    p.enforce(0, x, rclcpp::Duration(0, 1000000));
    ++cycles;
    const double v = p.seen.at(0).max_velocity;
    for (auto & l : p.seen)
      VCHECK(l.max_velocity == v && l.max_effort == v && l.max_jerk == v, "stress.torn", "limits of one update mixed with others: " << l.max_velocity << " " << l.max_effort << " " << l.max_jerk << " vs " << v);
    VCHECK(v >= last, "stress.backwards", "limits went back from " << last << " to " << v);
    if (v != last) ++changes;
    last = v;
    if (fin) break;
  }
  writer.join();
  for (int i = 0; i < 3; ++i) { int x = 0; p.enforce(0, x, rclcpp::Duration(0, 1000000)); }
  VCHECK(p.seen.at(0).max_velocity == rounds - 1, "stress.lost", "the last update is not in use: " << p.seen.at(0).max_velocity);
  rec().count("stress_changes_seen", changes);
  rec().count("stress_cycles", cycles);
  rec().distinct(std::to_string(cycles) + "/" + std::to_string(changes));
}

int main(int argc, char ** argv)
{
  return run_cases(argc, argv, [&](Rng & g, uint64_t, const Args & a)
  {
    if (a.mode == "stress") { stress(g); return; }
    // --- reading
    for (int rep = 0; rep < 20; ++rep)
    {
      rclcpp::NodeOptions o;
      auto node = std::make_shared<rclcpp::Node>("n", o);
      const std::string j = g.pick({"j1", "joint_a", "x.y"});
      const std::string b = "joint_limits." + j + ".";
      std::map<std::string, double> dv;
      std::map<std::string, bool> df;
      const double dens = g.pick({0.0, .3, .7, 1.0});
      for (auto & k : kVal) if (g.chance(dens)) { dv[k] = g.uniform(-5, 5); node->declare_parameter(b + k, dv[k]); }
      for (auto & k : kFlag) if (g.chance(dens)) { df[k] = g.chance(.7); node->declare_parameter(b + k, df[k]); }
      // a neighbour with a similar name must not matter
      for (auto & k : kVal) if (g.chance(.5)) node->declare_parameter("joint_limits." + j + "0." + k, 77.0);
      for (auto & k : kFlag) if (g.chance(.5)) node->declare_parameter("joint_limits." + j + "0." + k, true);
      jl::JointLimits l;
      M pre = model_of(l);
      for (auto & [k, v] : pre.v) v = g.uniform(-9, 9);
      for (auto & [k, v] : pre.f) v = g.chance(.5);
      to_limits(pre, l);
      M want = pre;
      for (auto & [k, on] : df)
      {
        if (k == "angle_wraparound") continue;
        bool all = on;
        for (auto & v : vals_of(k)) all = all && dv.count(v);
        want.f[k] = all;
        if (all) for (auto & v : vals_of(k)) want.v[v] = dv[v];
      }
      if (df.count("angle_wraparound") && df.count("has_position_limits") && !want.f["has_position_limits"]) want.f["angle_wraparound"] = df["angle_wraparound"];
      const bool any = !dv.empty() || !df.empty();
      const bool ret = jl::get_joint_limits(j, node, l);
      VCHECK(ret == any, "get.result", "get_joint_limits said " << ret << " with " << dv.size() + df.size() << " parameters");
      std::set<std::string> skip;
      if (!df.count("has_position_limits") || want.f["has_position_limits"]) skip.insert("angle_wraparound");
      VCHECK(equal(model_of(l), want, skip), "get.value", "read " << text(model_of(l)) << "\nexpected " << text(want));
      rec().count("reads");
      rec().distinct(text(want));

      // soft limits
      std::map<std::string, double> sv;
      int has = g.below(3);  // 0 absent 1 false 2 true
      const double sd = g.pick({0.0, .7, 1.0});
      for (auto k : {"k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"}) if (g.chance(sd)) { sv[k] = g.uniform(-3, 3); node->declare_parameter(b + k, sv[k]); }
      if (has) node->declare_parameter(b + "has_soft_limits", has == 2);
      jl::SoftJointLimits s;
      s.min_position = 11; s.max_position = 12; s.k_position = 13; s.k_velocity = 14;
      const bool sr = jl::get_joint_limits(j, node, s);
      const bool swant = has == 2 && sv.size() == 4;
      VCHECK(sr == swant, "soft.result", "soft limits read: " << sr << " has=" << has << " values=" << sv.size());
      if (swant)
        VCHECK(s.min_position == sv["soft_lower_limit"] && s.max_position == sv["soft_upper_limit"] && s.k_position == sv["k_position"] && s.k_velocity == sv["k_velocity"], "soft.value", "soft limits differ");
      else VCHECK(s.min_position == 11 && s.max_position == 12 && s.k_position == 13 && s.k_velocity == 14, "soft.untouched", "incomplete soft limits changed something");

      // declaring: what is there stays, what is not gets a default that restricts nothing
      VCHECK(jl::declare_parameters(j, node), "declare.result", "declaring failed");
      for (auto & k : kVal)
      {
        VCHECK(node->has_parameter(b + k), "declare.missing", b + k);
        double v = node->get_parameter(b + k).as_double();
        VCHECK(dv.count(k) ? v == dv[k] : std::isnan(v), "declare.value", b + k << "=" << v);
      }
      for (auto & k : kFlag)
      {
        VCHECK(node->has_parameter(b + k), "declare.missing", b + k);
        VCHECK(node->get_parameter(b + k).as_bool() == (df.count(k) ? df[k] : false), "declare.value", b + k);
      }
      for (auto k : {"has_soft_limits"}) VCHECK(node->get_parameter(b + k).as_bool() == (has == 2), "declare.value", b + k);
      for (auto k : {"k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"})
      {
        double v = node->get_parameter(b + k).as_double();
        VCHECK(sv.count(k) ? v == sv[k] : std::isnan(v), "declare.value", b + k << "=" << v);
      }
      // overrides from the outside are kept by the declaration
      if (rep % 4 == 0)
      {
        rclcpp::NodeOptions oo;
        std::vector<Parameter> ov;
        std::map<std::string, double> w;
        for (auto & k : kVal) if (g.chance(.5)) { w[k] = g.uniform(-4, 4); ov.emplace_back(b + k, ParameterValue(w[k])); }
        oo.parameter_overrides(ov);
        auto ln = rclcpp_lifecycle::LifecycleNode::make_shared("ln", "", oo);
        VCHECK(jl::declare_parameters(j, ln), "declare.result", "declaring failed");
        for (auto & [k, v] : w) VCHECK(ln->get_parameter(b + k).as_double() == v, "declare.override", b + k);
        jl::JointLimits x;
        VCHECK(jl::get_joint_limits(j, ln, x), "get.result", "declared but not found");
        VCHECK(!x.has_position_limits && !x.has_velocity_limits && !x.has_effort_limits && !x.has_jerk_limits && !x.has_acceleration_limits && !x.has_deceleration_limits, "get.default", "a limit nobody switched on");
      }
    }
    // --- updates, directly
    static const std::vector<std::vector<std::string>> groups = {{"j1", "j10", "j1_x"}, {"a", "a.b", "ab"}, {"left/j", "left"}, {"J"}};
    auto joints = g.pick(groups);
    auto log = std::make_shared<rclcpp::Node>("log")->get_node_logging_interface();
    for (int rep = 0; rep < 10; ++rep)
    {
      std::map<std::string, M> st;
      for (auto & j : joints)
      {
        M m = model_of(jl::JointLimits());
        for (auto & f : kFlag)
        {
          if (f == "angle_wraparound") { m.f[f] = !m.f["has_position_limits"] && g.chance(.2); continue; }
          if (g.chance(.5))
          {
            m.f[f] = g.chance(.7);
            if (f == "has_position_limits") { m.v["min_position"] = g.uniform(-4, -1); m.v["max_position"] = g.uniform(1, 4); }
            else m.v[vals_of(f)[0]] = g.uniform(.1, 5);
          }
        }
        st[j] = m;
      }
      for (int step = 0; step < 8; ++step)
      {
        auto u = random_update(g, joints, st, false);
        for (auto & j : joints)
        {
          std::set<std::string> skip;
          M want = apply(st[j], j, u, skip);
          jl::JointLimits l;
          to_limits(st[j], l);
          bool changed = jl::check_for_limits_update(j, u, log, l);
          M got = model_of(l);
          VCHECK(equal(got, want, skip), "update.value", j << " with " << text(u) << "\nbefore " << text(st[j]) << "\nafter  " << text(got) << "\nexpect " << text(want));
          if (!equal(st[j], got, skip)) VCHECK(changed, "update.unnoticed", j << " changed by " << text(u) << " but not reported\nbefore " << text(st[j]) << "\nafter  " << text(got));
          bool mine = false;
          for (auto & p : u) if (p.get_name().rfind("joint_limits." + j + ".", 0) == 0) mine = true;
          if (!mine) VCHECK(!changed && equal(st[j], got, {}), "update.foreign", j << " affected by " << text(u));
          st[j] = got;
          rec().count("updates");
          rec().distinct(text(got));
        }
      }
      // soft
      jl::SoftJointLimits s;
      s.min_position = -1; s.max_position = 1; s.k_position = 5; s.k_velocity = 6;
      for (int step = 0; step < 4; ++step)
      {
        std::vector<Parameter> u;
        jl::SoftJointLimits w = s;
        bool off = false, mine = false;
        for (auto k : {"k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit", "has_soft_limits"})
        {
          if (!g.chance(.4)) continue;
          const std::string j = g.pick(joints);
          const bool me = j == joints[0];
          if (std::string(k) == "has_soft_limits")
          {
            bool on = g.chance(.7);
            u.emplace_back("joint_limits." + j + "." + k, ParameterValue(on));
            if (me && !on) off = true;
            continue;
          }
          double v = g.chance(.2) ? 1.0 : g.uniform(-9, 9);
          u.emplace_back("joint_limits." + j + "." + k, ParameterValue(v));
          if (!me) continue;
          mine = true;
          (std::string(k) == "k_position" ? w.k_position : std::string(k) == "k_velocity" ? w.k_velocity : std::string(k) == "soft_lower_limit" ? w.min_position : w.max_position) = v;
        }
        if (off) w = s;
        g.shuffle(u);
        jl::SoftJointLimits before = s;
        bool changed = jl::check_for_limits_update(joints[0], u, log, s);
        auto same = [](const jl::SoftJointLimits & x, const jl::SoftJointLimits & y) { return x.min_position == y.min_position && x.max_position == y.max_position && x.k_position == y.k_position && x.k_velocity == y.k_velocity; };
        VCHECK(same(s, w), "soft.update.value", text(u));
        VCHECK(changed == !same(before, w), "soft.update.report", "reported " << changed << " for " << text(u) << " mine=" << mine);
      }
    }
    // --- end to end through a limiter
    for (int rep = 0; rep < 3; ++rep)
    {
      auto node = std::make_shared<rclcpp::Node>("limits_node");
      std::map<std::string, M> st;
      for (auto & j : joints)
      {
        for (auto & f : kFlag)
        {
          if (f == "angle_wraparound" || !g.chance(.6)) continue;
          node->declare_parameter("joint_limits." + j + "." + f, true);
          if (f == "has_position_limits")
          {
            node->declare_parameter("joint_limits." + j + ".min_position", g.uniform(-4, -1));
            node->declare_parameter("joint_limits." + j + ".max_position", g.uniform(1, 4));
          }
          else node->declare_parameter("joint_limits." + j + "." + vals_of(f)[0], g.uniform(.1, 5));
        }
      }
      Probe p;
      if (g.chance(.5)) { VCHECK(p.init(joints, node), "e2e.init", "initialisation failed"); }
      else VCHECK(p.init(joints, node->get_node_parameters_interface(), node->get_node_logging_interface()), "e2e.init", "initialisation failed");
      int x = 0;
      p.enforce(0, x, rclcpp::Duration(0, 1000000));
      VCHECK(p.seen.size() == joints.size(), "e2e.joints", p.seen.size());
      for (size_t i = 0; i < joints.size(); ++i)
      {
        M want = model_of(jl::JointLimits());
        for (auto & k : kVal) want.v[k] = node->get_parameter("joint_limits." + joints[i] + "." + k).as_double();
        for (auto & k : kFlag) want.f[k] = node->get_parameter("joint_limits." + joints[i] + "." + k).as_bool();
        VCHECK(equal(model_of(p.seen[i]), want, {}), "e2e.initial", text(model_of(p.seen[i])) << " expected " << text(want));
        st[joints[i]] = want;
      }
      std::map<std::string, std::set<std::string>> skip;
      for (int step = 0; step < 12; ++step)
      {
        auto u = random_update(g, joints, st, true);
        const bool atomic = g.chance(.5);
        if (atomic)
        {
          auto r = node->set_parameters_atomically(u);
          for (auto & j : joints) st[j] = apply(st[j], j, u, skip[j]);
          (void)r;
        }
        else
        {
          node->set_parameters(u);
          for (auto & q : u) for (auto & j : joints) st[j] = apply(st[j], j, {q}, skip[j]);
        }
        if (g.chance(.5)) continue;  // several updates between two cycles
        p.enforce(0, x, rclcpp::Duration(0, 1000000));
        for (size_t i = 0; i < joints.size(); ++i)
        {
          VCHECK(equal(model_of(p.seen[i]), st[joints[i]], skip[joints[i]]), "e2e.limits", joints[i] << " after " << (atomic ? "one update " : "single updates ") << text(u) << "\nin use " << text(model_of(p.seen[i])) << "\nexpect " << text(st[joints[i]]));
          st[joints[i]] = model_of(p.seen[i]);
          rec().distinct(text(st[joints[i]]));
        }
        rec().count("e2e");
        skip.clear();
      }
    }
    // limits given directly
    {
      Probe p;
      std::vector<jl::JointLimits> l(joints.size());
      std::vector<jl::SoftJointLimits> s(joints.size());
      for (auto & x : l) { x.has_velocity_limits = true; x.max_velocity = g.uniform(1, 2); }
      const bool wrong = g.chance(.3);
      if (wrong) l.resize(joints.size() + (g.chance(.5) ? 1 : -1));
      bool ok = p.init(joints, l, s, nullptr, nullptr);
      VCHECK(ok == !wrong, "direct.init", "init with " << l.size() << " limits for " << joints.size() << " joints: " << ok);
      if (ok)
      {
        int x = 0;
        p.enforce(0, x, rclcpp::Duration(0, 1000000));
        for (size_t i = 0; i < l.size(); ++i) VCHECK(p.seen[i].max_velocity == l[i].max_velocity, "direct.value", i);
      }
    }
  });
}
