// The real controller manager with scripted hardware and controllers, compared with a model of the documented switching, chaining, failing and listing rules.
#include "cmfake.hpp"
#include <algorithm>
using namespace cmf;
namespace
{
using vh::Rng;
using Names = std::vector<std::string>;
bool has(const Names & v, const std::string & s) { return std::find(v.begin(), v.end(), s) != v.end(); }
void add(Names & v, const std::string & s) { if (!has(v, s)) v.push_back(s); }
void del(Names & v, const std::string & s) { v.erase(std::remove(v.begin(), v.end(), s), v.end()); }
std::string pre(const std::string & i) { return i.substr(0, i.find('/')); }
std::string post(const std::string & i) { return i.substr(i.find('/') + 1); }
// ---- worlds
struct Gen
{
  std::vector<hwf::HwD> hws;
  std::vector<Def> defs;  // in a valid order of execution
  std::map<std::string, int> hw_initial;  // absent: active
};
struct Opt
{
  int min_ctrls = 2, max_ctrls = 7;
  double chain = 0.6, async = 0.0, fallback = 0.15, rates = 0.0, exports = 0.5, initial = 0.15, wild = 0.25, bad = 0.08, share = 0.35;
  int cm_rate = 100;
  double bad_types = 0.0;
  double hw_rates = 0.0, hw_async = 0.0, hw_groups = 0.0;
  int max_hw = 3;
};
Gen generate(Rng & r, const Opt & o)
{
  Gen g;
  Names cifs, sifs;
  int nh = static_cast<int>(r.range(1, o.max_hw)), joint = 0;
  for (int h = 0; h < nh; ++h)
  {
    hwf::HwD d;
    d.name = r.pick({std::string("hw"), std::string("hw_"), std::string("Robot")}) + std::to_string(h);
    d.type = r.pick({"system", "system", "actuator", "sensor"});
    if (h == 0) d.type = "system";
    int nj = d.type == "actuator" ? 1 : static_cast<int>(r.range(1, 3));
    if (d.type == "sensor")
    {
      hwf::JointD j;
      j.name = "sens" + std::to_string(h);
      j.st = {"x", "y"};
      d.sensors.push_back(j);
    }
    else
      for (int k = 0; k < nj; ++k)
      {
        hwf::JointD j;
        j.name = "j" + std::to_string(++joint);
        j.cmd = {"position"};
        if (r.chance(0.6)) j.cmd.push_back("velocity");
        j.st = {"position", "velocity"};
        d.joints.push_back(j);
      }
    for (auto & i : d.cifs()) cifs.push_back(i);
    for (auto & i : d.sifs()) sifs.push_back(i);
    if (o.hw_rates > 0 && r.chance(o.hw_rates)) d.rate = static_cast<int>(r.range(1, o.cm_rate));
    if (o.hw_groups > 0 && r.chance(o.hw_groups)) d.group = r.pick({"G", "G", "G2"});
    if (o.hw_async > 0 && r.chance(o.hw_async)) d.async = true;
    if (r.chance(o.initial)) g.hw_initial[d.name] = r.pick({1, 2});
    g.hws.push_back(d);
  }
  static const Names pool = {"c", "c1", "c11", "c_1", "ctrl", "ctrl_2", "arm", "arm_controller", "a", "base", "zz", "m"};
  Names names = pool;
  r.shuffle(names);
  int n = static_cast<int>(r.range(o.min_ctrls, o.max_ctrls));
  bool chains = r.chance(o.chain);
  std::map<std::string, std::set<std::string>> uses;  // use graph
  auto reach = [&](const std::string & a, const std::string & b)
  {
    Names st = {a};
    std::set<std::string> seen;
    while (!st.empty())
    {
      auto x = st.back();
      st.pop_back();
      if (x == b) return true;
      if (!seen.insert(x).second) continue;
      for (auto & y : uses[x]) st.push_back(y);
    }
    return false;
  };
  for (int k = 0; k < n; ++k)
  {
    Def d;
    d.name = names[k];
    d.chain = chains && r.chance(0.6);
    if (d.chain)
    {
      int m = static_cast<int>(r.range(0, 2));
      for (int q = 0; q < m; ++q) d.refs.push_back(r.pick({std::string("ref"), std::string("joint/ref"), std::string("v")}) + std::to_string(q));
      if (r.chance(o.exports) || d.refs.empty()) for (int q = 0, e = static_cast<int>(r.range(1, 2)); q < e; ++q) d.exps.push_back("out" + std::to_string(q));
    }
    d.async = !d.chain && r.chance(o.async);
    g.defs.push_back(d);
  }
  for (int k = 0; k < n; ++k)
  {
    Def & d = g.defs[k];
    d.cmd.type = d.st.type = CfgType::NONE;
    Names cmd, st;
    if (!d.async || r.chance(0.5))
      for (int q = static_cast<int>(r.pick({0, 1, 1, 2})); q > 0; --q) add(cmd, r.pick(cifs));
    for (int q = static_cast<int>(r.range(0, 2)); q > 0; --q) add(st, r.pick(sifs));
    if (r.chance(o.bad * 0.3)) (r.chance(0.5) ? cmd : st).push_back(r.pick({std::string("nojoint/position"), std::string("j1/nothing")}));
    bool chained = false;
    if (!d.async)
      for (int i = k + 1; i < n; ++i)
        for (auto & rf : g.defs[i].refs)
          if (r.chance(0.35)) { cmd.push_back(g.defs[i].name + "/" + rf); uses[d.name].insert(g.defs[i].name); chained = true; }
    if (!d.async)
      for (int i = 0; i < k; ++i)
        if (!reach(g.defs[i].name, d.name))
          for (auto & e : g.defs[i].exps)
            if (r.chance(0.4)) { st.push_back(g.defs[i].name + "/" + e); uses[d.name].insert(g.defs[i].name); chained = true; }
    r.shuffle(cmd);
    r.shuffle(st);
    // several names of one interface are refused at configuration
    if (r.chance(o.bad * 0.2) && !cmd.empty()) cmd.push_back(cmd[0]);
    if (!cmd.empty()) { d.cmd.type = CfgType::INDIVIDUAL; d.cmd.names = cmd; }
    if (!st.empty()) { d.st.type = CfgType::INDIVIDUAL; d.st.names = st; }
    if (!chains && !chained && r.chance(o.wild))
    {
      bool c = r.chance(0.5);
      auto & f = c ? d.cmd : d.st;
      f.type = r.pick({CfgType::ALL, CfgType::REGEX, CfgType::INDIVIDUAL_BEST_EFFORT});
      f.names.clear();
      if (f.type == CfgType::REGEX) f.names = {r.pick({std::string("j1/.*"), std::string(".*/position"), std::string("j[12]/velocity")})};
      if (f.type == CfgType::INDIVIDUAL_BEST_EFFORT) { f.names = {r.pick(c ? cifs : sifs)}; add(f.names, r.pick(c ? cifs : sifs)); f.names.push_back("nojoint/x"); }
    }
    if (r.chance(o.rates)) d.rate = static_cast<int>(r.range(1, o.cm_rate + o.cm_rate / 4));
  }
  for (int k = 0; k < n; ++k)
    if (r.chance(o.fallback))
      for (int q = static_cast<int>(r.range(1, 2)); q > 0; --q)
      {
        auto & f = r.chance(0.1) ? pool[r.below(pool.size())] : g.defs[r.below(g.defs.size())].name;
        if (f != g.defs[k].name) add(g.defs[k].fb, f);
      }
  return g;
}
std::string show(const Def & d)
{
  std::ostringstream o;
  static const char * t[] = {"ALL", "INDIVIDUAL", "NONE", "BEST_EFFORT", "REGEX"};
  auto tn = [&](CfgType x) { return x == CfgType::ALL ? t[0] : x == CfgType::INDIVIDUAL ? t[1] : x == CfgType::NONE ? t[2] : x == CfgType::REGEX ? t[4] : t[3]; };
  o << d.name << (d.chain ? "{" + vh::join(d.refs) + "|" + vh::join(d.exps) + "}" : "") << (d.async ? "~" : "") << (d.rate ? "@" + std::to_string(d.rate) : "");
  o << " " << tn(d.cmd.type) << "[" << vh::join(d.cmd.names) << "] " << tn(d.st.type) << "[" << vh::join(d.st.names) << "]";
  if (!d.fb.empty()) o << " fb[" << vh::join(d.fb) << "]";
  return o.str();
}
// the rate a controller runs at when it asks for one
int rate_of(const Def & d, int cm)
{
  if (d.rate <= 0 || d.rate >= cm) return cm;
  return cm % d.rate == 0 ? d.rate : cm / static_cast<int>(std::lround(static_cast<double>(cm) / d.rate));
}
// ---- model
struct MC
{
  Def d;
  int st = 1;
  bool chained = false;
  bool exported = false;  // interfaces known to the resource manager
  controller_interface::ControllerInterfaceBaseSharedPtr ptr;
};
struct HwIf { bool avail = false, claimed = false; };
using Plan = std::map<std::string, std::map<std::string, int>>;
struct Model
{
  std::map<std::string, MC> c;
  std::map<std::string, HwIf> cmd, state;  // hardware interfaces, as listed
  std::map<std::string, int> hw_st;
  std::map<std::string, Names> hw_cmd;
  Plan plan, hwplan;
  int ans(const Plan & p, const std::string & n, const std::string & cb) const
  {
    auto i = p.find(n);
    if (i == p.end()) return 0;
    auto j = i->second.find(cb);
    return j == i->second.end() ? 0 : j->second;
  }
  bool loaded(const std::string & n) const { return c.count(n) > 0; }
  bool active(const std::string & n) const { auto i = c.find(n); return i != c.end() && i->second.st == 3; }
  int st(const std::string & n) const { auto i = c.find(n); return i == c.end() ? 0 : i->second.st; }
  std::string owner(const std::string & i) const { auto p = pre(i); return c.count(p) ? p : std::string(); }
  Names resolve(const Cfg & f, const std::map<std::string, HwIf> & all) const
  {
    Names r;
    switch (f.type)
    {
      case CfgType::INDIVIDUAL: return f.names;
      case CfgType::ALL: for (auto & [k, v] : all) if (v.avail) r.push_back(k); break;
      case CfgType::INDIVIDUAL_BEST_EFFORT: for (auto & k : f.names) { auto i = all.find(k); if (i != all.end() && i->second.avail) r.push_back(k); } break;
      case CfgType::REGEX:
        for (auto & p : f.names) for (auto & [k, v] : all) if (v.avail && std::regex_match(k, std::regex(p))) r.push_back(k);
        break;
      default: break;
    }
    return r;
  }
  Names cmds(const std::string & n) const { return resolve(c.at(n).d.cmd, cmd); }
  Names sts(const std::string & n) const { return resolve(c.at(n).d.st, state); }
  // exists now in the resource manager
  bool cexists(const std::string & i) const
  {
    auto o = owner(i);
    if (o.empty()) return cmd.count(i) > 0;
    auto & m = c.at(o);
    return m.exported && has(m.d.refs, post(i));
  }
  bool sexists(const std::string & i) const
  {
    auto o = owner(i);
    if (o.empty()) return state.count(i) > 0;
    auto & m = c.at(o);
    return m.exported && has(m.d.exps, post(i));
  }
  bool cavail(const std::string & i, const Names & coming = {}) const
  {
    auto o = owner(i);
    if (o.empty()) { auto k = cmd.find(i); return k != cmd.end() && k->second.avail; }
    return cexists(i) && (active(o) || has(coming, o));
  }
  bool savail(const std::string & i, const Names & coming = {}) const
  {
    auto o = owner(i);
    if (o.empty()) { auto k = state.find(i); return k != state.end() && k->second.avail; }
    return sexists(i) && (active(o) || has(coming, o));
  }
  Names used(const std::string & n, bool with_states = true) const  // controllers whose interfaces n uses
  {
    Names r;
    for (auto & i : cmds(n)) { auto o = owner(i); if (!o.empty()) add(r, o); }
    if (with_states) for (auto & i : sts(n)) { auto o = owner(i); if (!o.empty()) add(r, o); }
    return r;
  }
  std::string claimant(const std::string & i) const
  {
    for (auto & [n, m] : c) if (m.st == 3 && has(cmds(n), i)) return n;
    return {};
  }
  bool ok_following(const std::string & n, const Names & A, const Names & D, int depth = 0) const
  {
    if (depth > 20) return false;
    for (auto & f : used(n))
    {
      auto & m = c.at(f);
      if (!m.d.chain) return false;
      if (m.st == 3 ? (has(D, f) && !has(A, f)) : !has(A, f)) return false;
      if (!ok_following(f, A, D, depth + 1)) return false;
    }
    return true;
  }
  bool ok_fallback(const std::string & n, const Names & A) const
  {
    auto & d = c.at(n).d;
    for (auto & f : d.fb)
    {
      if (st(f) != 2 && st(f) != 3) return false;
      Names coming = A;
      for (auto & x : d.fb) if (st(x) == 2) coming.push_back(x);
      for (auto & i : cmds(f)) if (!cavail(i, coming)) return false;
      for (auto & i : sts(f)) if (!savail(i, coming)) return false;
    }
    return true;
  }
  bool ok_activate(const std::string & n, const Names & A, const Names & D) const
  {
    if (st(n) == 3 ? !has(D, n) : st(n) != 2) return false;
    return ok_following(n, A, D) && ok_fallback(n, A);
  }
  bool ok_deactivate(const std::string & n, const Names & D) const
  {
    if (st(n) != 3) return false;
    for (auto & [p, m] : c)
    {
      if (p == n || (m.st != 2 && m.st != 3) || !has(used(p), n)) continue;
      if (m.st == 3 && !has(D, p)) return false;
    }
    return true;
  }
  struct Sw
  {
    bool refused = false, nothing = false, performed = false, any_fail = false, lenient = false;
    std::string why;
    Names A, D, R;
    bool ok = true;
    Names to, from;
    std::map<std::string, Names> cbs;
  };
  Sw plan_switch(const Names & a, const Names & d, bool strict) const
  {
    Sw s;
    auto refuse = [&](const std::string & w) { s.refused = true; s.why = w; s.ok = false; return s; };
    for (auto & n : d) if (loaded(n)) add(s.D, n); else if (strict) return refuse("unknown " + n);
    if (!d.empty() && s.D.empty()) return refuse("all unknown");
    for (auto & n : a) if (loaded(n)) add(s.A, n); else if (strict) return refuse("unknown " + n);
    if (!a.empty() && s.A.empty()) return refuse("all unknown");
    for (bool again = true; again;)
    {
      again = false;
      for (auto & n : Names(s.D)) if (!ok_deactivate(n, s.D)) { if (strict) return refuse("deactivation of " + n); del(s.D, n); again = true; break; }
    }
    for (bool again = true; again;)
    {
      again = false;
      for (auto & n : Names(s.A)) if (!ok_activate(n, s.A, s.D)) { if (strict) return refuse("activation of " + n); del(s.A, n); again = true; break; }
    }
    if (s.A.empty() && s.D.empty()) { s.nothing = true; return s; }
    // chained modes
    Names cand = s.A;
    for (auto & l : {s.A, s.D}) for (auto & n : l) for (auto & f : used(n, false)) add(cand, f);
    for (auto & f : cand)
    {
      if (!c.at(f).d.chain) continue;
      bool will = has(s.A, f) || (active(f) && !has(s.D, f));
      if (!will) continue;
      bool u = false;
      for (auto & [p, m] : c)
        if ((has(s.A, p) || (m.st == 3 && !has(s.D, p))) && has(used(p, false), f)) u = true;
      bool restarted = has(s.A, f);
      if (!restarted && u != c.at(f).chained) { add(s.R, f); restarted = true; }
      if (restarted) (u ? s.to : s.from).push_back(f);
    }
    // interfaces
    Names fut;
    Names coming = s.A;
    for (auto & n : s.A)
    {
      if (has(s.D, n)) continue;
      for (auto & i : cmds(n))
      {
        if (!cavail(i, coming)) return refuse(i + " is not available for " + n);
        auto cl = claimant(i);
        if (!cl.empty() && !(has(s.D, cl) && !has(s.A, cl))) return refuse(i + " is claimed by " + cl);
        if (has(fut, i)) return refuse(i + " is wanted twice");
        fut.push_back(i);
      }
      for (auto & i : sts(n)) if (!savail(i, coming)) return refuse(i + " is not available for " + n);
    }
    return s;
  }
  // hardware asked: component -> accepted
  bool ask(const char * step, const Names & start, const Names & stop) const
  {
    bool ok = true;
    for (auto & [h, ifs] : hw_cmd)
    {
      bool a = false, b = false;
      for (auto & i : start) if (has(ifs, i)) a = true;
      for (auto & i : stop) if (has(ifs, i)) b = true;
      if (!a && !b) continue;
      if (hw_st.at(h) == 2 && a) return false;
      if (hw_st.at(h) == 2 || hw_st.at(h) == 3) if (ans(hwplan, h, step)) ok = false;
    }
    return ok;
  }
  void fail_to(const std::string & n, Sw & s) { s.cbs[n].push_back("error"); c[n].st = ans(plan, n, "error") == 0 ? 1 : 4; }
  void deactivate(const std::string & n, Sw & s)
  {
    auto & m = c[n];
    if (m.st != 3) return;
    s.cbs[n].push_back("deactivate");
    int a = ans(plan, n, "deactivate");
    if (a == 1) { s.any_fail = true; return; }
    m.st = 2;
    if (a >= 2) { s.any_fail = true; fail_to(n, s); }
    m.chained = false;
  }
  bool activate(const std::string & n, Sw & s)
  {
    auto & m = c[n];
    if (m.st != 2) return false;
    for (auto & f : used(n)) if (!active(f)) { m.chained = false; return false; }
    for (auto & i : cmds(n)) { auto cl = claimant(i); if (!cl.empty()) { m.chained = false; return false; } }
    for (auto & i : cmds(n)) if (!cavail(i)) { m.chained = false; return false; }
    for (auto & i : sts(n)) if (!savail(i)) { m.chained = false; return false; }
    s.cbs[n].push_back("activate");
    int a = ans(plan, n, "activate");
    if (a == 0) { m.st = 3; return true; }
    s.any_fail = true;
    m.chained = false;
    if (a >= 2) fail_to(n, s);
    return false;
  }
  void run(Sw & s, bool strict)
  {
    if (s.refused || s.nothing) return;
    Names start, stop, AR = s.A, DR = s.D;
    for (auto & n : s.R) { add(AR, n); add(DR, n); }
    for (auto & n : AR) for (auto & i : cmds(n)) start.push_back(i);
    for (auto & n : DR) for (auto & i : cmds(n)) stop.push_back(i);
    if (!start.empty() || !stop.empty())
    {
      for (auto & l : {start, stop}) for (auto & i : l) if (!cavail(i, AR)) { s.refused = true; s.why = "mode switch with unavailable " + i; s.ok = false; return; }
      if (!ask("prepare", start, stop)) { s.refused = true; s.why = "mode switch refused"; s.ok = false; return; }
      if (!ask("perform", start, stop))
      {
        s.why = "mode switch failed";
        for (auto & n : AR) if (!active(n)) s.ok = false;
        for (auto & n : DR) if (!has(AR, n) && active(n)) s.ok = false;
        s.lenient = s.ok;  // only restarts were asked for: everything is as it should be although nothing was done
        s.refused = true;
        return;
      }
    }
    s.performed = true;
    for (auto & n : DR) deactivate(n, s);
    for (auto & n : s.to) if (c[n].st == 2) c[n].chained = true;
    for (auto & n : s.from) if (c[n].st == 2) c[n].chained = false;
    // following controllers first
    Names order, left = AR;
    while (!left.empty())
    {
      bool moved = false;
      for (auto & n : Names(left))
      {
        bool wait = false;
        for (auto & f : used(n)) if (has(left, f)) wait = true;
        if (wait) continue;
        order.push_back(n);
        del(left, n);
        moved = true;
        break;
      }
      if (!moved) break;
    }
    bool all = true;
    for (auto & n : order) if (!activate(n, s)) all = false;
    if (!all && strict) for (auto & n : order) deactivate(n, s);
    s.ok = true;
    for (auto & n : AR) if (!active(n)) s.ok = false;
    for (auto & n : s.D) if (!has(AR, n) && active(n)) s.ok = false;
  }
};
// ---- bench: the real system with its model
struct Bench
{
  struct Answer { bool ok = false; std::string message; };
  Gen g;
  Model m;
  std::unique_ptr<Sys> sys;
  std::string last;  // last request, for messages
  std::map<std::string, std::string> types;
  std::map<std::string, Names> groups;  // controllers connected by their use of each other's interfaces
  void regroup()
  {
    groups.clear();
    for (auto & [n, mc] : m.c)
    {
      (void)mc;
      add(groups[n], n);
      Names todo = {n};
      while (!todo.empty())
      {
        auto x = todo.back();
        todo.pop_back();
        for (auto & [p, q] : m.c)
        {
          bool link = (m.st(x) != 1 && has(m.used(x), p)) || (q.st != 1 && has(m.used(p), x));
          if (link && !has(groups[n], p)) { add(groups[n], p); todo.push_back(p); }
        }
      }
    }
  }
  Names with_groups(const Names & v) const
  {
    Names r = v;
    for (auto & n : v) if (m.active(n) && groups.count(n)) for (auto & x : groups.at(n)) if (m.loaded(x)) add(r, x);
    return r;
  }
  Bench(Rng & r, const Opt & o, std::vector<rclcpp::Parameter> extra = {})
  {
    world().reset();
    hwf::world().reset();
    hwf::world().logging = false;
    g = generate(r, o);
    std::vector<rclcpp::Parameter> p = std::move(extra);
    Names init[5];
    for (auto & [h, st] : g.hw_initial) init[st].push_back(h);
    if (!init[1].empty()) p.emplace_back("hardware_components_initial_state.unconfigured", init[1]);
    if (!init[2].empty()) p.emplace_back("hardware_components_initial_state.inactive", init[2]);
    for (auto & h : g.hws)
    {
      m.hw_cmd[h.name] = h.cifs();
      m.hw_st[h.name] = g.hw_initial.count(h.name) ? g.hw_initial[h.name] : 3;
    }
    for (auto & d : g.defs)
    {
      world().ctl(d.name)->def = d;
      types[d.name] = d.chain ? "fake/chain" : "fake/plain";
      if (r.chance(o.bad_types)) types[d.name] = r.pick({std::string("fake/throwing"), std::string("fake/unknown"), std::string()});
      if (!types[d.name].empty()) p.emplace_back(d.name + ".type", types[d.name]);
      if (!d.fb.empty()) p.emplace_back(d.name + ".fallback_controllers", d.fb);
      std::lock_guard<std::mutex> l(shim::node_overrides_mutex());
      auto & ov = shim::node_overrides()[d.name];
      ov.clear();
      if (d.async) ov.emplace_back("is_async", true);
      if (d.rate) ov.emplace_back("update_rate", d.rate);
    }
    sys = std::make_unique<Sys>(hwf::urdf(g.hws), o.cm_rate, p);
    refresh();
  }
  ~Bench()
  {
    // the thread of an asynchronous controller must not outlive the controller
    Names act;
    bool async = false;
    for (auto & [n, mc] : m.c) if (mc.st == 3) { act.push_back(n); if (mc.d.async) async = true; }
    if (sys && async)
    {
      for (auto & [n, mc] : m.c) { (void)mc; for (const char * cb : {"deactivate", "update"}) world().set(n, cb, 0); }
      for (auto & h : g.hws) for (const char * cb : {"prepare", "perform"}) hwf::world().set(hwf::world().script(h.name), cb, 0);
      sys->next_step = nullptr;
      ask_switch({}, act, 1, true);
    }
    for (auto & [n, mc] : m.c) mc.ptr.reset();
    sys.reset();
    std::lock_guard<std::mutex> l(shim::node_overrides_mutex());
    shim::node_overrides().clear();
  }
  std::string describe() const
  {
    std::string s;
    for (auto & d : g.defs) s += show(d) + (m.loaded(d.name) ? std::string("=") + hwf::sname(m.st(d.name)) + (m.c.at(d.name).chained ? "/chained" : "") : "") + "; ";
    return s + " | " + last;
  }
  const Def & def(const std::string & n) const { for (auto & d : g.defs) if (d.name == n) return d; static Def none; return none; }
  void refresh()
  {
    auto l = sys->list_hw_ifs();
    m.cmd.clear();
    m.state.clear();
    for (auto & i : l->command_interfaces) if (!is_chain_if(i.name)) m.cmd[i.name] = {i.is_available, i.is_claimed};
    for (auto & i : l->state_interfaces) if (!is_chain_if(i.name)) m.state[i.name] = {i.is_available, false};
  }
  bool is_chain_if(const std::string & n) const { for (auto & d : g.defs) if (d.name == pre(n)) return true; return false; }
  bool load(const std::string & n)
  {
    auto rq = std::make_shared<srv::LoadController::Request>();
    rq->name = n;
    bool ok = false;
    sys->request([&] { ok = sys->call<srv::LoadController>("load_controller", rq)->ok; });
    return ok;
  }
  bool configure(const std::string & n)
  {
    auto rq = std::make_shared<srv::ConfigureController::Request>();
    rq->name = n;
    bool ok = false;
    sys->request([&] { ok = sys->call<srv::ConfigureController>("configure_controller", rq)->ok; });
    return ok;
  }
  bool unique(const Names & v) const { return std::set<std::string>(v.begin(), v.end()).size() == v.size(); }
  // load and configure everything that is not refused
  void setup(Rng & r, double unconfigured)
  {
    Names order;
    for (auto & d : g.defs) order.push_back(d.name);
    r.shuffle(order);
    for (auto & n : order)
    {
      bool ok = load(n);
      VCHECK(ok, "load_refused", "loading " << n << " is refused: " << describe());
      if (!ok) continue;
      MC mc;
      mc.d = def(n);
      m.c[n] = mc;
    }
    r.shuffle(order);
    Names skip;
    for (auto & n : order)
    {
      if (!m.loaded(n)) continue;
      if (r.chance(unconfigured)) continue;
      conf(n);
      if (r.chance(0.1)) conf(n);  // again
    }
    for (auto & [n, mc] : m.c) mc.ptr = find(n);
  }
  controller_interface::ControllerInterfaceBaseSharedPtr find(const std::string & n)
  {
    for (auto & s : sys->cm->get_loaded_controllers()) if (s.info.name == n) return s.c;
    return nullptr;
  }
  void conf(const std::string & n)
  {
    bool ok = configure(n);
    auto & mc = m.c[n];
    bool expect = unique(m.cmds(n)) && unique(m.sts(n));
    VCHECK(ok == expect, "configure_answer", "configuring " << n << " answers " << ok << " instead of " << expect << ": " << describe());
    mc.st = ok ? 2 : 1;
    mc.exported = ok && mc.d.chain;
    mc.chained = false;
    if (ok) regroup();
  }
  static Names sorted(Names v) { std::sort(v.begin(), v.end()); return v; }
  // every field of the listing of the controllers
  void audit_list(const srv::ListControllers::Response & l, const std::string & when)
  {
    for (auto & s : l.controller)
    {
      if (!m.loaded(s.name)) continue;
      auto & mc = m.c[s.name];
      auto same = [&](const char * what, const Names & got, const Names & want)
      { VCHECK(sorted(got) == sorted(want), std::string("listed_") + what, s.name << " is listed with " << what << " [" << vh::join(got) << "] instead of [" << vh::join(want) << "] (" << when << "): " << describe()); };
      VCHECK(s.type == types[s.name], "listed_type", s.name << " is listed with the type " << s.type << ": " << describe());
      VCHECK(s.is_chainable == mc.d.chain, "listed_chainable", s.name << " is listed as " << (s.is_chainable ? "" : "not ") << "chainable: " << describe());
      bool conf = mc.st == 2 || mc.st == 3;
      if (conf) VCHECK(s.is_async == mc.d.async, "listed_async", s.name << " is listed as " << (s.is_async ? "" : "not ") << "asynchronous: " << describe());
      if (conf) VCHECK(static_cast<int>(s.update_rate) == rate_of(mc.d, sys->rate), "listed_rate", s.name << " is listed with the rate " << s.update_rate << ": " << describe());
      same("required_command_interfaces", s.required_command_interfaces, conf ? m.cmds(s.name) : Names());
      same("required_state_interfaces", s.required_state_interfaces, conf ? m.sts(s.name) : Names());
      same("claimed_interfaces", s.claimed_interfaces, mc.st == 3 ? m.cmds(s.name) : Names());
      same("reference_interfaces", s.reference_interfaces, conf && mc.exported ? mc.d.refs : Names());
      same("exported_state_interfaces", s.exported_state_interfaces, conf && mc.exported ? mc.d.exps : Names());
      std::map<std::string, Names> want, got;
      if (conf) for (auto & i : m.cmds(s.name)) if (m.loaded(pre(i))) want[pre(i)].push_back(post(i));
      for (auto & c : s.chain_connections)
      {
        VCHECK(!got.count(c.name), "listed_chain_connections", s.name << " is listed with two connections to " << c.name << ": " << describe());
        got[c.name] = sorted(c.reference_interfaces);
      }
      for (auto & [k, v] : want) v = sorted(v);
      std::ostringstream o;
      for (auto & [k, v] : got) o << k << "[" << vh::join(v) << "] ";
      VCHECK(got == want, "listed_chain_connections", s.name << " is listed with the connections " << o.str() << "(" << when << "): " << describe());
      vh::rec().count("listed");
      if (!want.empty()) vh::rec().count("connections_listed");
    }
  }
  // nothing is left of controllers that are not loaded
  void audit_residue(const std::string & when)
  {
    Names nodes;
    for (auto & n : sys->ex->node_names()) if (world().ctls.count(n)) nodes.push_back(n);
    Names want;
    for (auto & [n, mc] : m.c) want.push_back(n);
    VCHECK(sorted(nodes) == sorted(want), "executor_nodes", "the executor has the nodes [" << vh::join(nodes) << "] but [" << vh::join(want) << "] are loaded (" << when << "): " << describe());
    for (auto & d : g.defs)
    {
      int live = world().ctl(d.name)->live;
      VCHECK(live == (m.loaded(d.name) ? 1 : 0), "live_instances", live << " instances of " << d.name << " exist (" << when << "): " << describe());
    }
    auto h = sys->list_hw_ifs();
    std::set<std::string> cmd, st;
    for (auto & i : h->command_interfaces) if (is_chain_if(i.name)) VCHECK(cmd.insert(i.name).second, "interface_twice", i.name << " is listed twice: " << describe());
    for (auto & i : h->state_interfaces) if (is_chain_if(i.name)) VCHECK(st.insert(i.name).second, "interface_twice", i.name << " is listed twice: " << describe());
    std::set<std::string> wc, ws;
    for (auto & [n, mc] : m.c)
    {
      if (!mc.exported) continue;
      for (auto & x : mc.d.refs) wc.insert(n + "/" + x);
      for (auto & x : mc.d.exps) ws.insert(n + "/" + x);
    }
    VCHECK(cmd == wc, "reference_residue", "the references [" << vh::join(Names(cmd.begin(), cmd.end())) << "] exist instead of [" << vh::join(Names(wc.begin(), wc.end())) << "] (" << when << "): " << describe());
    VCHECK(st == ws, "export_residue", "the exported states [" << vh::join(Names(st.begin(), st.end())) << "] exist instead of [" << vh::join(Names(ws.begin(), ws.end())) << "] (" << when << "): " << describe());
    // the statistics of every loaded controller and of the hardware, each once, and no others
    std::map<std::string, int> reg, must;
    auto stat = [&](const std::string & n) { for (auto k : {"max", "min", "average", "standard_deviation", "sample_count", "current_value"}) must[n + "/" + k] = 1; };
    for (auto & n : pal_statistics::getRegistry(hardware_interface::CM_STATISTICS_KEY)->names()) if (n.find(".stats/") != std::string::npos) ++reg[n];
    for (auto & [n, mc] : m.c) for (auto k : {"execution_time", "periodicity"}) stat(n + ".stats/" + k);
    auto hl = sys->list_hw();
    for (auto & c : hl->component)
      for (auto k : {"execution_time", "periodicity"}) { stat(c.name + ".stats/read_cycle/" + k); if (c.type != "sensor") stat(c.name + ".stats/write_cycle/" + k); }
    std::string diff;
    for (auto & [n, k] : reg) if (!must.count(n) || k != 1) diff += " +" + n + "x" + std::to_string(k);
    for (auto & [n, k] : must) if (!reg.count(n)) diff += " -" + n;
    VCHECK(diff.empty(), "statistics_registered", "the registered statistics differ from those of what is loaded:" << diff.substr(0, 400) << " (" << when << "): " << describe());
    vh::rec().count("statistics_audited");
  }
  // the life cycle of one controller; the expected callbacks go to cbs
  std::map<std::string, Names> cbs;
  int ans(const std::string & n, const std::string & cb) { cbs[n].push_back(cb); return m.ans(m.plan, n, cb); }
  void life_error(const std::string & n) { m.c[n].st = ans(n, "error") == 0 ? 1 : 4; }
  bool life_cleanup(const std::string & n)  // of an inactive controller
  {
    auto & mc = m.c[n];
    mc.exported = false;
    int a = ans(n, "cleanup");
    if (a == 0) mc.st = 1;
    if (a >= 2) life_error(n);
    if (mc.st == 2) mc.exported = mc.d.chain && !m.ans(m.plan, n, "export");
    return mc.st == 1;
  }
  bool life_load(const std::string & n)
  {
    if (types[n] == "fake/throwing" || types[n] == "fake/unknown" || types[n].empty() || m.loaded(n) || has(def(n).fb, n)) return false;
    if (int a = ans(n, "init"))
    {
      if (a < 3 && ans(n, "shutdown") >= 2) ans(n, "error");
      return false;
    }
    MC mc;
    mc.d = def(n);
    m.c[n] = mc;
    return true;
  }
  bool life_configure(const std::string & n)
  {
    if (!m.loaded(n) || m.st(n) > 2) return false;
    if (m.st(n) == 2 && !life_cleanup(n)) return false;
    auto & mc = m.c[n];
    int a = ans(n, "configure");
    mc.chained = false;
    if (a >= 2) life_error(n);
    if (a) return false;
    mc.st = 2;
    mc.exported = mc.d.chain && !m.ans(m.plan, n, "export");
    if ((mc.d.chain && !mc.exported) || !unique(m.cmds(n)) || !unique(m.sts(n))) { life_cleanup(n); return false; }
    return true;
  }
  bool life_unload(const std::string & n)
  {
    if (!m.loaded(n) || m.st(n) == 3) return false;
    if (m.st(n) == 2 && !life_cleanup(n)) return false;
    if (m.st(n) == 1) { int a = ans(n, "shutdown"); if (a >= 2) life_error(n); }
    m.c.erase(n);
    return true;
  }
  // one management request with its answer and callbacks
  void manage(const std::string & what, const std::string & n)
  {
    last = what + " " + n + " (" + (m.loaded(n) ? hwf::sname(m.st(n)) : "not loaded") + ")";
    for (const char * cb : {"init", "configure", "cleanup", "shutdown", "error", "export"}) if (int a = m.ans(m.plan, n, cb)) last += std::string(" ") + cb + "=" + std::to_string(a);
    if (getenv("VH_TRACE")) std::fprintf(stderr, "%s\n", describe().c_str());
    world().take();
    cbs.clear();
    bool ok = false, want = false;
    if (m.loaded(n)) m.c[n].ptr.reset();
    if (what == "load") { ok = load(n); want = life_load(n); }
    if (what == "configure") { ok = configure(n); want = life_configure(n); }
    if (what == "cleanup")
    {
      auto rq = std::make_shared<srv::CleanupController::Request>();
      rq->name = n;
      sys->request([&] { ok = sys->call<srv::CleanupController>("cleanup_controller", rq)->ok; });
      want = m.loaded(n) && (m.st(n) == 1 || (m.st(n) == 2 && life_cleanup(n)));
    }
    if (what == "unload")
    {
      auto rq = std::make_shared<srv::UnloadController::Request>();
      rq->name = n;
      sys->request([&] { ok = sys->call<srv::UnloadController>("unload_controller", rq)->ok; });
      want = life_unload(n);
    }
    VCHECK(ok == want, what + "_answer", "the request answers " << ok << " instead of " << want << ": " << describe());
    std::map<std::string, Names> seen;
    for (auto & e : world().take()) if (e.cb != "update") seen[e.ctrl].push_back(e.cb);
    for (auto & d : g.defs) VCHECK(seen[d.name] == cbs[d.name], what + "_callbacks", d.name << " is called [" << vh::join(seen[d.name]) << "] instead of [" << vh::join(cbs[d.name]) << "]: " << describe());
    if (m.loaded(n)) m.c[n].ptr = find(n);
    if (what == "configure" && want) regroup();
    vh::rec().count(what + (want ? "_done" : "_refused"));
    vh::rec().distinct(describe());
    if (vh::rec().current() < 3) vh::rec().sample(describe());
  }
  void reload(bool force)
  {
    last = force ? "reload by force" : "reload";
    world().take();
    bool act = false, ok = false;
    for (auto & [n, mc] : m.c) { mc.ptr.reset(); if (mc.st == 3) act = true; }
    auto rq = std::make_shared<srv::ReloadControllerLibraries::Request>();
    rq->force_kill = force;
    sys->request([&] { ok = sys->call<srv::ReloadControllerLibraries>("reload_controller_libraries", rq)->ok; });
    VCHECK(ok == (force || !act), "reload_answer", "the request answers " << ok << ": " << describe());
    if (ok) m.c.clear();
    for (auto & [n, mc] : m.c) mc.ptr = find(n);
    vh::rec().count("reloads");
  }
  // one quiet cycle and the listings against the model
  void audit(const std::string & when)
  {
    world().take();
    uint64_t c0 = world().cycle + 1;
    sys->cycle();
    auto log = world().take();
    auto & rec = vh::rec();
    std::map<std::string, Ev *> up;
    std::map<std::string, size_t> pos;
    size_t k = 0;
    for (auto & e : log)
    {
      if (e.cb != "update") { VCHECK(false, "stray_callback", "on_" << e.cb << " of " << e.ctrl << " is called in a quiet cycle (" << when << "): " << describe()); continue; }
      if (m.loaded(e.ctrl) && m.c[e.ctrl].d.async) continue;
      VCHECK(!up.count(e.ctrl), "update_twice", e.ctrl << " is updated twice in a cycle (" << when << "): " << describe());
      up[e.ctrl] = &e;
      pos[e.ctrl] = ++k;
    }
    (void)c0;
    for (auto & [n, mc] : m.c)
    {
      if (mc.d.async) continue;
      if (mc.st == 3 && mc.d.rate == 0) VCHECK(up.count(n), "not_updated", "active " << n << " is not updated (" << when << "): " << describe());
      if (mc.st != 3) VCHECK(!up.count(n), "updated_inactive", n << " is updated in state " << mc.st << " (" << when << "): " << describe());
      if (!up.count(n)) continue;
      auto & e = *up[n];
      VCHECK(e.ncmd == m.cmds(n).size() && e.nst == m.sts(n).size(), "missing_interfaces",
             n << " has " << e.ncmd << " command and " << e.nst << " state interfaces, declared " << m.cmds(n).size() << " and " << m.sts(n).size() << " (" << when << "): " << describe());
      VCHECK(e.chained == mc.chained, "chained_mode", n << (e.chained ? " is" : " is not") << " in chained mode (" << when << "): " << describe());
      for (auto & i : m.cmds(n)) VCHECK(e.wrote.count(i), "not_written", n << " could not write " << i << " (" << when << "): " << describe());
    }
    for (auto & [n, mc] : m.c)
    {
      if (!up.count(n)) continue;
      for (auto & i : m.cmds(n))
      {
        auto f = m.owner(i);
        if (f.empty() || !up.count(f)) continue;
        VCHECK(pos[n] < pos[f], "order", n << " runs after " << f << " whose reference it writes (" << when << "): " << describe());
        auto & fd = m.c[f].d;
        size_t x = std::find(fd.refs.begin(), fd.refs.end(), post(i)) - fd.refs.begin();
        rec.count("references_passed");
        if (x < up[f]->refs.size() && pos[n] < pos[f]) VCHECK(vh::same_bits(up[f]->refs[x], up[n]->wrote[i]), "reference_lost", f << " sees " << up[f]->refs[x] << " as " << i << " but " << n << " wrote " << up[n]->wrote[i] << " (" << when << "): " << describe());
      }
      for (auto & i : m.sts(n))
      {
        auto f = m.owner(i);
        if (f.empty() || !up.count(f)) continue;
        VCHECK(pos[f] < pos[n], "order", n << " runs before " << f << " whose state it reads (" << when << "): " << describe());
        auto & fd = m.c[f].d;
        size_t x = std::find(fd.exps.begin(), fd.exps.end(), post(i)) - fd.exps.begin();
        rec.count("states_passed");
        if (pos[f] < pos[n]) VCHECK(vh::same_bits(up[n]->states[i], up[f]->base + 0.5 + static_cast<double>(x) / 64.0), "state_lost", n << " reads " << up[n]->states[i] << " from " << i << " (" << when << "): " << describe());
      }
    }
    // listings
    auto l = sys->list();
    std::set<std::string> seen;
    for (auto & s : l->controller)
    {
      VCHECK(m.loaded(s.name) && seen.insert(s.name).second, "listed_unknown", s.name << " is listed (" << when << "): " << describe());
      if (!m.loaded(s.name)) continue;
      VCHECK(s.state == hwf::sname(m.st(s.name)), "listed_state", s.name << " is " << s.state << " instead of " << hwf::sname(m.st(s.name)) << " (" << when << "): " << describe());
      VCHECK(s.is_chained == m.c[s.name].chained, "chained_mode", s.name << (s.is_chained ? " is" : " is not") << " in chained mode, " << s.state << " (" << when << "): " << describe());
    }
    audit_list(*l, when);
    VCHECK(seen.size() == m.c.size(), "listed_missing", seen.size() << " of " << m.c.size() << " controllers are listed (" << when << "): " << describe());
    auto h = sys->list_hw_ifs();
    for (auto & i : h->command_interfaces)
    {
      auto cl = m.claimant(i.name);
      // an interface of a controller that was stopped under a user refusing to stop is not available, hence not listed as claimed
      VCHECK(i.is_claimed == (!cl.empty() && i.is_available), "claimed", i.name << (i.is_claimed ? " is claimed" : " is not claimed") << " but its user is '" << cl << "' (" << when << "): " << describe());
      auto o = m.owner(i.name);
      if (!o.empty()) VCHECK(i.is_available == m.active(o), "reference_availability", i.name << (i.is_available ? " is" : " is not") << " available although " << o << " is " << hwf::sname(m.st(o)) << " (" << when << "): " << describe());
    }
    for (auto & i : h->state_interfaces)
    {
      auto o = m.owner(i.name);
      if (!o.empty()) VCHECK(i.is_available == m.active(o), "export_availability", i.name << (i.is_available ? " is" : " is not") << " available although " << o << " is " << hwf::sname(m.st(o)) << " (" << when << "): " << describe());
    }
    // asynchronous controllers
    for (auto & [n, mc] : m.c)
    {
      if (!mc.d.async) continue;
      auto c = world().ctl(n);
      if (mc.st == 3)
      {
        uint64_t u = c->updates;
        bool ran = false;
        for (int q = 0; q < 4000 && !(ran = c->updates > u); ++q) { sys->cycle(); std::this_thread::sleep_for(std::chrono::microseconds(50)); }
        VCHECK(ran, "async_stuck", "active asynchronous " << n << " is not updated any more (" << when << "): " << describe());
        rec.count("async_alive");
      }
      else
      {
        uint64_t u = c->updates;
        sys->cycle();
        std::this_thread::sleep_for(std::chrono::microseconds(100));
        VCHECK(c->updates == u, "updated_inactive", "asynchronous " << n << " is still updated (" << when << "): " << describe());
        rec.count("async_quiet");
      }
    }
  }
  void draw_plans(Rng & r, double p, bool dfail = false)
  {
    for (auto & [n, mc] : m.c)
      for (const char * cb : {"activate", "deactivate", "error"})
      {
        int v = r.chance(std::string(cb) == "error" ? 0.3 : p) ? static_cast<int>(r.pick({1, 2, 3})) : 0;
        if (v == 1 && std::string(cb) == "deactivate" && !dfail) v = 2;
        m.plan[n][cb] = v;
        world().set(n, cb, v);
      }
    for (auto & h : g.hws)
      for (const char * cb : {"prepare", "perform"})
      {
        int v = r.chance(p * 0.5) ? static_cast<int>(r.pick({1, 1, 3, 4})) : 0;
        m.hwplan[h.name][cb] = v;
        auto s = hwf::world().script(h.name);
        hwf::world().set(s, cb, v);
      }
  }
  // what each hardware runs is what the active controllers command
  std::map<std::string, std::set<std::string>> commanded() const
  {
    std::map<std::string, std::set<std::string>> want;
    for (auto & [h, cs] : m.hw_cmd)
      for (auto & [n, mc] : m.c)
        if (mc.st == 3) for (auto & i : m.cmds(n)) if (has(cs, i)) want[h].insert(i);
    return want;
  }
  void sync_modes()
  {
    auto want = commanded();
    std::lock_guard<std::mutex> l(hwf::world().m);
    hwf::world().running = want;
    hwf::world().refused = false;
  }
  // untold: controllers that were to be activated but never came that far, or would not be deactivated; nothing says whether their hardware hears of it
  void audit_modes(const std::set<std::string> & untold)
  {
    auto want = commanded();
    std::lock_guard<std::mutex> l(hwf::world().m);
    if (hwf::world().refused) { vh::rec().count("mode_switches_refused"); return; }
    for (auto & [h, cs] : m.hw_cmd)
    {
      if (m.hw_st.at(h) != 3) continue;
      bool skip = false;
      for (auto & n : untold) for (auto & i : m.cmds(n)) skip |= has(cs, i);
      if (skip) { vh::rec().count("modes_not_compared"); continue; }
      auto & got = hwf::world().running[h];
      vh::rec().count("modes_compared");
      VCHECK(got == want[h], "hardware_modes", "hardware " << h << " was last told to run [" << vh::join(Names(got.begin(), got.end())) << "] but the active controllers command ["
                                                           << vh::join(Names(want[h].begin(), want[h].end())) << "]: " << describe());
    }
  }
  Answer ask_switch(const Names & A, const Names & D, int strictness, bool asap, int64_t timeout = 60000000000, bool stalled = false)
  {
    auto rq = std::make_shared<srv::SwitchController::Request>();
    rq->activate_controllers = A;
    rq->deactivate_controllers = D;
    rq->strictness = strictness;
    rq->activate_asap = asap;
    rq->timeout.sec = static_cast<int32_t>(timeout / 1000000000);
    rq->timeout.nanosec = static_cast<uint32_t>(timeout % 1000000000);
    Answer a;
    sys->request([&]
    {
      auto rs = sys->call<srv::SwitchController>("switch_controller", rq);
      a.ok = rs->ok;
      a.message = rs->message;
    }, stalled);
    return a;
  }
};
void one_switch(Bench & b, Rng & r, const Names & A, const Names & D, int strictness, bool strict_default)
{
  auto & rec = vh::rec();
  bool asap = r.chance(0.4);
  bool strict = strictness == 2 || (strictness == 0 && strict_default);
  std::ostringstream o;
  o << "+[" << vh::join(A) << "] -[" << vh::join(D) << "] " << (strict ? "strict" : "best effort") << (asap ? " asap" : "");
  b.last = o.str();
  b.refresh();
  Model before = b.m;
  auto s = b.m.plan_switch(A, D, strict);
  b.m.run(s, strict);
  b.last += s.refused ? " (refused: " + s.why + ")" : s.nothing ? " (nothing)" : " => +[" + vh::join(s.A) + "] -[" + vh::join(s.D) + "] *[" + vh::join(s.R) + "]";
  if (getenv("VH_TRACE")) std::fprintf(stderr, "%s\n", b.describe().c_str());
  world().take();
  // from here on the hardware is told every change
  Model now = b.m;
  b.m = before;
  b.sync_modes();
  b.m = now;
  // the control loop may be slow, or stand still until the request has timed out
  int64_t timeout = 60000000000;
  bool stalled = false, slow = false;
  if (r.chance(0.04))
  {
    stalled = true;
    timeout = static_cast<int64_t>(r.pick({uint64_t{1}, uint64_t{1000}, uint64_t{1000000}, uint64_t{4000000}}));
    if ((!s.refused || s.performed) && !s.nothing)
    {
      b.m = before;
      s = Model::Sw();
      s.refused = true;
      s.ok = false;
      s.why = "timeout";
      rec.count("timed_out");
    }
    b.last += " with the control loop standing still";
  }
  else if (r.chance(0.02))
  {
    timeout = 0;
    slow = true;
    auto slept = std::make_shared<int>(0);
    b.sys->before_cycle = [slept] { if ((*slept)++ < 2) std::this_thread::sleep_for(std::chrono::milliseconds(12)); };
    rec.count("default_timeouts");
  }
  uint64_t c0 = world().cycle;
  auto a = b.ask_switch(A, D, strictness, asap, timeout, stalled);
  if (slow) b.sys->before_cycle = nullptr;
  uint64_t c1 = world().cycle;
  auto log = world().take();
  if (!s.lenient) VCHECK(a.ok == s.ok, "switch_answer", "the switch answers " << a.ok << " ('" << a.message << "') instead of " << s.ok << ": " << b.describe());
  VCHECK(a.ok || !a.message.empty(), "switch_message", "a failed switch does not say why: " << b.describe());
  std::map<std::string, Names> cbs;
  std::map<std::string, std::map<uint64_t, int>> upd;
  bool activated = false;
  for (auto & e : log)
  {
    if (e.cb == "update")
    {
      upd[e.ctrl][e.cycle]++;
      continue;
    }
    cbs[e.ctrl].push_back(e.cb);
    if (e.cb == "activate") activated = true;
    if (e.cb == "deactivate" && !s.any_fail) VCHECK(!activated, "switch_order", e.ctrl << " is deactivated after another controller was activated: " << b.describe());
  }
  for (auto & d : b.g.defs)
  {
    auto & x = cbs[d.name];
    auto & y = s.cbs[d.name];
    VCHECK(x == y, "switch_callbacks", d.name << " is called [" << vh::join(x) << "] instead of [" << vh::join(y) << "]: " << b.describe());
  }
  for (auto & [n, mc] : before.c)
  {
    if (mc.d.async || mc.d.rate) continue;
    bool involved = has(s.A, n) || has(s.D, n) || has(s.R, n);
    if (mc.st == 3 && !involved)
      for (uint64_t c = c0 + 1; c <= c1; ++c) VCHECK(upd[n][c] == 1, "disturbed", "uninvolved " << n << " is updated " << upd[n][c] << " times in a cycle during a switch: " << b.describe());
    if (mc.st != 3 && b.m.st(n) != 3 && !s.any_fail) VCHECK(upd[n].empty(), "updated_inactive", n << " is updated although it is never active: " << b.describe());
  }
  rec.count(s.refused ? (s.performed ? "failed" : "refused") : s.nothing ? "nothing_to_do" : s.any_fail ? "with_failures" : "accepted");
  if (!s.R.empty() && s.performed) rec.count("restarts");
  if (!s.refused && !strict && !s.nothing) rec.count("best_effort");
  if (!s.to.empty() && s.performed) rec.count("chained");
  rec.distinct(b.describe());
  if (rec.current() < 3) rec.sample(b.describe());
  b.audit("after the switch");
  std::set<std::string> untold;
  for (auto * l : {&s.A, &s.R})
    for (auto & n : *l)
      if (b.m.st(n) != 3 && !has(cbs[n], std::string("activate"))) untold.insert(n);
  for (auto & n : s.D)
    if (b.m.st(n) == 3) untold.insert(n);  // refused to be deactivated after the hardware was told
  b.audit_modes(untold);
}
// a request that makes sense: everything needed to start or stop one controller, sometimes spoilt
void sensible(Bench & b, Rng & r, Names & A, Names & D, double spoil)
{
  Names all;
  for (auto & [n, mc] : b.m.c) all.push_back(n);
  A.clear();
  D.clear();
  if (all.empty()) return;
  Names need = {r.pick(all)};
  for (size_t q = 0; q < need.size(); ++q) for (auto & f : b.m.used(need[q])) add(need, f);
  if (b.m.active(need[0]) && r.chance(0.8))
  {
    Names stop = {need[0]};
    for (size_t q = 0; q < stop.size(); ++q) for (auto & p : all) if (b.m.active(p) && has(b.m.used(p), stop[q])) add(stop, p);
    D = stop;
    if (r.chance(0.4)) A = stop;
    if (r.chance(0.3) && A.size() > 1) A.erase(A.begin() + static_cast<long>(r.below(A.size())));
    // everything but one of those that use it
    if (r.chance(0.3) && D.size() > 2) D.erase(D.begin() + 1 + static_cast<long>(r.below(D.size() - 1)));
  }
  else
    for (auto & f : need)
    {
      if (!b.m.active(f)) A.push_back(f);
      // free what it needs
      for (auto & i : b.m.cmds(f))
      {
        auto cl = b.m.claimant(i);
        if (cl.empty() || has(need, cl) || has(D, cl)) continue;
        Names stop = {cl};
        for (size_t q = 0; q < stop.size(); ++q) for (auto & p : all) if (b.m.active(p) && has(b.m.used(p), stop[q])) add(stop, p);
        for (auto & x : stop) if (!has(need, x)) add(D, x);
      }
    }
  if (r.chance(spoil) && !A.empty()) A.erase(A.begin() + static_cast<long>(r.below(A.size())));
  if (r.chance(spoil) && !D.empty()) D.erase(D.begin() + static_cast<long>(r.below(D.size())));
  if (r.chance(spoil)) add(A, r.pick(all));
  if (r.chance(spoil)) add(D, r.pick(all));
  r.shuffle(A);
  r.shuffle(D);
}
void mode_switch(Rng & r, uint64_t, const vh::Args &)
{
  Opt o;
  o.async = 0.12;
  bool strict_default = r.chance(0.5);
  Bench b(r, o, {rclcpp::Parameter("defaults.switch_controller.strictness", std::string(strict_default ? "strict" : "best_effort"))});
  b.setup(r, 0.06);
  b.audit("after the start");
  int n = static_cast<int>(r.range(4, 14));
  for (int k = 0; k < n; ++k)
  {
    Names A, D, all;
    for (auto & d : b.g.defs) all.push_back(d.name);
    r.shuffle(all);
    int kind = static_cast<int>(r.below(4));
    for (auto & x : all)
    {
      bool act = b.m.active(x);
      double pa = kind == 0 ? 0.5 : act ? 0.08 : 0.45, pd = kind == 0 ? 0.5 : act ? 0.35 : 0.06;
      if (r.chance(pa)) A.push_back(x);
      if (r.chance(pd)) D.push_back(x);
    }
    if (kind == 3) sensible(b, r, A, D, 0.1);
    if (r.chance(0.06)) A.insert(A.begin() + static_cast<long>(r.below(A.size() + 1)), "unknown");
    if (r.chance(0.06)) D.insert(D.begin() + static_cast<long>(r.below(D.size() + 1)), "c111");
    if (r.chance(0.1) && !A.empty()) A.push_back(r.pick(A));
    if (r.chance(0.1) && !D.empty()) D.push_back(r.pick(D));
    b.draw_plans(r, r.pick({0.0, 0.0, 0.12, 0.3}), r.chance(0.2));
    int strictness = static_cast<int>(r.pick({2, 2, 2, 1, 1, 0, 3, 4}));
    one_switch(b, r, A, D, strictness, strict_default);
  }
}
void mode_chain(Rng & r, uint64_t, const vh::Args &)
{
  Opt o;
  o.min_ctrls = 3;
  o.max_ctrls = 10;
  o.chain = 1.0;
  o.exports = 0.7;
  o.async = 0.05;
  o.fallback = 0.05;
  o.initial = 0.05;
  o.bad = 0.02;
  Bench b(r, o);
  b.setup(r, r.pick({0.0, 0.0, 0.2}));
  b.audit("after the start");
  b.draw_plans(r, 0.0);
  int n = static_cast<int>(r.range(5, 16));
  Names all;
  for (auto & d : b.g.defs) all.push_back(d.name);
  for (int k = 0; k < n; ++k)
  {
    if (r.chance(0.25))
    {
      auto x = r.pick(all);
      b.manage(!b.m.loaded(x) ? "load" : r.pick({std::string("configure"), std::string("configure"), std::string("unload"), std::string("cleanup")}), x);
      b.audit("after the request");
      continue;
    }
    Names A, D;
    sensible(b, r, A, D, r.pick({0.0, 0.0, 0.3}));
    one_switch(b, r, A, D, static_cast<int>(r.pick({2, 2, 1})), true);
  }
}
void mode_life(Rng & r, uint64_t, const vh::Args &)
{
  Opt o;
  o.bad_types = 0.1;
  o.async = 0.1;
  o.bad = 0.2;
  o.fallback = 0.1;
  Bench b(r, o);
  Names all;
  for (auto & d : b.g.defs) all.push_back(d.name);
  for (auto & d : b.g.defs)  // a controller that names itself as its fallback is refused
    if (r.chance(0.03)) { d.fb.push_back(d.name); b.sys->cm->set_parameter(rclcpp::Parameter(d.name + ".fallback_controllers", d.fb)); }
  int n = static_cast<int>(r.range(10, 40));
  double bad = r.pick({0.0, 0.1, 0.25});
  for (int k = 0; k < n; ++k)
  {
    for (auto & x : all)
      for (const char * cb : {"init", "configure", "cleanup", "shutdown", "error", "export"})
      {
        int v = r.chance(bad) ? static_cast<int>(r.pick({1, 2, 3})) : 0;
        if (std::string(cb) == "shutdown" && v == 1) v = 0;
        b.m.plan[x][cb] = v;
        world().set(x, cb, v);
      }
    auto x = r.pick(all);
    int q = static_cast<int>(r.below(20));
    if (q == 0 && bad == 0.0) b.reload(r.chance(0.5));
    else if (q < 4)
    {
      Names A, D;
      b.refresh();
      sensible(b, r, A, D, 0.1);
      if (!A.empty() || !D.empty()) one_switch(b, r, A, D, 2, true);
    }
    else
    {
      std::string what = r.pick({std::string("load"), std::string("configure"), std::string("configure"), std::string("cleanup"), std::string("unload")});
      if (!b.m.loaded(x) && r.chance(0.8)) what = "load";
      if (b.m.st(x) == 1 && r.chance(0.5)) what = "configure";
      if (what == "load" && !b.m.loaded(x) && r.chance(0.3))  // comes back with other interfaces
        for (auto & d : b.g.defs)
          if (d.name == x && d.chain)
          {
            if (d.refs.size() > 1 && r.chance(0.5)) d.refs.pop_back();
            else if (d.exps.size() > 1) d.exps.pop_back();
            auto c = world().ctl(x);
            std::lock_guard<std::mutex> l(world().m);
            c->def = d;
          }
      b.manage(what, x);
    }
    b.audit("after the request");
    b.audit_residue("after the request");
  }
}
// one control cycle in which controllers and hardware fail
void one_failure(Bench & b, Rng & r, bool quiet_fallbacks)
{
  auto & rec = vh::rec();
  auto & m = b.m;
  b.refresh();
  if (quiet_fallbacks) b.draw_plans(r, 0.0);
  else b.draw_plans(r, r.pick({0.0, 0.0, 0.15}));
  for (auto & [n, mc] : m.c) { (void)mc; if (m.plan[n]["deactivate"] == 1) { m.plan[n]["deactivate"] = 0; world().set(n, "deactivate", 0); } }
  std::map<std::string, int> rd, wr, up;
  int kind = static_cast<int>(r.below(6));
  std::vector<int> wpool = r.chance(0.5) ? std::vector<int>{2} : std::vector<int>{1, 3, 4};
  for (auto & h : b.g.hws)
  {
    if ((kind == 1 || kind == 5) && r.chance(0.5)) rd[h.name] = static_cast<int>(r.range(1, 4));
    if ((kind == 2 || kind == 5) && r.chance(0.5)) wr[h.name] = r.pick(wpool);
    m.hwplan[h.name]["error"] = r.chance(0.15) ? 2 : 0;
  }
  double pf = r.pick({0.15, 0.4, 0.8});
  for (auto & [n, mc] : m.c) if (kind != 1 && kind != 2 && mc.st == 3 && !mc.d.async && r.chance(pf)) up[n] = static_cast<int>(r.pick({1, 3, 4}));
  std::ostringstream o;
  o << "failing:";
  for (auto & [h, v] : rd) o << " read of " << h << "(" << hwf::sname(m.hw_st[h]) << ")=" << v;
  for (auto & [n, v] : up) o << " update of " << n << "=" << v;
  for (auto & [h, v] : wr) o << " write of " << h << "(" << hwf::sname(m.hw_st[h]) << ")=" << v;
  b.last = o.str();
  if (getenv("VH_TRACE")) std::fprintf(stderr, "%s\n", b.describe().c_str());
  for (auto & h : b.g.hws)
  {
    auto sc = hwf::world().script(h.name);
    hwf::world().set(sc, "read", rd.count(h.name) ? rd[h.name] : 0);
    hwf::world().set(sc, "write", wr.count(h.name) ? wr[h.name] : 0);
    hwf::world().set(sc, "error", m.hwplan[h.name]["error"]);
  }
  for (auto & [n, v] : up) world().set(n, "update", v);
  Model before = m;
  b.sync_modes();
  // what has to happen
  Model::Sw s;
  auto hw_fails = [&](const hwf::HwD & h)
  {
    m.hw_st[h.name] = m.hwplan[h.name]["error"] ? 4 : 1;
    for (auto & i : h.cifs()) m.cmd[i].avail = false;
    for (auto & i : h.sifs()) m.state[i].avail = false;
  };
  auto depends = [&](const std::string & n, const hwf::HwD & h, bool states)
  {
    auto c = h.cifs(), t = h.sifs();
    for (auto & i : m.cmds(n)) if (has(c, i)) return true;
    if (states) for (auto & i : m.sts(n)) if (has(t, i)) return true;
    return false;
  };
  auto stop = [&](const std::vector<const hwf::HwD *> & failed, bool states)
  {
    Names D;
    for (auto * h : failed) for (auto & [n, mc] : m.c) if (mc.st == 3 && depends(n, *h, states)) add(D, n);
    Names all = b.with_groups(D);
    for (auto & n : all) m.deactivate(n, s);
    if (!D.empty()) rec.count(states ? "stopped_for_failed_hardware" : "stopped_for_inactive_hardware");
    if (all.size() > D.size()) rec.count("stopped_with_group");
  };
  std::vector<const hwf::HwD *> failed;
  for (auto & h : b.g.hws)
    if (rd.count(h.name) && (m.hw_st[h.name] == 2 || m.hw_st[h.name] == 3)) { failed.push_back(&h); hw_fails(h); }
  stop(failed, true);
  Names updated, bad;
  for (auto & [n, mc] : m.c) if (mc.st == 3 && !mc.d.async) { updated.push_back(n); if (up.count(n)) bad.push_back(n); }
  bool ambiguous = false;
  Names fbs, tried;
  if (!bad.empty())
  {
    Names D = b.with_groups(bad), FB, U, CH;
    for (auto & n : D)
      if (m.active(n))
        for (auto & f : m.c[n].d.fb)
        {
          if (m.active(f) && !has(D, f)) continue;
          add(FB, f);
          if (!m.loaded(f)) continue;
          for (auto & i : m.cmds(f)) { auto cl = m.claimant(i); if (!cl.empty()) add(U, cl); }
        }
    for (auto & n : b.with_groups(U)) add(D, n);
    for (auto & n : Names(FB))
      if (m.loaded(n))
        for (auto & f : m.used(n, false))
        {
          if (m.active(f) && !has(D, f) && !m.c[f].chained) { add(D, f); add(FB, f); }
          if (has(FB, f)) add(CH, f);
        }
    for (auto & n : D) m.deactivate(n, s);
    for (auto & n : CH) if (m.c[n].st == 2) m.c[n].chained = true;
    Names left = FB, order;
    while (!left.empty())
    {
      bool moved = false;
      for (auto & n : Names(left))
      {
        bool wait = false;
        if (m.loaded(n)) for (auto & f : m.used(n)) if (has(left, f)) wait = true;
        if (wait) continue;
        order.push_back(n);
        del(left, n);
        moved = true;
        break;
      }
      if (!moved) break;
    }
    std::set<std::string> wanted;
    tried = order;
    for (auto & n : order) if (m.loaded(n)) for (auto & i : m.cmds(n)) if (!wanted.insert(i).second) ambiguous = true;
    bool all = true;
    for (auto & n : order)
    {
      if (!m.loaded(n)) continue;
      if (!m.activate(n, s)) all = false;
      else fbs.push_back(n);
    }
    if (!all) for (auto & n : order) if (m.loaded(n)) m.deactivate(n, s);
    if (!fbs.empty() && !all) rec.count("fallback_rolled_back");
    if (!all) fbs.clear();
    rec.count("failed_updates", bad.size());
    if (D.size() > bad.size()) rec.count("failed_with_group");
    if (!fbs.empty()) rec.count("fallbacks_activated");
    if (!FB.empty() && fbs.empty()) rec.count("fallbacks_impossible");
  }
  failed.clear();
  bool self = false;
  for (auto & h : b.g.hws)
    if (wr.count(h.name) && m.hw_st[h.name] == 3 && h.type != "sensor")
    {
      failed.push_back(&h);
      if (wr[h.name] == 2) { self = true; m.hw_st[h.name] = 2; }
      else hw_fails(h);
    }
  stop(failed, !self);
  // what happens
  world().take();
  auto ret = b.sys->cycle();
  auto log = world().take();
  for (auto & h : b.g.hws)
  {
    auto sc = hwf::world().script(h.name);
    for (const char * cb : {"read", "write", "error"}) hwf::world().set(sc, cb, 0);
    m.hwplan[h.name]["error"] = 0;
  }
  for (auto & [n, v] : up) { (void)v; world().set(n, "update", 0); }
  VCHECK((ret == CtrlRet::OK) == bad.empty(), "failure_reported", "the cycle answers " << static_cast<int>(ret) << ": " << b.describe());
  std::map<std::string, Names> cbs;
  std::map<std::string, int> ups;
  for (auto & e : log)
  {
    if (e.cb == "update")
    {
      ups[e.ctrl]++;
      if (m.loaded(e.ctrl) && !m.c[e.ctrl].d.async)
        VCHECK(cbs[e.ctrl].empty(), "updated_after_stop", e.ctrl << " is updated after it was stopped in the same cycle: " << b.describe());
    }
    else cbs[e.ctrl].push_back(e.cb);
  }
  for (auto & d : b.g.defs)
  {
    if (!ambiguous) VCHECK(cbs[d.name] == s.cbs[d.name], "failure_callbacks", d.name << " is called [" << vh::join(cbs[d.name]) << "] instead of [" << vh::join(s.cbs[d.name]) << "]: " << b.describe());
    if (d.async) continue;
    VCHECK(ups[d.name] == (has(updated, d.name) ? 1 : 0), "failure_updates", d.name << " is updated " << ups[d.name] << " times in the cycle of the failure: " << b.describe());
    if (has(updated, d.name) && before.active(d.name) && m.active(d.name) && !has(bad, d.name)) rec.count("undisturbed");
  }
  if (ambiguous)
  {
    // fallback controllers wanting the same interface: none of them stays active, which of them were tried first is not specified
    auto cl = b.sys->list();
    for (auto & c : cl->controller)
    {
      if (!has(tried, c.name)) continue;
      VCHECK(c.state != "active", "conflicting_fallbacks", c.name << " is active although the fallback controllers exclude each other: " << b.describe());
      for (int q = 1; q <= 4; ++q) if (c.state == hwf::sname(q)) m.c[c.name].st = q;
    }
    rec.count("conflicting_fallbacks");
  }
  auto hl = b.sys->list_hw();
  for (auto & c : hl->component)
    VCHECK(c.state.id == m.hw_st[c.name], "hardware_state", c.name << " is " << hwf::sname(c.state.id) << " instead of " << hwf::sname(m.hw_st[c.name]) << ": " << b.describe());
  Model after = m;
  b.refresh();
  for (auto & [i, v] : after.cmd) VCHECK(m.cmd[i].avail == v.avail, "hardware_availability", "command interface " << i << (v.avail ? " is not" : " is") << " available: " << b.describe());
  for (auto & [i, v] : after.state) VCHECK(m.state[i].avail == v.avail, "hardware_availability", "state interface " << i << (v.avail ? " is not" : " is") << " available: " << b.describe());
  for (auto & h : b.g.hws) if (rd.count(h.name) || wr.count(h.name)) rec.count("hardware_failures");
  rec.distinct(b.describe());
  if (rec.current() < 3) rec.sample(b.describe());
  b.audit("after the failure");
  if (ambiguous) return;
  // a switch that would start interfaces of inactive hardware is refused
  for (auto & n : tried)
    if (m.loaded(n))
      for (auto & [h, cs] : m.hw_cmd)
        if (before.hw_st.at(h) == 2)
          for (auto & i : m.cmds(n)) if (has(cs, i)) { rec.count("modes_refused"); return; }
  std::set<std::string> untold;
  for (auto & n : tried)
    if (m.loaded(n) && m.st(n) != 3 && !has(cbs[n], std::string("activate"))) untold.insert(n);
  b.audit_modes(untold);
}
void mode_fail(Rng & r, uint64_t, const vh::Args &)
{
  Opt o;
  o.async = 0.12;
  o.fallback = 0.6;
  o.wild = 0.0;
  o.bad = 0.02;
  o.initial = 0.08;
  o.max_ctrls = 9;
  bool chains = r.chance(0.6);
  o.chain = chains ? 1.0 : 0.0;
  Bench b(r, o);
  b.setup(r, r.pick({0.0, 0.0, 0.1}));
  b.audit("after the start");
  b.draw_plans(r, 0.0);
  int n = static_cast<int>(r.range(4, 9));
  for (int k = 0; k < n; ++k)
  {
    // bring things up
    for (auto & h : b.g.hws)
      if (b.m.hw_st[h.name] != 3 && r.chance(0.6))
      {
        auto rq = std::make_shared<srv::SetHardwareComponentState::Request>();
        rq->name = h.name;
        rq->target_state.id = 3;
        rq->target_state.label = "active";
        b.sys->request([&] { b.sys->call<srv::SetHardwareComponentState>("set_hardware_component_state", rq); });
        if (b.m.hw_st[h.name] != 4) b.m.hw_st[h.name] = 3;
        b.refresh();
        vh::rec().count("hardware_brought_back");
      }
    Names cs;
    for (auto & [c, mc] : b.m.c) if (mc.st == 1) cs.push_back(c);
    for (auto & c : cs) if (r.chance(0.7)) { b.refresh(); b.manage("configure", c); b.audit("after the request"); }
    b.draw_plans(r, 0.0);
    for (int q = static_cast<int>(r.range(1, 4)); q > 0; --q)
    {
      Names A, D;
      b.refresh();
      sensible(b, r, A, D, 0.0);
      bool starts = !A.empty();
      if (!D.empty() && !starts && r.chance(0.6)) continue;
      one_switch(b, r, A, D, static_cast<int>(r.pick({2, 2, 1})), true);
    }
    for (int q = static_cast<int>(r.pick({1, 1, 2, 3})); q > 0; --q) one_failure(b, r, r.chance(0.6));
    b.draw_plans(r, 0.0);
  }
}
// the recorded history of a whole run against the rule of when an active controller is due
void check_rates(Bench & b, const std::vector<Ev> & tape, int cm)
{
  auto & rec = vh::rec();
  struct C { bool active = false, first = true, first0 = true; int64_t last = 0, last0 = 0; int ups = 0; bool shaken = false, was_active = false; uint64_t due = 0, ran = 0; };
  std::map<std::string, C> cs;
  std::map<std::string, Def> defs;
  for (auto & d : b.g.defs) defs[d.name] = d;
  int64_t now = 0, step = 0;
  bool started = false, request = false;
  auto close = [&]
  {
    if (!started) return;
    for (auto & [n, d] : defs)
    {
      auto & c = cs[n];
      int rate = rate_of(d, cm);
      // a controller that may be part of a switch is judged by its own history only
      if (c.was_active && c.active && !c.shaken)
      {
        bool due = c.first0 || rate >= cm, tie = false;
        int64_t period = c.first0 ? (rate >= cm ? step : static_cast<int64_t>(1e9 / rate)) : now - c.last0;
        if (!due)
        {
          double sec = static_cast<double>(period) * 1e-9;
          double e0 = std::fabs(sec * rate - 1), e1 = std::fabs((sec + 1.0 / cm) * rate - 1);
          due = e0 <= e1;
          tie = std::fabs(e0 - e1) < 1e-6;
        }
        if (d.async)
        {
          // the thread of an asynchronous controller may miss a trigger
          if (due || tie) { c.due++; if (!tie) { c.last = now; c.first = false; } else c.shaken = true; }
        }
        else
        {
          if (!tie) VCHECK(c.ups == (due ? 1 : 0), "due", n << " (" << d.rate << " Hz, " << rate << " of " << cm << ") is updated " << c.ups << " times " << period << " ns after its last update" << (c.first0 ? " (first)" : "") << ": " << b.describe());
          else VCHECK(c.ups <= 1, "due", n << " is updated " << c.ups << " times in a cycle: " << b.describe());
          rec.count(due ? "due" : "not_due");
          if (rate < cm && due) rec.count("slow_due");
          rec.distinct(std::to_string(d.rate) + "/" + std::to_string(cm) + "/" + std::to_string(period / 1000));
        }
      }
      else if (!c.was_active && !c.active && !c.shaken && !d.async) VCHECK(c.ups == 0, "updated_inactive", n << " is updated although it is not active: " << b.describe());
    }
  };
  for (size_t k = 0; k < tape.size(); ++k)
  {
    auto & e = tape[k];
    if (e.cb == "cycle")
    {
      close();
      now = e.t;
      step = e.period;
      started = true;
      for (auto & [n, c] : cs) { (void)n; c.ups = 0; c.shaken = request && c.shaken; c.was_active = c.active; c.first0 = c.first; c.last0 = c.last; if (c.shaken) c.due++; }
      continue;
    }
    if (e.cb == "request")
    {
      request = true;
      for (size_t x = k; x < tape.size() && tape[x].cb != "requested"; ++x)
        if (tape[x].cb == "activate" || tape[x].cb == "deactivate") cs[tape[x].ctrl].shaken = true;
      continue;
    }
    if (e.cb == "requested") { request = false; continue; }
    if (e.cb.empty() || !defs.count(e.ctrl)) continue;
    auto & c = cs[e.ctrl];
    auto & d = defs[e.ctrl];
    if (e.cb == "update")
    {
      ++c.ups;
      c.ran++;
      int rate = rate_of(d, cm);
      if (!d.async)
      {
        VCHECK(c.active, "updated_inactive", e.ctrl << " is updated although it is not active: " << b.describe());
        int64_t want = c.first ? (rate >= cm ? step : static_cast<int64_t>(1e9 / rate)) : now - c.last;
        VCHECK(std::llabs(e.period - want) <= 2, "period", e.ctrl << " (" << d.rate << " Hz, " << rate << " of " << cm << ") is given the period " << e.period << " instead of " << want << (c.first ? " in its first update" : "") << ": " << b.describe());
        VCHECK(e.t == now, "time", e.ctrl << " is given the time " << e.t << " at " << now << ": " << b.describe());
        if (c.first) rec.count("first_updates");
        c.first = false;
        c.last = now;
      }
      else VCHECK(e.period > 0, "period", e.ctrl << " is given the period " << e.period << ": " << b.describe());
    }
    else if (e.cb == "activate" || e.cb == "deactivate")
    {
      bool on = e.cb == "activate" && e.answer == 0;
      if (e.cb == "deactivate" && e.answer == 1) continue;
      if (d.async) { VCHECK(c.ran <= c.due + 3, "async_too_often", e.ctrl << " was updated " << c.ran << " times when " << c.due << " updates were due: " << b.describe()); c.ran = c.due = 0; }
      c.active = on;
      c.first = true;
      c.shaken = true;  // being switched
    }
  }
}
void mode_rate(Rng & r, uint64_t, const vh::Args &)
{
  Opt o;
  o.cm_rate = static_cast<int>(r.pick({1, 7, 10, 50, 100, 100, 200, 333, 1000}));
  o.rates = 0.8;
  o.async = 0.15;
  o.chain = 0.4;
  o.fallback = 0.0;
  o.wild = 0.1;
  o.initial = 0.0;
  o.bad = 0.0;
  Bench b(r, o);
  world().taping = true;
  const int64_t nominal = b.sys->step;
  double jitter = r.pick({0.0, 0.0, 0.01, 0.1, 0.5});
  double stall = r.chance(0.3) ? 0.02 : 0.0;
  Rng q(r.next());
  b.sys->next_step = [&]
  {
    double f = 1.0 + jitter * (2.0 * q.unit() - 1.0);
    if (q.chance(stall)) f *= static_cast<double>(q.range(2, 12));
    return std::max<int64_t>(1, static_cast<int64_t>(static_cast<double>(nominal) * f));
  };
  b.setup(r, 0.0);
  b.audit("after the start");
  b.draw_plans(r, 0.0);
  int n = static_cast<int>(r.range(3, 8));
  for (int k = 0; k < n; ++k)
  {
    Names A, D;
    b.refresh();
    sensible(b, r, A, D, 0.1);
    one_switch(b, r, A, D, static_cast<int>(r.pick({2, 2, 1})), true);
    int m = static_cast<int>(r.range(5, 150));
    for (int c = 0; c < m; ++c) b.sys->cycle();
  }
  b.sys->next_step = nullptr;
  world().taping = false;
  check_rates(b, world().tape, o.cm_rate);
}

// ---- diagnostics and the activity message
struct Thr
{
  double mw, me, sw, se;
  bool tie = false;
  int level(double mean_error, double sd)
  {
    for (double t : {mw, me}) if (std::abs(mean_error - t) < 1e-6 * std::max(1.0, t)) tie = true;
    for (double t : {sw, se}) if (std::abs(sd - t) < 1e-6 * std::max(1.0, t)) tie = true;
    return mean_error > me || sd > se ? 2 : mean_error > mw || sd > sw ? 1 : 0;
  }
};
struct PeekCM : controller_manager::ControllerManager
{
  static hardware_interface::ResourceManager & rm(controller_manager::ControllerManager & c) { return *(c.*(&PeekCM::resource_manager_)); }
};
using Statuses = std::map<std::string, diagnostic_updater::DiagnosticStatusWrapper>;
Statuses run_diagnostics()
{
  Statuses r;
  for (auto & [k, u] : diagnostic_updater::Updater::registry())
  {
    (void)k;
    for (auto & s : u->run())
    {
      std::string what = s.name.find("Hardware") != std::string::npos ? "hw" : s.name.find("Controllers") != std::string::npos ? "ctrl" : "cm";
      VCHECK(!r.count(what), "diagnostic_twice", "two diagnostics like " << s.name);
      r[what] = s;
    }
  }
  for (const char * w : {"hw", "ctrl", "cm"}) VCHECK(r.count(w), "diagnostic_missing", "no diagnostic " << w);
  return r;
}
struct Diag
{
  Bench & b;
  Thr cp, ce, hp, he, mp;
  std::vector<double> cm;                               // 1 / period of every cycle
  std::map<std::string, std::vector<double>> per;       // measured periodicity of every controller
  std::map<std::string, bool> fresh;
  size_t tape_pos = 0;
  static Thr draw(Rng & r, double a, double s)
  {
    auto v = [&](double x) { return x * std::exp2(r.unit() * 6.0 - 3.0); };
    Thr t{v(a), v(2 * a), v(s), v(2 * s)};
    if (r.chance(0.8)) { t.me = std::max(t.me, t.mw); t.se = std::max(t.se, t.sw); }
    return t;
  }
  static void params(const std::string & n, const Thr & t, std::vector<rclcpp::Parameter> & p)
  {
    std::string k = "diagnostics.threshold." + n;
    p.emplace_back(k + ".mean_error.warn", t.mw);
    p.emplace_back(k + ".mean_error.error", t.me);
    p.emplace_back(k + ".standard_deviation.warn", t.sw);
    p.emplace_back(k + ".standard_deviation.error", t.se);
  }
  void follow()
  {
    auto & t = world().tape;
    for (; tape_pos < t.size(); ++tape_pos)
    {
      auto & e = t[tape_pos];
      if (e.cb == "cycle") cm.push_back(1e9 / static_cast<double>(e.period));
      if (e.cb == "activate") { per[e.ctrl].clear(); fresh[e.ctrl] = true; }
      if (e.cb == "update" && e.answer < 3)
      {
        if (!fresh[e.ctrl]) per[e.ctrl].push_back(1e9 / static_cast<double>(e.period));
        fresh[e.ctrl] = false;
      }
    }
  }
  static double mean(const std::vector<double> & v) { long double s = 0; for (double x : v) s += x; return v.empty() ? std::nan("") : static_cast<double>(s / static_cast<long double>(v.size())); }
  static double dev(const std::vector<double> & v) { if (v.empty()) return std::nan(""); long double m = mean(v), s = 0; for (double x : v) s += (x - m) * (x - m); return static_cast<double>(std::sqrt(s / static_cast<long double>(v.size()))); }
  static bool near(double a, double b, double rel = 1e-6) { return (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= rel * std::max({1.0, std::abs(a), std::abs(b)}); }
  static std::set<std::string> tokens(const std::string & s) { std::istringstream i(s); std::set<std::string> r; std::string x; while (i >> x) r.insert(x); return r; }
  static std::map<std::string, std::string> values(const diagnostic_updater::DiagnosticStatusWrapper & s) { std::map<std::string, std::string> r; for (auto & k : s.values) { VCHECK(!r.count(k.key), "value_twice", "the value " << k.key << " is reported twice"); r[k.key] = k.value; } return r; }
  void shown(const std::map<std::string, std::string> & v, const std::string & key, double avg)
  {
    auto i = v.find(key);
    VCHECK(i != v.end(), "value_missing", "the value " << key << " is not reported: " << b.describe());
    if (i == v.end()) return;
    auto at = i->second.find_first_of("0123456789-n", i->second.find(':') == std::string::npos ? 0 : i->second.find(':'));
    double x = at == std::string::npos ? std::nan("") : std::strtod(i->second.c_str() + at, nullptr);
    VCHECK((std::isnan(x) && std::isnan(avg)) || std::abs(x - avg) <= 0.0051 + 1e-9 * std::abs(avg), "value", key << " is reported as '" << i->second << "' instead of " << avg << ": " << b.describe());
  }
  // statistics that are good, bad or unmeasured
  void inject(Rng & r)
  {
    auto put = [&](auto & st, double base, const Thr & t, std::vector<double> * known)
    {
      if (r.chance(0.25)) { st->reset(); if (known) known->clear(); }
      double d = r.pick({0.0, t.mw, t.me, t.sw, t.se}) * r.pick({0.5, 0.9, 1.1, 1.5, -0.9, -1.1});
      int n = static_cast<int>(r.pick({0, 1, 2, 4}));
      for (int k = 0; k < n; ++k)
      {
        double v = base + d + (k % 2 ? 1 : -1) * (r.chance(0.5) ? 0.0 : r.pick({t.sw, t.se}) * r.pick({0.8, 1.2}));
        st->add_measurement(v);
        if (known) known->push_back(v);
      }
    };
    for (auto & s : b.sys->cm->get_loaded_controllers())
    {
      if (!r.chance(0.35)) continue;
      auto d = b.def(s.info.name);
      double rate = s.c->get_update_rate();
      put(s.periodicity_statistics, rate, cp, &per[s.info.name]);
      put(s.execution_time_statistics, d.async ? 1e6 / std::max(1.0, rate) : 0.0, ce, nullptr);
      vh::rec().count("injected_controllers");
    }
    for (auto & [n, i] : PeekCM::rm(*b.sys->cm).get_components_status())
      for (auto & d : {i.read_statistics, i.write_statistics})
      {
        if (!d || !r.chance(0.35)) continue;
        auto p = std::make_shared<ros2_control::MovingAverageStatistics>(), e = std::make_shared<ros2_control::MovingAverageStatistics>();
        put(p, i.rw_rate, hp, nullptr);
        put(e, i.is_async ? 1e6 / i.rw_rate : 0.0, he, nullptr);
        d->periodicity.update_statistics(p);
        d->execution_time.update_statistics(e);
        vh::rec().count("injected_hardware");
      }
  }
  void check_activity(const std::string & when)
  {
    auto msg = b.sys->cm->shim_publisher<controller_manager_msgs::msg::ControllerManagerActivity>("~/activity")->last();
    VCHECK(msg, "no_activity", "nothing is published about the activity");
    if (!msg) return;
    auto show = [](const std::map<std::string, std::string> & m) { std::string s; for (auto & [k, v] : m) s += k + "=" + v + " "; return s; };
    std::map<std::string, std::string> want, got, hwant, hgot;
    auto cl = b.sys->list();
    for (auto & c : cl->controller) want[c.name] = c.state;
    for (auto & c : msg->controllers)
    {
      VCHECK(!got.count(c.name), "activity_twice", c.name << " is twice in the activity: " << b.describe());
      got[c.name] = c.state.label;
      VCHECK(c.state.label == hwf::sname(c.state.id), "activity_label", c.name << " has the state " << static_cast<int>(c.state.id) << " " << c.state.label << ": " << b.describe());
    }
    auto hl = b.sys->list_hw();
    for (auto & c : hl->component) hwant[c.name] = c.state.label;
    for (auto & c : msg->hardware_components)
    {
      VCHECK(!hgot.count(c.name), "activity_twice", c.name << " is twice in the activity: " << b.describe());
      hgot[c.name] = c.state.label;
      VCHECK(c.state.label == hwf::sname(c.state.id), "activity_label", c.name << " has the state " << static_cast<int>(c.state.id) << " " << c.state.label << ": " << b.describe());
    }
    VCHECK(got == want, "activity_controllers", "the activity says " << show(got) << "instead of " << show(want) << "(" << when << "): " << b.describe());
    VCHECK(hgot == hwant, "activity_hardware", "the activity says " << show(hgot) << "instead of " << show(hwant) << "(" << when << "): " << b.describe());
    vh::rec().count("activities");
  }
  static bool contains(const std::set<std::string> & big, const std::set<std::string> & all, const std::set<std::string> & want)
  {
    for (auto & n : all) if (big.count(n) != want.count(n)) return false;
    return true;
  }
  void check(const std::string & when)
  {
    auto & rec = vh::rec();
    follow();
    check_activity(when);
    // what holds
    struct C { std::string name; int st; bool async; unsigned rate; libstatistics_collector::moving_average_statistics::StatisticData p, e; };
    auto look = [&]
    {
      std::vector<C> v;
      for (auto & s : b.sys->cm->get_loaded_controllers()) v.push_back({s.info.name, static_cast<int>(s.c->get_lifecycle_state().id()), s.c->is_async(), s.c->get_update_rate(), s.periodicity_statistics->get_statistics(), s.execution_time_statistics->get_statistics()});
      return v;
    };
    struct H { std::string name, dir; int st; bool async; unsigned rate; libstatistics_collector::moving_average_statistics::StatisticData p, e; };
    auto lookh = [&]
    {
      std::vector<H> v;
      for (auto & [n, i] : PeekCM::rm(*b.sys->cm).get_components_status())
        for (int w = 0; w < 2; ++w)
        {
          auto & d = w ? i.write_statistics : i.read_statistics;
          H h{n, w ? "write" : "read", static_cast<int>(i.state.id()), i.is_async, i.rw_rate, {}, {}};
          if (d) { h.p = d->periodicity.get_statistics(); h.e = d->execution_time.get_statistics(); }
          if (d) v.push_back(h);
          else if (!w) VCHECK(false, "no_statistics", n << " has no read statistics: " << b.describe());
        }
      return v;
    };
    auto same = [](auto & x, auto & y) { if (x.size() != y.size()) return false; for (size_t k = 0; k < x.size(); ++k) if (x[k].p.sample_count != y[k].p.sample_count || x[k].e.sample_count != y[k].e.sample_count) return false; return true; };
    auto cs = look();
    auto hs = lookh();
    auto st = run_diagnostics();
    auto cs2 = look();
    auto hs2 = lookh();
    if (!same(cs, cs2) || !same(hs, hs2)) { rec.count("changed_meanwhile"); return; }
    const int cm_rate = b.sys->rate;
    bool hw_active = false;
    std::set<std::string> hw_names;
    for (auto & h : hs) { hw_names.insert(h.name); if (h.st == 3) hw_active = true; }
    auto lv = [](int l) { return l == 0 ? "OK" : l == 1 ? "WARN" : "ERROR"; };
    // controllers
    {
      cp.tie = ce.tie = false;
      auto & s = st["ctrl"];
      auto v = values(s);
      int want = 0;
      std::set<std::string> bad, names;
      for (auto & c : cs)
      {
        names.insert(c.name);
        VCHECK(v.count(c.name + ".state") && v[c.name + ".state"] == hwf::sname(c.st), "controller_state", "the state of " << c.name << " is reported as '" << v[c.name + ".state"] << "' instead of " << hwf::sname(c.st) << ": " << b.describe());
        if (c.st != 3) continue;
        // the measured periodicity is the one of the updates
        if (!c.async)
        {
          auto & p = per[c.name];
          VCHECK(c.p.sample_count == p.size() && near(c.p.average, mean(p)) && near(c.p.standard_deviation, dev(p), 1e-4), "periodicity", c.name << " has " << c.p.sample_count << " periodicities with mean " << c.p.average << " and deviation " << c.p.standard_deviation << ", its updates " << p.size() << " with " << mean(p) << " and " << dev(p) << ": " << b.describe());
        }
        int l = 0;
        shown(v, c.name + ".execution_time", c.e.average);
        if (c.async || static_cast<int>(c.rate) != cm_rate) { l = std::max(l, cp.level(std::abs(c.p.average - c.rate), c.p.standard_deviation)); shown(v, c.name + ".periodicity", c.p.average); }
        l = std::max(l, ce.level(c.e.average - (c.async ? 1e6 / c.rate : 0.0), c.e.standard_deviation));
        if (l) bad.insert(c.name);
        want = std::max(want, l);
        rec.count(l == 0 ? "controller_ok" : l == 1 ? "controller_warn" : "controller_error");
      }
      if (!hw_active) want = 2;
      else if (cs.empty()) want = std::max(want, 1);
      if (!cp.tie && !ce.tie)
      {
        VCHECK(s.level == want, "controllers_level", "the controllers are reported as " << lv(s.level) << " ('" << s.message << "') instead of " << lv(want) << " (" << when << "): " << b.describe());
        VCHECK(contains(tokens(s.message), names, bad), "controllers_named", "the controllers [" << vh::join(Names(bad.begin(), bad.end())) << "] are bad, reported is '" << s.message << "': " << b.describe());
        rec.count(std::string("controllers_") + lv(want));
      }
      rec.eval(cs.size());
    }
    // hardware
    {
      hp.tie = he.tie = false;
      auto & s = st["hw"];
      auto v = values(s);
      int want = 0;
      std::set<std::string> bad;
      if (hs.empty()) want = 2;
      else if (!hw_active) want = 1;
      else
        for (auto & h : hs)
        {
          VCHECK(v.count(h.name + ".state") && v[h.name + ".state"] == hwf::sname(h.st), "hardware_state", "the state of " << h.name << " is reported as '" << v[h.name + ".state"] << "' instead of " << hwf::sname(h.st) << ": " << b.describe());
          if (h.st != 3) continue;
          int l = 0;
          shown(v, h.name + "." + h.dir + "_cycle.execution_time", h.e.average);
          if (h.async || static_cast<int>(h.rate) != cm_rate) { l = std::max(l, hp.level(std::abs(h.p.average - h.rate), h.p.standard_deviation)); shown(v, h.name + "." + h.dir + "_cycle.periodicity", h.p.average); }
          l = std::max(l, he.level(h.e.average - (h.async ? 1e6 / h.rate : 0.0), h.e.standard_deviation));
          if (l) bad.insert(h.name);
          want = std::max(want, l);
          rec.count(l == 0 ? "hardware_ok" : l == 1 ? "hardware_warn" : "hardware_error");
        }
      if (!hp.tie && !he.tie)
      {
        VCHECK(s.level == want, "hardware_level", "the hardware is reported as " << lv(s.level) << " ('" << s.message << "') instead of " << lv(want) << " (" << when << "): " << b.describe());
        VCHECK(contains(tokens(s.message), hw_names, bad), "hardware_named", "the hardware [" << vh::join(Names(bad.begin(), bad.end())) << "] is bad, reported is '" << s.message << "': " << b.describe());
        rec.count(std::string("hardware_") + lv(want));
      }
      rec.eval(hs.size());
    }
    // the manager
    {
      mp.tie = false;
      auto & s = st["cm"];
      auto v = values(s);
      double m = mean(cm), d = dev(cm);
      int want = mp.level(std::abs(m - cm_rate), d);
      VCHECK(v.count("update_rate") && v["update_rate"] == std::to_string(cm_rate), "update_rate", "the update rate is reported as '" << v["update_rate"] << "'");
      auto num = [&](const char * k, double x)
      {
        double y = v.count(k) ? std::strtod(v[k].c_str(), nullptr) : -1.0;
        VCHECK(near(x, y, 1e-5), "manager_value", k << " is reported as '" << v[k] << "' instead of " << x << ": " << b.describe());
      };
      num("periodicity.average", m);
      num("periodicity.standard_deviation", d);
      if (!cm.empty()) { num("periodicity.min", *std::min_element(cm.begin(), cm.end())); num("periodicity.max", *std::max_element(cm.begin(), cm.end())); }
      if (!mp.tie)
      {
        VCHECK(s.level == want, "manager_level", "the controller manager is reported as " << lv(s.level) << " ('" << s.message << "') instead of " << lv(want) << " with mean " << m << " and deviation " << d << " (" << when << "): " << b.describe());
        rec.count(std::string("manager_") + lv(want));
      }
      rec.eval(4);
    }
    std::ostringstream o;
    o << st["ctrl"].message << "|" << st["hw"].message << "|" << st["cm"].message;
    for (auto & c : cs) o << c.name << c.st;
    rec.distinct(o.str());
    if (rec.current() < 3) rec.sample(o.str());
  }
};
// before and without a usable robot description
void diag_undescribed(Rng & r)
{
  auto & rec = vh::rec();
  world().reset();
  hwf::world().reset();
  hwf::world().logging = false;
  Opt o;
  auto g = generate(r, o);
  Sys sys("", 100, {}, false);
  auto expect = [&](const char * when, int ctrl, int hw, int cm)
  {
    auto st = run_diagnostics();
    VCHECK(st["ctrl"].level == ctrl, "controllers_level", "the controllers are reported with the level " << static_cast<int>(st["ctrl"].level) << " " << when << ": " << st["ctrl"].message);
    VCHECK(st["hw"].level == hw, "hardware_level", "the hardware is reported with the level " << static_cast<int>(st["hw"].level) << " " << when << ": " << st["hw"].message);
    VCHECK(st["cm"].level == cm, "manager_level", "the controller manager is reported with the level " << static_cast<int>(st["cm"].level) << " " << when << ": " << st["cm"].message);
    rec.eval(3);
  };
  expect("without a robot description", 2, 2, 1);
  rec.count("without_description");
  if (r.chance(0.6))
  {
    sys.describe(r.pick({std::string("<robot"), std::string("<robot name=\"r\"><ros2_control name=\"x\" type=\"system\"/></robot>"), std::string("hello")}));
    expect("with a broken robot description", 2, 2, 2);
    rec.count("broken_description");
  }
  sys.describe(hwf::urdf(g.hws));
  expect("with a robot description", 1, 0, 0);
}
void mode_diag(Rng & r, uint64_t, const vh::Args &)
{
  if (r.chance(0.04)) return diag_undescribed(r);
  Opt o;
  bool failures = r.chance(0.5);
  o.cm_rate = static_cast<int>(r.pick({10, 100, 100, 250, 1000}));
  o.max_ctrls = 6;
  o.async = 0.15;
  o.wild = 0.0;
  o.bad = failures ? 0.05 : 0.0;
  o.initial = 0.25;
  o.fallback = failures ? 0.4 : 0.0;
  if (!failures) { o.rates = 0.5; o.hw_rates = 0.5; o.hw_async = 0.15; }
  Thr cp = Diag::draw(r, 5, 5), ce = Diag::draw(r, 1000, 100), hp = Diag::draw(r, 5, 5), he = Diag::draw(r, 1000, 100), mp = Diag::draw(r, 0.02 * o.cm_rate, 0.05 * o.cm_rate);
  std::vector<rclcpp::Parameter> p;
  Diag::params("controllers.periodicity", cp, p);
  Diag::params("controllers.execution_time", ce, p);
  Diag::params("hardware_components.periodicity", hp, p);
  Diag::params("hardware_components.execution_time", he, p);
  Diag::params("controller_manager.periodicity", mp, p);
  Bench b(r, o, p);
  world().taping = true;
  Diag d{b, cp, ce, hp, he, mp, {}, {}, {}};
  d.check("after the start");
  const int64_t nominal = b.sys->step;
  double jitter = r.pick({0.0, 0.001, 0.01, 0.05, 0.3}), drift = r.pick({1.0, 1.0, 0.98, 1.01, 1.1});
  Rng q(r.next());
  b.sys->next_step = [&] { return std::max<int64_t>(1, static_cast<int64_t>(static_cast<double>(nominal) * (drift + jitter * (2.0 * q.unit() - 1.0)))); };
  b.setup(r, r.pick({0.0, 0.3}));
  b.draw_plans(r, 0.0);
  d.check("after the setup");
  int n = static_cast<int>(r.range(4, 12));
  Names all;
  for (auto & x : b.g.defs) all.push_back(x.name);
  for (int k = 0; k < n; ++k)
  {
    std::string when;
    int what = static_cast<int>(r.below(10));
    if (what < 5)
    {
      Names A, D;
      b.refresh();
      b.draw_plans(r, failures ? r.pick({0.0, 0.15}) : 0.0);
      sensible(b, r, A, D, 0.05);
      one_switch(b, r, A, D, static_cast<int>(r.pick({2, 2, 1})), true);
      b.draw_plans(r, 0.0);
      when = "after a switch";
    }
    else if (what < 7)
    {
      auto x = r.pick(all);
      b.refresh();
      for (const char * cb : {"init", "configure", "cleanup", "shutdown", "error", "export"})
      {
        int v = failures && r.chance(0.1) ? static_cast<int>(r.range(1, 3)) : 0;
        if (std::string(cb) == "shutdown" && v == 1) v = 0;
        b.m.plan[x][cb] = v;
        world().set(x, cb, v);
      }
      b.manage(!b.m.loaded(x) ? "load" : b.m.st(x) == 1 && r.chance(0.6) ? "configure" : r.pick({std::string("cleanup"), std::string("configure"), std::string("unload")}), x);
      for (const char * cb : {"init", "configure", "cleanup", "shutdown", "error", "export"}) { b.m.plan[x][cb] = 0; world().set(x, cb, 0); }
      when = "after managing a controller";
    }
    else if (what < 8 && failures)
    {
      one_failure(b, r, true);
      b.draw_plans(r, 0.0);
      when = "after a failure";
    }
    else
    {
      auto & h = r.pick(b.g.hws);
      bool used = false;
      for (auto & [c, mc] : b.m.c) if (mc.st == 3) used = true;
      if (!used || b.m.hw_st[h.name] != 3)
      {
        int to = b.m.hw_st[h.name] == 3 ? 2 : 3;
        auto rq = std::make_shared<srv::SetHardwareComponentState::Request>();
        rq->name = h.name;
        rq->target_state.id = static_cast<uint8_t>(to);
        rq->target_state.label = hwf::sname(to);
        b.sys->request([&] { b.sys->call<srv::SetHardwareComponentState>("set_hardware_component_state", rq); });
        if (b.m.hw_st[h.name] != 4) b.m.hw_st[h.name] = to;
        b.refresh();
        vh::rec().count("hardware_changes");
      }
      when = "after changing hardware";
    }
    if (r.chance(0.7)) d.check(when);
    else d.follow();
    for (int c = static_cast<int>(r.pick({0, 1, 5, 30})); c > 0; --c) b.sys->cycle();
    d.follow();
    d.inject(r);
    d.check(when + " and new measurements");
  }
  b.sys->next_step = nullptr;
  world().taping = false;
}

// ---- start-up and shut-down
// a request for a state; the expected callbacks go to sim
bool hw_request(hwf::Sim & sim, hwf::Comp & c, int target)
{
  auto step = [&](const char * cb, int want)
  {
    try { sim.go(c, cb); }
    catch (const hwf::Sim::Thrown &) { return false; }
    return c.st == want;
  };
  switch (target)
  {
    case 1: return c.st == 1 ? true : c.st == 2 ? step("cleanup", 1) : c.st == 3 ? step("deactivate", 2) && step("cleanup", 1) : false;
    case 2: return c.st == 1 ? step("configure", 2) : c.st == 2 ? true : c.st == 3 ? step("deactivate", 2) : false;
    case 3: return c.st == 1 ? step("configure", 2) && step("activate", 3) : c.st == 2 ? step("activate", 3) : c.st == 3;
    default: return c.st == 4 ? true : c.st == 3 ? step("deactivate", 2) && step("shutdown", 4) : step("shutdown", 4);
  }
}
bool is_life(const std::string & cb) { static const std::set<std::string> s = {"configure", "cleanup", "shutdown", "activate", "deactivate", "error"}; return s.count(cb) > 0; }
std::string brief_hw(const std::vector<hwf::Ev> & v) { std::string s; for (auto & e : v) s += e.comp + "." + e.cb + "@" + hwf::sname(e.st) + " "; return s; }
void boot_up(Rng & r)
{
  auto & rec = vh::rec();
  world().reset();
  hwf::world().reset();
  Opt o;
  o.max_hw = 6;
  o.hw_groups = r.pick({0.0, 0.6, 0.9});
  o.initial = 0.0;
  auto g = generate(r, o);
  double bad = r.pick({0.0, 0.1, 0.3});
  std::map<std::string, std::map<std::string, int>> plan;
  for (auto & h : g.hws)
    for (const char * cb : {"configure", "activate", "deactivate", "error"})
    {
      int v = r.chance(bad) ? static_cast<int>(r.range(1, 3)) : 0;
      if (std::string(cb) == "error" && v == 1) v = 2;
      plan[h.name][cb] = v;
      hwf::world().set(hwf::world().script(h.name), cb, v);
    }
  Names lists[3];
  for (auto & h : g.hws) { if (r.chance(0.15)) lists[1].push_back(h.name); if (r.chance(0.15)) lists[2].push_back(h.name); }
  for (int k = 1; k < 3; ++k) { if (r.chance(0.1)) lists[k].push_back(r.pick({std::string("unknown"), std::string(), std::string("hw")})); r.shuffle(lists[k]); }
  const bool ends = r.chance(0.3);
  std::vector<rclcpp::Parameter> p;
  if (!lists[1].empty()) p.emplace_back("hardware_components_initial_state.unconfigured", lists[1]);
  if (!lists[2].empty()) p.emplace_back("hardware_components_initial_state.inactive", lists[2]);
  if (ends) p.emplace_back("hardware_components_initial_state.shutdown_on_initial_state_failure", true);
  auto & t = g.defs[0];
  t.chain = false;
  t.refs.clear();
  t.exps.clear();
  world().ctl(t.name)->def = t;
  p.emplace_back(t.name + ".type", std::string("fake/plain"));
  Sys sys("", 100, p, false);
  bool threw = false;
  try { sys.describe(hwf::urdf(g.hws)); }
  catch (const std::exception &) { threw = true; }
  std::vector<hwf::Ev> log;
  for (auto & e : hwf::world().take()) if (is_life(e.cb)) log.push_back(e);
  std::ostringstream c;
  for (auto & h : g.hws)
  {
    c << h.name << (h.group.empty() ? "" : "(" + h.group + ")") << (has(lists[1], h.name) ? "=unconfigured" : has(lists[2], h.name) ? "=inactive" : "");
    for (auto & [cb, v] : plan[h.name]) if (v) c << " " << cb << "=" << v;
    c << "; ";
  }
  auto ctx = c.str() + (ends ? "ends on failure " : "") + "| " + brief_hw(log);
  // what has to happen
  hwf::Sim sim;
  sim.plan = &plan;
  std::map<std::string, hwf::Comp> comps;
  std::map<std::string, Names> groups;
  for (auto & h : g.hws) { comps[h.name].d = h; if (!h.group.empty() && !has(lists[1], h.name) && !has(lists[2], h.name)) groups[h.group].push_back(h.name); }
  std::map<std::string, std::vector<hwf::Ev>> want;  // per component, or per group
  int failures = 0;
  auto run = [&](const std::string & n, int target, const std::string & key)
  {
    sim.ev.clear();
    bool ok = hw_request(sim, comps[n], target);
    for (auto & e : sim.ev) want[key].push_back(e);
    return ok;
  };
  for (auto & h : g.hws)
  {
    if (has(lists[1], h.name)) continue;
    if (has(lists[2], h.name)) { if (!run(h.name, 2, h.name)) failures++; }
    else if (h.group.empty()) { if (!run(h.name, 3, h.name)) failures++; }
  }
  for (auto & [gr, members] : groups)
  {
    // in the order that was chosen
    Names order;
    for (auto & e : log) if (e.cb == "configure" && has(members, e.comp)) add(order, e.comp);
    Names conf;
    for (auto & n : members) if (!has(order, n)) order.push_back(n);
    bool ok = true;
    for (auto & n : order) { if (run(n, 2, "/" + gr)) conf.push_back(n); else { ok = false; failures++; break; } }
    rec.count("groups");
    if (!ok) { rec.count("groups_not_configured"); continue; }
    order.clear();
    for (auto & e : log) if (e.cb == "activate" && has(members, e.comp)) add(order, e.comp);
    for (auto & n : conf) if (!has(order, n)) order.push_back(n);
    Names act;
    for (auto & n : order) { if (run(n, 3, "/" + gr)) act.push_back(n); else { ok = false; failures++; break; } }
    if (ok) continue;
    // those that were activated go back, in any order
    order.clear();
    for (auto & e : log) if (e.cb == "deactivate" && has(act, e.comp)) add(order, e.comp);
    for (auto & n : act) if (!has(order, n)) order.push_back(n);
    for (auto & n : order) run(n, 2, "/" + gr);
    rec.count("groups_rolled_back");
  }
  rec.eval(g.hws.size());
  rec.distinct(ctx);
  if (rec.current() < 3) rec.sample(ctx);
  VCHECK(threw == (ends && failures > 0), "startup_end", "the start " << (threw ? "ends" : "goes on") << " with " << failures << " failures: " << ctx);
  rec.count(failures ? ends ? "starts_ended" : "starts_with_failures" : "starts");
  if (threw)
  {
    int seen = 0;
    for (auto & e : log) if (e.cb != "error" && plan[e.comp][e.cb]) seen++;
    VCHECK(seen == 1, "startup_after_end", "the start goes on after a failure: " << ctx);
    return;
  }
  for (auto & h : g.hws)
  {
    auto key = groups.count(h.group) && has(groups[h.group], h.name) ? "/" + h.group : h.name;
    std::vector<hwf::Ev> seen;
    for (auto & e : log) if (key[0] == '/' ? has(groups[h.group], e.comp) : e.comp == h.name) seen.push_back(e);
    VCHECK(brief_hw(seen) == brief_hw(want[key]), "startup_callbacks", (key[0] == '/' ? "the group " + h.group : h.name) << " is called " << brief_hw(seen) << "instead of " << brief_hw(want[key]) << ": " << ctx);
  }
  std::map<std::string, int> got;
  auto hl = sys.list_hw();
  for (auto & x : hl->component) got[x.name] = x.state.id;
  VCHECK(got.size() == g.hws.size(), "startup_components", got.size() << " components are listed: " << ctx);
  std::map<std::string, bool> avail;
  auto il = sys.list_hw_ifs();
  for (auto & i : il->command_interfaces) avail["c" + i.name] = i.is_available;
  for (auto & i : il->state_interfaces) avail["s" + i.name] = i.is_available;
  for (auto & [n, x] : comps)
  {
    VCHECK(got[n] == x.st, "startup_state", n << " is " << hwf::sname(got[n]) << " instead of " << hwf::sname(x.st) << ": " << ctx);
    bool a = x.st == 2 || x.st == 3;
    for (auto & i : x.d.cifs()) VCHECK(avail.count("c" + i) && avail["c" + i] == a, "startup_available", i << " is listed wrong: " << ctx);
    for (auto & i : x.d.sifs()) VCHECK(avail.count("s" + i) && avail["s" + i] == a, "startup_available", i << " is listed wrong: " << ctx);
  }
  // it works
  auto rq = std::make_shared<srv::LoadController::Request>();
  rq->name = t.name;
  bool ok = false;
  sys.request([&] { ok = sys.call<srv::LoadController>("load_controller", rq)->ok; });
  VCHECK(ok, "startup_load", "a controller cannot be loaded after the start: " << ctx);
  std::map<std::string, int> reads;
  hwf::world().take();
  sys.cycle();
  for (auto & e : hwf::world().take()) if (e.cb == "read") reads[e.comp]++;
  for (auto & [n, x] : comps) VCHECK(reads[n] == (x.st == 2 || x.st == 3 ? 1 : 0), "startup_read", n << " is read " << reads[n] << " times in a cycle: " << ctx);
}
void shut_down(Rng & r)
{
  auto & rec = vh::rec();
  Opt o;
  o.async = 0.25;
  o.chain = 0.5;
  o.wild = 0.1;
  o.bad = 0.03;
  o.initial = 0.2;
  o.fallback = 0.1;
  o.rates = 0.2;
  Bench b(r, o);
  hwf::world().logging = true;
  b.setup(r, r.pick({0.0, 0.2}));
  auto & m = b.m;
  for (int k = static_cast<int>(r.range(0, 4)); k > 0; --k)
  {
    Names A, D;
    b.refresh();
    b.draw_plans(r, r.pick({0.0, 0.1}));
    sensible(b, r, A, D, 0.0);
    one_switch(b, r, A, D, 2, true);
  }
  b.draw_plans(r, 0.0);
  if (r.chance(0.2) && !m.c.empty()) { b.refresh(); b.manage("cleanup", b.g.defs[r.below(b.g.defs.size())].name); }
  for (auto & [n, mc] : m.c)
  {
    (void)mc;
    int us = r.chance(0.3) ? static_cast<int>(r.range(50, 400)) : 0;
    world().ctl(n)->delay_us = us;
  }
  // what has to happen
  double bad = r.pick({0.0, 0.2, 0.5});
  for (auto & [n, mc] : m.c)
  {
    (void)mc;
    for (const char * cb : {"deactivate", "shutdown", "error"})
    {
      int v = r.chance(bad) ? static_cast<int>(r.range(std::string(cb) == "shutdown" ? 2 : 1, 3)) : 0;
      m.plan[n][cb] = v;
      world().set(n, cb, v);
    }
  }
  std::map<std::string, std::map<std::string, int>> hplan;
  for (auto & h : b.g.hws)
    for (const char * cb : {"deactivate", "shutdown", "error"})
    {
      int v = r.chance(bad) ? static_cast<int>(r.range(1, 3)) : 0;
      hplan[h.name][cb] = v;
      hwf::world().set(hwf::world().script(h.name), cb, v);
    }
  b.last = "shut down";
  auto before = b.describe();
  std::map<std::string, Names> want;
  for (auto & [n, mc] : m.c)
  {
    auto err = [&] { want[n].push_back("error"); mc.st = m.ans(m.plan, n, "error") == 0 ? 1 : 4; };
    if (mc.st == 3)
    {
      want[n].push_back("deactivate");
      int a = m.ans(m.plan, n, "deactivate");
      if (a == 0) mc.st = 2;
      if (a >= 2) err();
      rec.count("stopped_active");
      if (a) rec.count("stopping_failed");
    }
    if (mc.st == 4) continue;
    want[n].push_back("shutdown");
    if (m.ans(m.plan, n, "shutdown")) err();
    else mc.st = 4;
  }
  hwf::Sim sim;
  sim.plan = &hplan;
  std::map<std::string, hwf::Comp> comps;
  for (auto & h : b.g.hws) { auto & c = comps[h.name]; c.d = h; c.st = m.hw_st[h.name]; hw_request(sim, c, 4); }
  auto hwant = sim.ev;
  // what happens
  for (auto & [n, mc] : m.c) { (void)n; mc.ptr.reset(); }
  world().take();
  hwf::world().take();
  std::atomic<uint64_t> at{~0ull};
  hwf::world().hook = [&](const hwf::Ev & e) { if ((e.cb == "deactivate" || e.cb == "shutdown") && at == ~0ull) at = world().ncb.load(); };
  world().slow = r.chance(0.5);
  world().slow_shutdown = true;
  b.sys->request([&] { b.sys->cm->get_node_base_interface()->get_context()->run_pre_shutdown(); });
  world().slow = false;
  world().slow_shutdown = false;
  hwf::world().hook = nullptr;
  auto log = world().take();
  auto hlog = hwf::world().take();
  std::map<std::string, Names> seen;
  for (auto & e : log)
  {
    if (e.cb != "update") { seen[e.ctrl].push_back(e.cb); continue; }
    VCHECK(seen[e.ctrl].empty(), "updated_in_shutdown", e.ctrl << " is updated after " << vh::join(seen[e.ctrl]) << ": " << before);
  }
  for (auto & [n, mc] : m.c) { (void)mc; VCHECK(seen[n] == want[n], "shutdown_callbacks", n << " is called [" << vh::join(seen[n]) << "] instead of [" << vh::join(want[n]) << "] on shutting down: " << before); }
  VCHECK(at == ~0ull || at == world().ncb.load(), "shutdown_order", "hardware is shut down before the controllers: " << before);
  for (auto & h : b.g.hws)
  {
    std::vector<hwf::Ev> x, y;
    for (auto & e : hlog) if (e.comp == h.name && is_life(e.cb)) x.push_back(e);
    for (auto & e : hwant) if (e.comp == h.name) y.push_back(e);
    VCHECK(brief_hw(x) == brief_hw(y), "shutdown_hardware", h.name << " is called " << brief_hw(x) << "instead of " << brief_hw(y) << "on shutting down: " << before);
  }
  world().take();
  for (int k = 0; k < 3; ++k) b.sys->cycle();
  for (auto & e : world().take()) VCHECK(false, "called_after_shutdown", e.ctrl << " is called (" << e.cb << ") after the shut-down: " << before);
  for (auto & e : hwf::world().take()) VCHECK(comps[e.comp].st != 4, "hardware_after_shutdown", e.comp << " is called (" << e.cb << ") after the shut-down: " << before);
  auto cl = b.sys->list();
  for (auto & c : cl->controller)
    if (m.loaded(c.name)) VCHECK(c.state == hwf::sname(m.st(c.name)), "shutdown_state", c.name << " is " << c.state << " instead of " << hwf::sname(m.st(c.name)) << " after the shut-down: " << before);
  auto hl = b.sys->list_hw();
  for (auto & c : hl->component) VCHECK(c.state.id == comps[c.name].st, "shutdown_hardware_state", c.name << " is " << c.state.label << " instead of " << hwf::sname(comps[c.name].st) << " after the shut-down: " << before);
  Names nodes;
  for (auto & n : b.sys->ex->node_names()) if (m.loaded(n)) nodes.push_back(n);
  VCHECK(nodes.empty(), "shutdown_nodes", "the executor still has [" << vh::join(nodes) << "] after the shut-down: " << before);
  rec.eval(m.c.size() + b.g.hws.size());
  rec.count("shutdowns");
  if (bad > 0) rec.count("shutdowns_with_failures");
  rec.distinct(before);
  if (rec.current() < 3) rec.sample(before);
}
void mode_boot(Rng & r, uint64_t, const vh::Args &)
{
  if (r.chance(0.5)) boot_up(r);
  else shut_down(r);
}
// services called from several threads while the control loop runs and things fail
void mode_race(Rng & r, uint64_t, const vh::Args &)
{
  auto & rec = vh::rec();
  Opt o;
  o.min_ctrls = 4;
  o.max_ctrls = 10;
  o.async = 0.15;
  o.chain = 0.6;
  o.fallback = 0.2;
  o.wild = 0.0;
  o.bad = 0.03;
  o.initial = 0.1;
  Bench b(r, o);
  world().logging = false;
  hwf::world().logging = false;
  Names all;
  std::map<std::string, std::string> root;
  for (auto & d : b.g.defs) { all.push_back(d.name); root[d.name] = d.name; }
  std::function<std::string(std::string)> find = [&](std::string n) { while (root[n] != n) n = root[n]; return n; };
  for (auto & d : b.g.defs)
  {
    for (auto * f : {&d.cmd, &d.st}) for (auto & i : f->names) if (has(all, pre(i))) root[find(pre(i))] = find(d.name);
    for (auto & x : d.fb) if (has(all, x)) root[find(x)] = find(d.name);
  }
  const int T = static_cast<int>(r.range(2, 4));
  const bool chaos = r.chance(0.35), failing = r.chance(0.4), bad = r.chance(0.3), slow = r.chance(0.5), timeouts = r.chance(0.25);
  std::map<std::string, int> owner;
  std::map<std::string, int> owner_of_root;
  for (auto & n : all)
  {
    auto q = find(n);
    if (!owner_of_root.count(q)) owner_of_root[q] = static_cast<int>(r.below(T));
    owner[n] = owner_of_root[q];
  }
  if (bad)
    for (auto & n : all)
      for (const char * cb : {"init", "configure", "activate", "deactivate", "error", r.chance(0.5) ? "cleanup" : "export"})
        if (r.chance(0.15)) world().set(n, cb, static_cast<int>(std::string(cb) == "deactivate" ? r.range(2, 3) : r.range(1, 3)));
  world().slow = slow;
  auto & sys = *b.sys;
  std::atomic<int> running{T};
  std::atomic<uint64_t> answered{0}, done{0};
  const int ops = rec.thorough ? 60 : 25;
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t)
  {
    uint64_t seed = r.next();
    th.emplace_back([&, t, seed]
    {
      Rng q(seed);
      Names mine;
      for (auto & n : all) if (chaos || owner[n] == t) mine.push_back(n);
      auto state = [&](const srv::ListControllers::Response & l, const std::string & n) { for (auto & s : l.controller) if (s.name == n) return s.state; return std::string("absent"); };
      for (int k = 0; k < ops; ++k)
      {
        auto n = mine.empty() ? q.pick(all) : q.pick(mine);
        bool own = !chaos && owner[n] == t;
        std::string what;
        std::map<std::string, std::string> want;
        bool ok = false;
        int kind = static_cast<int>(q.below(100));
        if (!own && !chaos) kind = 90 + static_cast<int>(q.below(10));
        auto l0 = sys.list();
        auto st = state(*l0, n);
        if (kind < 70)
        {
          // what is possible next, mostly
          if (q.chance(0.8)) what = st == "absent" ? "load" : st == "unconfigured" ? "configure" : st == "finalized" ? "unload" : q.chance(0.85) ? "switch" : q.pick({std::string("cleanup"), std::string("unload"), std::string("configure")});
          else what = q.pick({std::string("load"), std::string("configure"), std::string("switch"), std::string("cleanup"), std::string("unload")});
        }
        else what = q.pick({std::string("list"), std::string("list_hw"), std::string("list_ifs"), std::string("types"), std::string("hw_state")});
        if (what == "load")
        {
          auto rq = std::make_shared<srv::LoadController::Request>();
          rq->name = n;
          ok = sys.call<srv::LoadController>("load_controller", rq)->ok;
          if (ok) want[n] = "unconfigured";
        }
        else if (what == "configure")
        {
          auto rq = std::make_shared<srv::ConfigureController::Request>();
          rq->name = n;
          ok = sys.call<srv::ConfigureController>("configure_controller", rq)->ok;
          if (ok) want[n] = "inactive";
        }
        else if (what == "cleanup")
        {
          auto rq = std::make_shared<srv::CleanupController::Request>();
          rq->name = n;
          ok = sys.call<srv::CleanupController>("cleanup_controller", rq)->ok;
          if (ok) want[n] = "unconfigured";
        }
        else if (what == "unload")
        {
          auto rq = std::make_shared<srv::UnloadController::Request>();
          rq->name = n;
          ok = sys.call<srv::UnloadController>("unload_controller", rq)->ok;
          if (ok) want[n] = "absent";
        }
        else if (what == "switch")
        {
          auto rq = std::make_shared<srv::SwitchController::Request>();
          Names A, D;
          for (auto & x : mine)
          {
            auto s = state(*l0, x);
            if (x == n || q.chance(0.4)) (s == "active" ? (q.chance(0.15) ? A : D) : A).push_back(x);
          }
          rq->activate_controllers = A;
          rq->deactivate_controllers = D;
          rq->strictness = static_cast<int>(q.pick({1, 2}));
          rq->activate_asap = q.chance(0.5);
          rq->timeout.sec = 60;
          if (timeouts && q.chance(0.5)) { rq->timeout.sec = 0; rq->timeout.nanosec = static_cast<uint32_t>(q.range(1, 200000)); }
          ok = sys.call<srv::SwitchController>("switch_controller", rq)->ok;
          if (ok && rq->strictness == 2 && !failing)
          {
            for (auto & x : D) want[x] = "inactive";
            for (auto & x : A) want[x] = "active";
          }
        }
        else if (what == "list_hw") { auto l = sys.list_hw(); ok = l->component.size() == b.g.hws.size(); if (!ok) rec.violation("components_listed", std::to_string(l->component.size()) + " components are listed"); }
        else if (what == "list_ifs")
        {
          auto l = sys.list_hw_ifs();
          std::set<std::string> u;
          for (auto & i : l->command_interfaces) if (!u.insert(i.name).second) rec.violation("interface_twice", i.name + " is listed twice");
          ok = true;
        }
        else if (what == "types") ok = !sys.call<srv::ListControllerTypes>("list_controller_types", std::make_shared<srv::ListControllerTypes::Request>())->types.empty();
        else if (what == "hw_state")
        {
          auto rq = std::make_shared<srv::SetHardwareComponentState::Request>();
          auto & h = b.g.hws[q.below(b.g.hws.size())];
          rq->name = h.name;
          rq->target_state.id = static_cast<uint8_t>(q.pick({3, 3, 3, 2, 1}));
          rq->target_state.label = hwf::sname(rq->target_state.id);
          ok = sys.call<srv::SetHardwareComponentState>("set_hardware_component_state", rq)->ok;
        }
        else if (what == "list")
        {
          std::set<std::string> u;
          std::map<std::string, std::string> users;
          for (auto & s : l0->controller)
          {
            if (!u.insert(s.name).second || !has(all, s.name)) rec.violation("listed_twice", s.name + " is listed twice or unknown");
            if (s.state == "active" && !failing)
              for (auto & i : s.claimed_interfaces)
              {
                auto & x = users[i];
                if (!x.empty()) rec.violation("claimed_twice", i + " is claimed by " + x + " and " + s.name + ": " + b.describe());
                x = s.name;
              }
          }
          ok = true;
        }
        answered++;
        if (ok) { done++; rec.count(what + "_ok"); }
        if (own && !want.empty())
        {
          auto l = sys.list();
          for (auto & [x, s] : want)
          {
            auto got = state(*l, x);
            // a controller whose deactivation fails ends unconfigured or finalized
            if (bad && what == "switch" && s == "inactive" && (got == "unconfigured" || got == "finalized")) continue;
            if (got != s) rec.violation("not_visible", "after a successful " + what + " of " + n + ", " + x + " is listed as " + got + " instead of " + s + (timeouts ? " (short timeouts)" : "") + ": " + b.describe());
            rec.eval();
          }
          rec.count("visible");
        }
      }
      --running;
    });
  }
  Rng q(r.next());
  uint64_t cycles = 0;
  while (running > 0)
  {
    std::string fc, fh;
    if (failing && q.chance(0.02)) { fc = q.pick(all); world().set(fc, "update", static_cast<int>(q.pick({1, 3, 4}))); }
    if (failing && q.chance(0.01)) { fh = q.pick(b.g.hws).name; auto sc = hwf::world().script(fh); hwf::world().set(sc, q.chance(0.5) ? "read" : "write", static_cast<int>(q.range(1, 3))); rec.count("injected_failures"); }
    sys.cycle();
    ++cycles;
    if (!fc.empty()) { world().set(fc, "update", 0); rec.count("injected_failures"); }
    if (!fh.empty()) { auto sc = hwf::world().script(fh); hwf::world().set(sc, "read", 0); hwf::world().set(sc, "write", 0); }
    if (q.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(100)));
  }
  for (auto & t : th) t.join();
  world().slow = false;
  rec.count("cycles", cycles);
  rec.count("requests", answered);
  rec.count("slow_callbacks", world().nslow);
  VCHECK(answered == static_cast<uint64_t>(T) * ops, "unanswered", answered << " requests are answered: " << b.describe());
  // what is left has to be consistent
  for (auto & n : all) for (const char * cb : {"init", "configure", "activate", "deactivate", "cleanup", "error", "export"}) world().set(n, cb, 0);
  sys.cycle();
  auto l = sys.list();
  std::map<std::string, Def> defs;
  for (auto & d : b.g.defs) defs[d.name] = d;
  for (auto & s : l->controller)
  {
    MC mc;
    mc.d = defs[s.name];
    for (int x = 1; x <= 4; ++x) if (s.state == hwf::sname(x)) mc.st = x;
    mc.chained = s.is_chained;
    mc.exported = mc.d.chain && (mc.st == 2 || mc.st == 3);
    b.m.c[s.name] = mc;
  }
  auto hw = sys.list_hw();
  for (auto & c : hw->component) b.m.hw_st[c.name] = c.state.id;
  b.refresh();
  world().logging = true;
  b.last = std::string("after ") + std::to_string(T) + " threads" + (chaos ? " without owners" : "") + (failing ? ", failures" : "") + (bad ? ", failing callbacks" : "") + (slow ? ", slow callbacks" : "") + (timeouts ? ", short timeouts" : "");
  for (auto & [n, mc] : b.m.c) if (mc.st == 3) rec.count("active_at_the_end");
  b.audit("after the race");
  rec.distinct(b.describe() + std::to_string(cycles));
  if (rec.current() < 3) rec.sample(b.describe());
}
}  // namespace
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
// the lock order check does not know that the hardware's locks are only taken under resources_lock_ (hangs are found
// by the time limits); introspection samples registered variables without synchronization by design
extern "C" const char * __tsan_default_options() { return "detect_deadlocks=0"; }
extern "C" const char * __tsan_default_suppressions() { return "race:pal_statistics\n"; }
#endif
#endif
int main(int argc, char ** argv)
{
  hwf::register_plugins();
  register_controllers();
  return vh::run_cases(argc, argv, [](Rng & r, uint64_t c, const vh::Args & a)
  {
    if (a.mode == "switch") mode_switch(r, c, a);
    else if (a.mode == "chain") mode_chain(r, c, a);
    else if (a.mode == "fail") mode_fail(r, c, a);
    else if (a.mode == "rate") mode_rate(r, c, a);
    else if (a.mode == "race") mode_race(r, c, a);
    else if (a.mode == "diag") mode_diag(r, c, a);
    else if (a.mode == "boot") mode_boot(r, c, a);
    else if (a.mode == "life") mode_life(r, c, a);
  });
}
