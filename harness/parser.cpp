// C10 (faithful parsing) and C03 (limits derived from a description): generated descriptions with a known meaning,
// structured mutations with a known verdict, random damage (must be refused or parsed, never crash).
#include <clocale>
#include "common.hpp"
#include "hardware_interface/component_parser.hpp"
#include "hardware_interface/hardware_info.hpp"
#include "joint_limits/joint_limits_urdf.hpp"

using namespace vh;
namespace hi = hardware_interface;
namespace jl = joint_limits;
using hi::HardwareInfo;

// ---------- canonical text of a parse result ----------
static std::string q(const std::string & s) { return "'" + esc(s) + "'"; }
static std::string dump(const std::unordered_map<std::string, std::string> & m)
{
  std::map<std::string, std::string> o(m.begin(), m.end());
  std::string r = "{";
  for (auto & [k, v] : o) r += q(k) + ":" + q(v) + ",";
  return r + "}";
}
static std::string dump(const hi::InterfaceInfo & i)
{
  return "if(" + q(i.name) + " min=" + q(i.min) + " max=" + q(i.max) + " init=" + q(i.initial_value) + " type=" + q(i.data_type) +
         " size=" + std::to_string(i.size) + " lim=" + std::to_string(i.enable_limits) + " " + dump(i.parameters) + ")";
}
static std::string dump(const hi::ComponentInfo & c)
{
  std::string r = "comp(" + q(c.name) + " " + q(c.type) + " mimic=" + std::to_string(static_cast<int>(c.is_mimic)) +
                  " lim=" + std::to_string(c.enable_limits) + " cmd[";
  for (auto & i : c.command_interfaces) r += dump(i) + ";";
  r += "] state[";
  for (auto & i : c.state_interfaces) r += dump(i) + ";";
  return r + "] " + dump(c.parameters) + ")";
}
template <class J> static std::string dump_tj(const J & j)
{
  return "(" + q(j.name) + " " + q(j.role) + " r=" + num(j.mechanical_reduction) + " o=" + num(j.offset) + " ro=" +
         std::to_string(j.read_only) + " cmd=" + join(j.command_interfaces) + " st=" + join(j.state_interfaces) + ")";
}
static std::string dump(const hi::TransmissionInfo & t)
{
  std::string r = "trans(" + q(t.name) + " " + q(t.type) + " J";
  for (auto & j : t.joints) r += dump_tj(j);
  r += " A";
  for (auto & a : t.actuators) r += dump_tj(a);
  return r + dump(t.parameters) + ")";
}
static std::vector<std::string> dump(const HardwareInfo & h)
{
  std::vector<std::string> r;
  r.push_back("hw(" + q(h.name) + " " + q(h.type) + " group=" + q(h.group) + " rate=" + std::to_string(h.rw_rate) + " async=" +
              std::to_string(h.is_async) + " prio=" + std::to_string(h.async_params.thread_priority) + " sched=" +
              q(h.async_params.scheduling_policy) + " cores=" + join(h.async_params.cpu_affinity_cores) + " warn=" +
              std::to_string(h.async_params.print_warnings) + " plugin=" + q(h.hardware_plugin_name) + " " +
              dump(h.hardware_parameters) + ")");
  for (auto & c : h.joints) r.push_back("joint " + dump(c));
  for (auto & c : h.sensors) r.push_back("sensor " + dump(c));
  for (auto & c : h.gpios) r.push_back("gpio " + dump(c));
  for (auto & t : h.transmissions) r.push_back(dump(t));
  for (auto & m : h.mimic_joints)
    r.push_back("mimic " + std::to_string(m.joint_index) + "<-" + std::to_string(m.mimicked_joint_index) + " x" + num(m.multiplier) +
                "+" + num(m.offset));
  return r;
}
static std::string dump(const jl::JointLimits & l)
{
  std::string r;
  auto v = [](double d) { return num(d); };
  r += l.has_position_limits ? "pos[" + v(l.min_position) + "," + v(l.max_position) + "]" : "-";
  r += l.has_velocity_limits ? " vel " + v(l.max_velocity) : " -";
  r += l.has_effort_limits ? " eff " + v(l.max_effort) : " -";
  r += l.has_acceleration_limits ? " acc " + v(l.max_acceleration) : " -";
  r += l.has_deceleration_limits ? " dec " + v(l.max_deceleration) : " -";
  r += l.has_jerk_limits ? " jerk " + v(l.max_jerk) : " -";
  r += l.angle_wraparound ? " wrap" : "";
  return r;
}
static std::string dump(const jl::SoftJointLimits & s)
{
  return "soft[" + num(s.min_position) + "," + num(s.max_position) + "] kp=" + num(s.k_position) + " kv=" + num(s.k_velocity);
}

// ---------- XML writer ----------
struct El
{
  std::string tag;
  std::vector<std::pair<std::string, std::string>> attr;
  std::vector<El> kids;
  std::string text;
  bool has_text = false;
  El & a(const std::string & k, const std::string & v) { attr.emplace_back(k, v); return *this; }
};
static std::string xml_esc(const std::string & s)
{
  std::string o;
  for (char c : s)
  {
    if (c == '&') o += "&amp;";
    else if (c == '<') o += "&lt;";
    else if (c == '>') o += "&gt;";
    else if (c == '"') o += "&quot;";
    else o += c;
  }
  return o;
}
static void print(Rng & g, const El & e, std::string & o, int depth, bool noise)
{
  std::string ind(noise ? g.below(3) : depth * 2, ' ');
  o += ind + "<" + e.tag;
  auto at = e.attr;
  if (noise) g.shuffle(at);
  for (auto & [k, v] : at)
  {
    if (noise && g.chance(.2)) o += "\n   ";
    o += " " + k + "=" + (noise && g.chance(.2) && v.find('\'') == std::string::npos ? "'" + xml_esc(v) + "'" : "\"" + xml_esc(v) + "\"");
  }
  if (e.kids.empty() && !e.has_text) { o += g.chance(.5) || !noise ? "/>\n" : ("></" + e.tag + ">\n"); return; }
  o += ">";
  if (e.has_text) { o += xml_esc(e.text) + "</" + e.tag + ">\n"; return; }
  o += "\n";
  for (auto & k : e.kids)
  {
    if (noise && g.chance(.08)) o += "<!-- <" + k.tag + "/> & noise -->\n";
    print(g, k, o, depth + 1, noise);
  }
  o += ind + "</" + e.tag + ">\n";
}

// ---------- generator ----------
struct Doc
{
  El root;
  std::vector<HardwareInfo> expected;
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> limits;  // joint -> (limits, soft or "")
  std::vector<bool> lim_hw;
};
static std::string ws(Rng & g, const std::string & s)
{
  if (!g.chance(.15)) return s;
  static const std::vector<std::string> p = {" ", "  ", "\t", ""};
  return g.pick(p) + s + g.pick(p);
}
static std::string ident(Rng & g, const char * pre)
{
  static const char al[] = "abcXYZ_019-.";
  std::string s = pre;
  for (int n = g.range(1, 5); n > 0; --n) s += al[g.below(sizeof al - 1)];
  return s;
}
static std::string value_text(Rng & g)
{
  static const std::vector<std::string> v = {"1", "0.5", "-3.25", "true", "some text", "a<b & c>d", "", "[1, 2]", "0x10", "file:///x y",
                                             "1e-3", "nan", "\"quoted\"", "it's", "10 "};
  return g.pick(v);
}
static std::string strip(const std::string & s)
{
  size_t b = s.find_first_not_of(" \t\n\r\f\v");
  if (b == std::string::npos) return "";
  return s.substr(b, s.find_last_not_of(" \t\n\r\f\v") - b + 1);
}
static El text_el(const std::string & tag, const std::string & t)
{
  El e;
  e.tag = tag;
  e.text = t;
  e.has_text = !t.empty();
  return e;
}
static void params(Rng & g, El & e, std::unordered_map<std::string, std::string> & out, int maxn)
{
  for (int n = g.range(0, maxn); n > 0; --n)
  {
    std::string k = g.chance(.1) && !out.empty() ? out.begin()->first : ident(g, "p");
    std::string v = value_text(g);
    El p = text_el("param", v.empty() ? v : ws(g, v));
    p.a("name", ws(g, k));
    e.kids.push_back(p);
    out[k] = strip(v);
  }
}
static std::string dtext(Rng & g, double & v)
{
  char b[64];
  v = g.chance(.3) ? static_cast<double>(g.range(-20, 20)) : g.uniform(-10, 10);
  std::snprintf(b, sizeof b, g.chance(.5) ? "%.17g" : "%.3f", v);
  v = strtod(b, nullptr);
  return b;
}
static std::string ptext(Rng & g, double & v)  // positive
{
  std::string s;
  do { s = dtext(g, v); } while (v < 0.01);
  return s;
}

static hi::InterfaceInfo interface(Rng & g, El & parent, const char * tag, const std::string & name, bool limits_mode)
{
  hi::InterfaceInfo i;
  i.name = name;
  i.data_type = "double";
  i.size = 1;
  i.enable_limits = true;
  El e;
  e.tag = tag;
  e.a("name", ws(g, name));
  if (g.chance(limits_mode ? .05 : .25))
  {
    i.data_type = g.pick({"double", "float32", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "my_type"});
    e.a("data_type", ws(g, i.data_type));
  }
  if (g.chance(limits_mode ? .02 : .2))
  {
    i.size = g.pick({1, 2, 7, 10, 128, 2147483647});
    e.a("size", ws(g, std::to_string(i.size)));
  }
  auto add = [&](const std::string & k, const std::string & v)
  {
    El p = text_el("param", v);
    p.a("name", k);
    e.kids.push_back(p);
    i.parameters[k] = strip(v);
    return strip(v);
  };
  const bool lim = limits_mode || g.chance(.4);
  if (lim)
  {
    double a, b;
    std::string ta = dtext(g, a), tb = dtext(g, b);
    if (a > b) { std::swap(a, b); std::swap(ta, tb); }
    if (name == "velocity" || name == "effort")
    {
      ta = "-" + ptext(g, a);
      tb = ptext(g, b);
      if (g.chance(.2)) ta = ta.substr(1);
    }
    else if (name == "acceleration") { ta = (g.chance(.5) ? "-" : "") + ptext(g, a); tb = ptext(g, b); }
    else if (name == "jerk") { tb = (g.chance(.3) ? "-" : "") + ptext(g, b); }
    static const std::vector<std::string> junk = {"abc", "1.0x", "1,5", "inf", "nan", "--1", "1e999", "0x1p3", "1 2"};
    if (g.chance(.08)) (g.chance(.5) ? ta : tb) = g.pick(junk);
    const bool want_min = g.chance(.65), want_max = g.chance(.65);
    if (want_min) i.min = add("min", ta);
    if (want_max) i.max = add("max", tb);
    if (g.chance(.3))
    {
      El l;
      l.tag = "limits";
      i.enable_limits = g.chance(.5);
      l.a("enable", i.enable_limits ? g.pick({"true", "True", "TRUE"}) : g.pick({"false", "False"}));
      e.kids.push_back(l);
    }
  }
  if (g.chance(.3)) i.initial_value = add("initial_value", value_text(g));
  if (g.chance(.3)) params(g, e, i.parameters, 2);
  if (g.chance(.3)) g.shuffle(e.kids);
  // a repeated name in the shuffled list: the last one counts
  i.parameters.clear();
  for (auto & k : e.kids)
    if (k.tag == "param") i.parameters[strip(k.attr[0].second)] = strip(k.text);
  auto last = [&](const char * k) { auto it = i.parameters.find(k); return it == i.parameters.end() ? std::string() : it->second; };
  i.min = last("min");
  i.max = last("max");
  i.initial_value = last("initial_value");
  parent.kids.push_back(e);
  return i;
}

static const std::vector<std::string> kNames = {"position", "velocity", "effort", "acceleration", "jerk", "torque", "foo", "my/sub"};

static bool good_real(const std::string & s, double & v)
{
  char * end = nullptr;
  for (char c : s)
    if (!std::isdigit(static_cast<unsigned char>(c)) && std::string("+-.eE").find(c) == std::string::npos) return false;
  v = strtod(s.c_str(), &end);
  return end && *end == 0 && !s.empty() && std::isfinite(v);
}

static void limits_of(
  const std::string & type, bool has_limit, double lo, double up, double vel, double eff, const hi::ComponentInfo & c, jl::JointLimits & l)
{
  const double INF = std::numeric_limits<double>::max();
  bool hp = has_limit && (type == "revolute" || type == "prismatic"), hv = has_limit, he = has_limit, ha = false, hd = false, hj = false;
  double p0 = hp ? lo : -INF, p1 = hp ? up : INF, v = hv ? std::fabs(vel) : INF, e = he ? std::fabs(eff) : INF, a = 0, d = 0, j = 0;
  if (!c.enable_limits) { hp = hv = he = false; }
  else
    for (auto & i : c.command_interfaces)
    {
      double mn = 0, mx = 0;
      const bool gm = !i.min.empty(), gx = !i.max.empty();
      const bool ok = (gm || gx) && (!gm || good_real(i.min, mn)) && (!gx || good_real(i.max, mx));
      if (i.name == "position")
      {
        if (ok && i.enable_limits)
        {
          if (!hp) { p0 = -INF; p1 = INF; }
          hp = true;
          if (gm) p0 = std::max(p0, mn);
          if (gx) p1 = std::min(p1, mx);
        }
        hp = hp && i.enable_limits;
      }
      else if (i.name == "velocity" || i.name == "effort")
      {
        bool & h = i.name == "velocity" ? hv : he;
        double & b = i.name == "velocity" ? v : e;
        if (ok && i.enable_limits)
        {
          h = true;
          if (gm) b = std::min(b, std::fabs(mn));
          if (gx) b = std::min(b, mx);
        }
        h = h && i.enable_limits;
      }
      else if (i.name == "acceleration" && ok)
      {
        if (gm) { hd = i.enable_limits; d = std::fabs(mn); }
        if (gx) { ha = i.enable_limits; a = mx; }
      }
      else if (i.name == "jerk" && ok && gx) { hj = i.enable_limits; j = std::fabs(mx); }
    }
  l.has_position_limits = hp; l.min_position = p0; l.max_position = p1;
  l.has_velocity_limits = hv; l.max_velocity = v;
  l.has_effort_limits = he; l.max_effort = e;
  l.has_acceleration_limits = ha; l.max_acceleration = a;
  l.has_deceleration_limits = hd; l.max_deceleration = d;
  l.has_jerk_limits = hj; l.max_jerk = j;
  l.angle_wraparound = has_limit && type == "continuous";
}

static hi::ComponentInfo component(Rng & g, El & e, const std::string & tag, const std::string & name, bool no_cmd, bool limits_mode)
{
  hi::ComponentInfo c;
  c.name = name;
  c.type = tag;
  e.tag = tag;
  e.a("name", ws(g, name));
  c.enable_limits = true;
  if (tag != "gpio" && g.chance(limits_mode ? .12 : .15))
  {
    El l;
    l.tag = "limits";
    c.enable_limits = g.chance(.5);
    l.a("enable", c.enable_limits ? "true" : "false");
    e.kids.push_back(l);
  }
  auto names = kNames;
  g.shuffle(names);
  size_t nc = no_cmd || tag == "sensor" ? 0 : g.below(limits_mode ? 6 : 4), ns = g.below(4);
  for (size_t i = 0; i < nc; ++i) c.command_interfaces.push_back(interface(g, e, "command_interface", names[i], limits_mode));
  g.shuffle(names);
  for (size_t i = 0; i < ns; ++i) c.state_interfaces.push_back(interface(g, e, "state_interface", names[i], false));
  if (tag != "gpio")
  {
    for (auto & i : c.command_interfaces) i.enable_limits = i.enable_limits && c.enable_limits;
    for (auto & i : c.state_interfaces) i.enable_limits = i.enable_limits && c.enable_limits;
  }
  params(g, e, c.parameters, 3);
  return c;
}

static Doc generate(Rng & g, bool limits_mode)
{
  Doc d;
  d.root.tag = "robot";
  d.root.a("name", "r");
  std::vector<El> urdf, ctrl;
  El l0;
  l0.tag = "link";
  l0.a("name", "base");
  urdf.push_back(l0);
  const int nhw = g.range(1, limits_mode ? 2 : 3);
  int jn = 0;
  for (int h = 0; h < nhw; ++h)
  {
    HardwareInfo w;
    El c;
    c.tag = "ros2_control";
    w.name = ident(g, "hw") + std::to_string(h);
    const int kind = g.below(3);
    w.type = kind == 0 ? "actuator" : kind == 1 ? "sensor" : "system";
    c.a("name", ws(g, w.name)).a("type", ws(g, w.type));
    w.rw_rate = 0;
    if (g.chance(.4)) { w.rw_rate = g.pick({0, 1, 50, 1000, 2147483647}); c.a("rw_rate", ws(g, std::to_string(w.rw_rate))); }
    w.is_async = false;
    if (g.chance(.4)) { w.is_async = g.chance(.6); c.a("is_async", w.is_async ? g.pick({"true", "True", " true "}) : g.pick({"false", "FALSE"})); }
    w.async_params.thread_priority = w.is_async ? 50 : std::numeric_limits<int>::max();
    if (g.chance(.3))
    {
      int p = g.pick({1, 9, 50, 99, 2147483647});
      c.a("thread_priority", ws(g, std::to_string(p)));
      if (w.is_async) w.async_params.thread_priority = p;
    }
    std::vector<El> kids;
    if (g.chance(.9))
    {
      El e;
      e.tag = "hardware";
      w.hardware_plugin_name = ident(g, "pkg/") ;
      e.kids.push_back(text_el("plugin", ws(g, w.hardware_plugin_name)));
      if (g.chance(.3)) { w.group = ident(g, "G"); e.kids.push_back(text_el("group", ws(g, w.group))); }
      params(g, e, w.hardware_parameters, 3);
      kids.push_back(e);
    }
    if (g.chance(.3))
    {
      El e, as;
      e.tag = "properties";
      as.tag = "async";
      if (g.chance(.5))
      {
        std::string t = "[";
        for (int n = g.range(1, 4), k = 0; k < n; ++k)
        {
          int core = g.range(0, 12);
          w.async_params.cpu_affinity_cores.push_back(core);
          t += (k ? "," : "") + ws(g, std::to_string(core));
        }
        as.a("affinity", ws(g, t + "]"));
      }
      if (g.chance(.5))
      {
        std::string t = g.pick({"detached", "Synchronized", "DETACHED", "slave"});
        as.a("scheduling_policy", ws(g, t));
        std::transform(t.begin(), t.end(), t.begin(), [](unsigned char x) { return std::tolower(x); });
        w.async_params.scheduling_policy = t;
      }
      if (g.chance(.4)) { int p = g.pick({1, 70, 10}); as.a("thread_priority", std::to_string(p)); w.async_params.thread_priority = p; }
      if (g.chance(.4)) { bool b = g.chance(.5); as.a("print_warnings", b ? "true" : "false"); w.async_params.print_warnings = b; }
      if (!as.attr.empty()) e.kids.push_back(as);
      kids.push_back(e);
    }
    // joints
    const int nj = kind == 1 ? 0 : kind == 0 ? 1 : g.range(limits_mode ? 1 : 0, 5);
    struct JL { std::string name; };
    std::vector<std::string> mine;
    std::vector<El> jointels;
    for (int k = 0; k < nj; ++k)
    {
      const std::string name = "j" + std::to_string(jn++) + (g.chance(.3) ? ident(g, "_") : "");
      const std::string type = g.pick({"revolute", "prismatic", "continuous", "revolute", "continuous", "floating", "planar"});
      El link, j;
      link.tag = "link";
      link.a("name", "L_" + name);
      j.tag = "joint";
      j.a("name", name).a("type", type);
      El p, ch;
      p.tag = "parent";
      p.a("link", "base");
      ch.tag = "child";
      ch.a("link", "L_" + name);
      j.kids = {p, ch};
      bool has_limit = type == "revolute" || type == "prismatic" || g.chance(.5);
      double lo = 0, up = 0, vel = 0, eff = 0;
      if (has_limit)
      {
        El l;
        l.tag = "limit";
        if (g.chance(.85))
        {
          std::string a = dtext(g, lo), b = dtext(g, up);
          if (lo > up) { std::swap(lo, up); std::swap(a, b); }
          l.a("lower", a).a("upper", b);
        }
        l.a("velocity", ptext(g, vel)).a("effort", ptext(g, eff));
        j.kids.push_back(l);
      }
      bool soft = g.chance(limits_mode ? .5 : .15);
      jl::SoftJointLimits s;
      s.min_position = s.max_position = s.k_position = s.k_velocity = 0;
      if (soft)
      {
        El e;
        e.tag = "safety_controller";
        if (g.chance(.85))
        {
          std::string a = dtext(g, s.min_position), b = dtext(g, s.max_position);
          if (s.min_position > s.max_position) { std::swap(s.min_position, s.max_position); std::swap(a, b); }
          e.a("soft_lower_limit", a).a("soft_upper_limit", b);
        }
        if (g.chance(.7)) e.a("k_position", ptext(g, s.k_position));
        e.a("k_velocity", ptext(g, s.k_velocity));
        j.kids.push_back(e);
      }
      // mimic only of joints of the same component
      bool mim = !mine.empty() && kind == 2 && g.chance(.25);
      hi::MimicAttribute ma = hi::MimicAttribute::NOT_SET;
      hi::MimicJoint mj;
      El ce;
      if (mim)
      {
        El m;
        m.tag = "mimic";
        size_t target = g.below(mine.size());
        m.a("joint", mine[target]);
        if (g.chance(.7)) m.a("multiplier", dtext(g, mj.multiplier));
        if (g.chance(.7)) m.a("offset", dtext(g, mj.offset));
        j.kids.push_back(m);
        const int which = g.below(3);
        if (which == 1) { ma = hi::MimicAttribute::TRUE; ce.a("mimic", "true"); }
        if (which == 2) { ma = hi::MimicAttribute::FALSE; ce.a("mimic", "false"); }
        if (ma != hi::MimicAttribute::FALSE)
        {
          mj.joint_index = k;
          mj.mimicked_joint_index = target;
          w.mimic_joints.push_back(mj);
        }
      }
      else if (g.chance(.05)) { ma = hi::MimicAttribute::FALSE; ce.a("mimic", "false"); }
      urdf.push_back(link);
      urdf.push_back(j);
      hi::ComponentInfo ci = component(g, ce, "joint", name, mim && ma != hi::MimicAttribute::FALSE, limits_mode);
      ci.is_mimic = ma;
      mine.push_back(name);
      w.joints.push_back(ci);
      jointels.push_back(ce);
      jl::JointLimits lim;
      limits_of(type, has_limit, lo, up, vel, eff, ci, lim);
      // contradictory bounds are not meaningful: leave the joint out of the comparison
      std::string st;
      if (soft)
      {
        if (lim.has_position_limits)
        {
          s.min_position = std::clamp(s.min_position, std::min(lim.min_position, lim.max_position), lim.max_position);
          s.max_position = std::clamp(s.max_position, std::min(lim.min_position, lim.max_position), lim.max_position);
        }
        st = dump(s);
      }
      if (lim.has_position_limits && lim.min_position > lim.max_position) d.limits.push_back({name, {"?", st}});
      else d.limits.push_back({name, {dump(lim), st}});
    }
    std::vector<El> rest;
    for (auto & e : jointels) rest.push_back(e);
    for (int n = kind == 0 ? g.range(0, 1) : g.range(kind == 1 ? 1 : 0, 2); n > 0; --n)
    {
      El e;
      w.sensors.push_back(component(g, e, "sensor", ident(g, "s") + std::to_string(n), false, false));
      rest.push_back(e);
    }
    for (int n = kind == 1 ? 0 : g.range(0, 2); n > 0; --n)
    {
      El e;
      w.gpios.push_back(component(g, e, "gpio", ident(g, "g") + std::to_string(n), false, false));
      rest.push_back(e);
    }
    if (!w.joints.empty())
      for (int n = g.range(0, kind == 0 ? 1 : 2); n > 0; --n)
      {
        hi::TransmissionInfo t;
        El e;
        e.tag = "transmission";
        t.name = ident(g, "t");
        t.type = ident(g, "ti/");
        e.a("name", ws(g, t.name));
        e.kids.push_back(text_el("plugin", ws(g, t.type)));
        auto red = [&](El & x, double & r, double & o, bool & ro)
        {
          r = 1.0;
          o = 0.0;
          std::vector<El> ks;
          static const std::vector<std::string> junk = {"abc", "1.0x", "", "1,5"};
          if (g.chance(.6))
          {
            if (g.chance(.07)) ks.push_back(text_el("mechanical_reduction", g.pick(junk)));
            else ks.push_back(text_el("mechanical_reduction", ws(g, dtext(g, r))));
          }
          if (g.chance(.5)) ks.push_back(text_el("offset", ws(g, dtext(g, o))));
          if (g.chance(.3)) g.shuffle(ks);
          for (auto & k : ks) x.kids.push_back(k);
          ro = false;
          if (g.chance(.3)) { ro = g.chance(.5); x.a("read_only", ro ? "true" : "false"); }
        };
        const int tj = kind == 0 ? 1 : g.range(0, static_cast<int>(std::min<size_t>(2, w.joints.size())));
        std::vector<El> els;
        for (int k = 0; k < tj; ++k)
        {
          hi::JointInfo ji;
          auto & src = w.joints[kind == 0 ? 0 : g.below(w.joints.size())];
          ji.name = src.name;
          ji.role = "joint" + std::to_string(k + 1);
          El x;
          x.tag = "joint";
          x.a("name", ws(g, ji.name)).a("role", ws(g, ji.role));
          red(x, ji.mechanical_reduction, ji.offset, ji.read_only);
          for (auto & i : src.command_interfaces) ji.command_interfaces.push_back(i.name);
          for (auto & i : src.state_interfaces) ji.state_interfaces.push_back(i.name);
          t.joints.push_back(ji);
          els.push_back(x);
        }
        std::vector<El> acts;
        for (int k = 0, m = kind == 0 ? 0 : g.range(0, 2); k < m; ++k)
        {
          hi::ActuatorInfo ai;
          ai.name = ident(g, "m");
          ai.role = "actuator" + std::to_string(k + 1);
          El x;
          x.tag = "actuator";
          x.a("name", ws(g, ai.name)).a("role", ws(g, ai.role));
          red(x, ai.mechanical_reduction, ai.offset, ai.read_only);
          t.actuators.push_back(ai);
          acts.push_back(x);
        }
        if (kind == 0)
        {
          hi::ActuatorInfo ai;
          ai.name = ai.role = "actuator1";
          ai.command_interfaces = t.joints[0].command_interfaces;
          ai.state_interfaces = t.joints[0].state_interfaces;
          t.actuators.push_back(ai);
        }
        if (g.chance(.3)) std::swap(els, acts), e.kids.insert(e.kids.end(), els.begin(), els.end()), e.kids.insert(e.kids.end(), acts.begin(), acts.end());
        else e.kids.insert(e.kids.end(), els.begin(), els.end()), e.kids.insert(e.kids.end(), acts.begin(), acts.end());
        params(g, e, t.parameters, 2);
        w.transmissions.push_back(t);
        rest.push_back(e);
      }
    // elements of different kinds may be interleaved in any way, those of the same kind keep their order
    std::vector<El> all = kids;
    all.insert(all.end(), rest.begin(), rest.end());
    if (g.chance(.5))
    {
      std::map<std::string, std::vector<El>> by;
      std::vector<std::string> seq;
      for (auto & e : all) { by[e.tag].push_back(e); seq.push_back(e.tag); }
      g.shuffle(seq);
      std::map<std::string, size_t> pos;
      all.clear();
      for (auto & t : seq) all.push_back(by[t][pos[t]++]);
    }
    c.kids = all;
    ctrl.push_back(c);
    d.expected.push_back(w);
  }
  // a joint that no component mentions
  if (g.chance(.3))
  {
    El link, j, p, ch;
    link.tag = "link";
    link.a("name", "L_extra");
    j.tag = "joint";
    j.a("name", "extra").a("type", "fixed");
    p.tag = "parent";
    p.a("link", "base");
    ch.tag = "child";
    ch.a("link", "L_extra");
    j.kids = {p, ch};
    urdf.push_back(link);
    urdf.push_back(j);
  }
  if (g.chance(.5))
  {
    d.root.kids = urdf;
    d.root.kids.insert(d.root.kids.end(), ctrl.begin(), ctrl.end());
  }
  else
  {
    d.root.kids = ctrl;
    d.root.kids.insert(d.root.kids.end(), urdf.begin(), urdf.end());
  }
  return d;
}

// ---------- structured damage with a known verdict: the description must be refused ----------
static void collect(El & e, const std::string & tag, std::vector<El *> & out, const std::string & parent = "", const std::string & want_parent = "")
{
  if (e.tag == tag && (want_parent.empty() || parent == want_parent)) out.push_back(&e);
  for (auto & k : e.kids) collect(k, tag, out, e.tag, want_parent);
}
static El * some(Rng & g, El & root, const std::string & tag, const std::string & parent = "")
{
  std::vector<El *> v;
  collect(root, tag, v, "", parent);
  return v.empty() ? nullptr : v[g.below(v.size())];
}
static bool drop_attr(El * e, const std::string & a)
{
  if (!e) return false;
  for (size_t i = 0; i < e->attr.size(); ++i)
    if (e->attr[i].first == a) { e->attr.erase(e->attr.begin() + i); return true; }
  return false;
}
static void set_attr(El * e, const std::string & a, const std::string & v)
{
  drop_attr(e, a);
  e->attr.emplace_back(a, v);
}
static std::string damage(Rng & g, El & root)
{
  static const std::vector<std::string> bad_int = {"0", "-1", "abc", "1.5", "", "10abc", "99999999999", "2147483648", "0x10", "+3",
                                                   std::string(3000, '9'), "1 2", "00"};
  static const std::vector<std::string> bad_rate = {"-1", "abc", "1.5", "10abc", "99999999999", "0x10", "1 2", std::string(400, '7'), "50.0"};
  static const std::vector<std::string> bad_bool = {"yes", "1", "truee", "tru", "", "0", "on", "false true"};
  for (int tries = 0; tries < 40; ++tries)
  {
    El * e = nullptr;
    switch (g.below(24))
    {
      case 0: if (drop_attr(some(g, root, "ros2_control"), "name")) return "ros2_control without name"; break;
      case 1: if (drop_attr(some(g, root, "ros2_control"), "type")) return "ros2_control without type"; break;
      case 2:
        if ((e = some(g, root, "hardware")))
        {
          for (size_t i = 0; i < e->kids.size(); ++i)
            if (e->kids[i].tag == "plugin") { e->kids.erase(e->kids.begin() + i); break; }
          return "hardware without plugin";
        }
        break;
      case 3:
        if (drop_attr(some(g, root, "param", g.pick({"hardware", "joint", "gpio", "sensor", "command_interface", "state_interface", "transmission"})), "name")) return "param without name";
        break;
      case 4: if (drop_attr(some(g, root, g.pick({"command_interface", "state_interface"})), "name")) return "interface without name"; break;
      case 5:
        if ((e = some(g, root, "transmission")))
        {
          for (size_t i = 0; i < e->kids.size(); ++i)
            if (e->kids[i].tag == "plugin") { e->kids.erase(e->kids.begin() + i); break; }
          return "transmission without plugin";
        }
        break;
      case 6: if (drop_attr(some(g, root, "transmission"), "name")) return "transmission without name"; break;
      case 7: if (drop_attr(some(g, root, g.pick({"joint", "actuator"}), "transmission"), "role")) return "transmission member without role"; break;
      case 8:
        if ((e = some(g, root, "ros2_control")))
        {
          El x;
          x.tag = g.pick({"foo", "Joint", "joints", "link", "sensors", "GPIO", "param"});
          x.a("name", "x");
          e->kids.insert(e->kids.begin() + g.below(e->kids.size() + 1), x);
          return "unknown element";
        }
        break;
      case 9: if ((e = some(g, root, g.pick({"command_interface", "state_interface"})))) { auto b = g.pick(bad_int); set_attr(e, "size", b); return "size=" + b; } break;
      case 10: if ((e = some(g, root, "ros2_control"))) { auto b = g.pick(bad_rate); set_attr(e, "rw_rate", b); return "rw_rate=" + b; } break;
      case 11:
        if ((e = some(g, root, "ros2_control")))
        {
          auto b = g.pick(bad_int);
          set_attr(e, "is_async", "true");
          set_attr(e, "thread_priority", b);
          return "thread_priority=" + b;
        }
        break;
      case 12: if ((e = some(g, root, "limits"))) { auto b = g.pick(bad_bool); set_attr(e, "enable", b); return "limits enable=" + b; } break;
      case 13: if (drop_attr(some(g, root, "limits"), "enable")) return "limits without enable"; break;
      case 14: if ((e = some(g, root, "ros2_control"))) { auto b = g.pick(bad_bool); set_attr(e, "is_async", b); return "is_async=" + b; } break;
      case 15: if ((e = some(g, root, "joint", "ros2_control"))) { set_attr(e, "name", "not_there"); return "joint missing in the robot"; } break;
      case 16:
      {
        El * c = some(g, root, "joint", "ros2_control");
        if (!c) break;
        std::string n;
        for (auto & [k, v] : c->attr) if (k == "name") n = strip(v);
        for (auto & k : root.kids)
          if (k.tag == "joint")
            for (auto & [a, v] : k.attr)
              if (a == "name" && v == n)
              {
                for (size_t i = 0; i < k.kids.size();)
                  if (k.kids[i].tag == "mimic") k.kids.erase(k.kids.begin() + i);
                  else ++i;
                set_attr(&k, "type", "fixed");
                return "fixed joint controlled";
              }
        break;
      }
      case 17: if ((e = some(g, root, "async"))) { auto b = g.pick(bad_int); set_attr(e, "thread_priority", b); return "async thread_priority=" + b; } break;
      case 18: if ((e = some(g, root, "async"))) { auto b = g.pick({"[1,a]", "1,2", "[1", "x", "[1.5]"}); set_attr(e, "affinity", b); return std::string("affinity=") + b; } break;
      case 19: if ((e = some(g, root, "async"))) { auto b = g.pick(bad_bool); set_attr(e, "print_warnings", b); return "print_warnings=" + b; } break;
      case 20: root.tag = g.pick({"Robot", "robots", "model", "urdf"}); return "root " + root.tag;
      case 21:
      {
        bool any = false;
        for (size_t i = 0; i < root.kids.size();)
          if (root.kids[i].tag == "ros2_control") { root.kids.erase(root.kids.begin() + i); any = true; }
          else ++i;
        if (any) return "no ros2_control";
        break;
      }
      case 22: if ((e = some(g, root, "joint", "transmission"))) { set_attr(e, "name", "not_there"); return "transmission of unknown joint"; } break;
      case 23:
        if ((e = some(g, root, "joint", "ros2_control")))
        {
          // declared to mimic without anything to mimic
          std::string n;
          for (auto & [k, v] : e->attr) if (k == "name") n = strip(v);
          for (auto & k : root.kids)
            if (k.tag == "joint")
              for (auto & [a, v] : k.attr)
                if (a == "name" && v == n)
                  for (auto & x : k.kids)
                    if (x.tag == "mimic") return "";  // has something to mimic: try again in another case
          set_attr(e, "mimic", "true");
          return "mimic without mimic information";
        }
        break;
    }
  }
  return "";
}

// getJointLimits / getSoftJointLimits called directly on joints of every type, with limits that already hold something
static void direct(Rng & g)
{
  auto j = std::make_shared<urdf::Joint>();
  j->type = g.pick({urdf::Joint::UNKNOWN, urdf::Joint::REVOLUTE, urdf::Joint::CONTINUOUS, urdf::Joint::PRISMATIC, urdf::Joint::FLOATING,
                    urdf::Joint::PLANAR, urdf::Joint::FIXED});
  const bool hl = g.chance(.7), hs = g.chance(.5);
  if (hl)
  {
    j->limits = std::make_shared<urdf::JointLimits>();
    j->limits->lower = g.uniform(-5, 0);
    j->limits->upper = g.uniform(0, 5);
    j->limits->velocity = g.uniform(-3, 3);
    j->limits->effort = g.uniform(-3, 3);
  }
  if (hs)
  {
    j->safety = std::make_shared<urdf::JointSafety>();
    j->safety->soft_lower_limit = g.uniform(-5, 0);
    j->safety->soft_upper_limit = g.uniform(0, 5);
    j->safety->k_position = g.uniform(0, 9);
    j->safety->k_velocity = g.uniform(0, 9);
  }
  jl::JointLimits l, before;
  auto rnd = [&](double & d) { d = g.uniform(-9, 9); };
  rnd(l.min_position); rnd(l.max_position); rnd(l.max_velocity); rnd(l.max_acceleration); rnd(l.max_deceleration); rnd(l.max_jerk); rnd(l.max_effort);
  l.has_position_limits = g.chance(.5); l.has_velocity_limits = g.chance(.5); l.has_acceleration_limits = g.chance(.5);
  l.has_deceleration_limits = g.chance(.5); l.has_jerk_limits = g.chance(.5); l.has_effort_limits = g.chance(.5); l.angle_wraparound = g.chance(.2);
  before = l;
  const bool ret = jl::getJointLimits(j, l);
  VCHECK(ret == hl, "direct.result", "getJointLimits said " << ret << " for a joint with limits=" << hl);
  if (!hl)
    VCHECK(dump(l) == dump(before), "direct.untouched", dump(l) << " instead of " << dump(before));
  else
  {
    const bool pos = j->type == urdf::Joint::REVOLUTE || j->type == urdf::Joint::PRISMATIC;
    VCHECK(l.has_position_limits == pos, "direct.position", "position limits for joint type " << j->type << ": " << l.has_position_limits);
    if (pos) VCHECK(l.min_position == j->limits->lower && l.max_position == j->limits->upper, "direct.position", dump(l));
    VCHECK(l.has_velocity_limits && l.max_velocity == std::fabs(j->limits->velocity), "direct.velocity", dump(l));
    VCHECK(l.has_effort_limits && l.max_effort == std::fabs(j->limits->effort), "direct.effort", dump(l));
    VCHECK(!l.has_acceleration_limits, "direct.acceleration", dump(l));
    VCHECK(l.angle_wraparound == (before.angle_wraparound || j->type == urdf::Joint::CONTINUOUS), "direct.wraparound", dump(l));
    VCHECK(l.has_deceleration_limits == before.has_deceleration_limits && l.has_jerk_limits == before.has_jerk_limits && l.max_jerk == before.max_jerk,
           "direct.untouched", dump(l) << " before " << dump(before));
  }
  jl::SoftJointLimits s, sb;
  rnd(s.min_position); rnd(s.max_position); rnd(s.k_position); rnd(s.k_velocity);
  sb = s;
  VCHECK(jl::getSoftJointLimits(j, s) == hs, "direct.soft.result", "getSoftJointLimits for safety=" << hs);
  if (hs)
    VCHECK(s.min_position == j->safety->soft_lower_limit && s.max_position == j->safety->soft_upper_limit && s.k_position == j->safety->k_position &&
           s.k_velocity == j->safety->k_velocity, "direct.soft", dump(s));
  else VCHECK(dump(s) == dump(sb), "direct.soft", "changed without soft limits");
  VCHECK(!jl::getJointLimits(nullptr, l) && !jl::getSoftJointLimits(nullptr, s), "direct.null", "limits of no joint");
  rec().count("direct");
}

static std::vector<std::string> parse_dump(const std::string & text, std::string * err)
{
  try
  {
    auto r = hi::parse_control_resources_from_urdf(text);
    std::vector<std::string> o;
    for (auto & h : r)
    {
      for (auto & s : dump(h)) o.push_back(s);
      std::map<std::string, std::string> l;
      for (auto & [n, x] : h.limits) l[n] = dump(x);
      for (auto & [n, x] : h.soft_limits) l[n] += dump(x);
      for (auto & [n, x] : l) o.push_back(n + x);
    }
    if (err) err->clear();
    return o;
  }
  catch (const std::exception & e)
  {
    if (err) *err = std::string("refused: ") + e.what();
    return {};
  }
}

int main(int argc, char ** argv)
{
  std::cerr.setstate(std::ios::failbit);
  return run_cases(argc, argv, [&](Rng & g, uint64_t, const Args & a)
  {
    const bool lm = a.mode == "limits";
    bool comma = false;
    if (g.chance(.3) && std::setlocale(LC_NUMERIC, "de_DE.UTF-8")) comma = true;
    for (int k = 0; lm && k < 20; ++k) direct(g);
    for (int rep = 0; rep < 12; ++rep)
    {
      Doc d = generate(g, lm);
      std::string text = g.chance(.5) ? "<?xml version=\"1.0\"?>\n" : "";
      print(g, d.root, text, 0, g.chance(.6));
      std::vector<HardwareInfo> r;
      try { r = hi::parse_control_resources_from_urdf(text); }
      catch (const std::exception & e)
      {
        VCHECK(false, "refused-valid", "a well-formed description was refused: " << e.what() << "\n" << text);
        continue;
      }
      rec().count("descriptions");
      rec().distinct(text);
      if (lm)
      {
        std::map<std::string, std::pair<std::string, std::string>> got;
        size_t nl = 0, nsoft = 0;
        for (auto & h : r)
        {
          for (auto & [n, l] : h.limits) { got[n].first = dump(l); ++nl; }
          for (auto & [n, s] : h.soft_limits) { got[n].second = dump(s); ++nsoft; }
        }
        VCHECK(nl == d.limits.size(), "limits.count", "limits reported for " << nl << " joints instead of " << d.limits.size());
        for (auto & [n, e] : d.limits)
        {
          if (e.first != "?")
          {
            VCHECK(got[n].first == e.first, "limits.value", "joint " << n << " got " << got[n].first << " expected " << e.first << "\n" << text);
            VCHECK(got[n].second == e.second, "limits.soft", "joint " << n << " got " << got[n].second << " expected " << e.second << "\n" << text);
            rec().count("joints_compared");
            rec().sample(n + ": " + e.first + " " + e.second);
          }
          else VCHECK((got[n].second != "") == (e.second != ""), "limits.soft", "joint " << n << " soft limits presence");
        }
        continue;
      }
      VCHECK(r.size() == d.expected.size(), "components.count", r.size() << " components instead of " << d.expected.size());
      if (r.size() != d.expected.size()) continue;
      for (size_t i = 0; i < r.size(); ++i)
      {
        auto x = dump(r[i]), y = dump(d.expected[i]);
        VCHECK(x.size() == y.size(), "parts.count", x.size() << " parts instead of " << y.size() << "\n" << text);
        for (size_t k = 0; k < std::min(x.size(), y.size()); ++k)
        {
          VCHECK(x[k] == y[k], "parts.differ", "parsed   " << x[k] << "\nexpected " << y[k] << "\n" << text);
          rec().count("parts");
          rec().sample(y[k]);
        }
        VCHECK(r[i].original_xml == text, "original_xml", "the original text is not kept");
        // descriptions of the interfaces
        auto & h = d.expected[i];
        for (auto * list : {&h.joints, &h.sensors, &h.gpios})
          for (int cmd = 0; cmd < 2; ++cmd)
          {
            const auto & parsed = list == &h.joints ? r[i].joints : list == &h.sensors ? r[i].sensors : r[i].gpios;
            auto v = cmd ? hi::parse_command_interface_descriptions(parsed) : hi::parse_state_interface_descriptions(parsed);
            std::vector<std::string> want, gotv;
            std::map<std::string, std::string> wantm, gotm;
            for (auto & c : *list)
              for (auto & ii : cmd ? c.command_interfaces : c.state_interfaces)
              {
                want.push_back(c.name + " " + dump(ii));
                wantm.emplace(c.name + "/" + ii.name, c.name + " " + dump(ii));
              }
            for (auto & x2 : v) gotv.push_back(x2.get_prefix_name() + " " + dump(x2.interface_info));
            std::unordered_map<std::string, hi::InterfaceDescription> m;
            m.emplace("keep/me", hi::InterfaceDescription("keep", hi::InterfaceInfo{}));
            if (cmd) hi::parse_command_interface_descriptions(parsed, m);
            else hi::parse_state_interface_descriptions(parsed, m);
            VCHECK(m.erase("keep/me") == 1, "descriptions.dropped", "an unrelated description was dropped");
            for (auto & [n, x2] : m)
            {
              gotm.emplace(n, x2.get_prefix_name() + " " + dump(x2.interface_info));
              VCHECK(x2.get_name() == n && x2.get_name() == x2.get_prefix_name() + "/" + x2.get_interface_name(), "descriptions.name", n << " vs " << x2.get_name());
            }
            VCHECK(gotv == want, "descriptions.list", join(gotv) << " expected " << join(want));
            VCHECK(gotm == wantm, "descriptions.map", gotm.size() << " descriptions, expected " << wantm.size());
          }
      }
      std::string e1, e2;
      if (rep % 3 == 0) VCHECK(parse_dump(text, &e1) == parse_dump(text, &e2) && e1 == e2, "twice", "parsing twice differs: " << e1 << " / " << e2);
      // structured damage
      El bad = d.root;
      std::string what = damage(g, bad);
      if (!what.empty())
      {
        std::string t2;
        print(g, bad, t2, 0, g.chance(.3));
        std::string err;
        parse_dump(t2, &err);
        VCHECK(!err.empty(), "accepted." + what.substr(0, what.find('=')), "accepted although " << what.substr(0, 200) << "\n" << t2);
        rec().count("refused");
        rec().distinct(what);
      }
      // arbitrary damage
      for (int k = 0; k < 6; ++k)
      {
        std::string t3 = text;
        const int m = g.below(7);
        if (m == 0) t3.resize(g.below(t3.size() + 1));
        else if (m == 1)
          for (int n = g.range(1, 20); n > 0 && !t3.empty(); --n) t3[g.below(t3.size())] = static_cast<char>(g.below(256));
        else if (m == 2) t3.erase(g.below(t3.size()), g.below(80));
        else if (m == 3) { size_t p = g.below(t3.size()); t3.insert(g.below(t3.size()), t3.substr(p, g.below(200))); }
        else if (m == 4)
        {
          t3.clear();
          static const std::vector<std::string> tok = {"<robot>", "</robot>", "<sdf>", "</sdf>", "<sdf/>", "<model>", "</model>", "<ros2_control>", "</ros2_control>",
            "<ros2_control name='a' type='system'>", "<joint name='a'>", "</joint>", "<hardware/>", "<!--", "-->", "<?xml?>", "<!DOCTYPE a>", "<![CDATA[x]]>", "&#x0;", "&lt;", "text",
            "<limits enable='true'/>", "<command_interface/>", "<properties><async/></properties>", "<transmission name='t'><plugin/></transmission>", "\0", "<robot name='r'/>", "<robot/>"};
          for (int n = g.range(0, 12); n > 0; --n) t3 += g.pick(tok);
        }
        else if (m == 5)
        {
          t3.clear();
          for (int n = g.range(0, 60); n > 0; --n) t3 += static_cast<char>(g.below(256));
        }
        else
        {
          // remove one random element or attribute
          El x = d.root;
          std::vector<El *> v;
          static const std::vector<std::string> tags = {"joint", "ros2_control", "hardware", "plugin", "param", "command_interface", "link", "limit", "parent", "transmission", "actuator"};
          El * e = some(g, x, g.pick(tags));
          if (e && !e->attr.empty() && g.chance(.5)) e->attr.erase(e->attr.begin() + g.below(e->attr.size()));
          else if (e) { e->kids.clear(); e->text.clear(); e->has_text = false; }
          t3.clear();
          print(g, x, t3, 0, false);
        }
        std::string err;
        auto r1 = parse_dump(t3, &err);
        rec().eval();
        rec().count(err.empty() ? "damaged_accepted" : "damaged_refused");
      }
    }
    if (comma) std::setlocale(LC_NUMERIC, "C");
    if (comma) rec().count("comma_locale");
  });
}
