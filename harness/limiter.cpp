// C05 / C06: joint range limiter and soft limiter under random and closed-loop command histories.
#include "limits_model.hpp"
#include "joint_limits/joint_saturation_limiter.hpp"
#include "joint_limits/joint_soft_limiter.hpp"
using namespace vh;
using namespace lm;
using Lim = joint_limits::JointLimiterInterface<JointControlInterfacesData>;

static std::string str(const JointControlInterfacesData & d)
{
  std::ostringstream o; o.precision(17);
  auto p = [&](const char * n, const std::optional<double> & v) { if (v) o << n << "=" << *v << " "; };
  p("pos", d.position); p("vel", d.velocity); p("eff", d.effort); p("acc", d.acceleration); p("jerk", d.jerk);
  return o.str();
}
static std::string str(const JointLimits & l, const SoftJointLimits & s, bool soft)
{
  std::ostringstream o; o.precision(17);
  o << "limits{pos " << l.has_position_limits << " [" << l.min_position << "," << l.max_position << "] vel " << l.has_velocity_limits << " " << l.max_velocity
    << " acc " << l.has_acceleration_limits << " " << l.max_acceleration << " dec " << l.has_deceleration_limits << " " << l.max_deceleration
    << " eff " << l.has_effort_limits << " " << l.max_effort << " jerk " << l.has_jerk_limits << " " << l.max_jerk << "}";
  if (soft) o << " soft{[" << s.min_position << "," << s.max_position << "] kp " << s.k_position << " kv " << s.k_velocity << "}";
  return o.str();
}
static double val(Rng & r, double scale)
{
  switch (r.below(8))
  {
    case 0: return 0.0;
    case 1: return r.uniform(-100, 100) * scale;
    case 2: return r.pick({1.0, -1.0, 0.5, -0.5}) * scale;
    case 3: return r.uniform(-1, 1) * 1e-3 * scale;
    default: return r.uniform(-2, 2) * scale;
  }
}
static double pos_of(Rng & r, double scale)
{
  switch (r.below(4))
  {
    case 0: return r.pick({0.1, 0.5, 1.0, 2.0, 5.0}) * scale;
    case 1: return r.uniform(0.001, 0.1) * scale;
    default: return r.uniform(0.05, 3) * scale;
  }
}
// A value that stays clear of the tolerance edges, where rounding alone could decide the branch.
static bool near_edge(const JointLimits & l, const std::optional<double> & p)
{
  if (!p || !l.has_position_limits) return false;
  for (double t : {TOL_OUT, TOL_THROW})
    if (std::fabs(*p - (l.max_position + t)) < 1e-7 || std::fabs(*p - (l.min_position - t)) < 1e-7) return true;
  return false;
}
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)}); }

static JointLimits gen_limits(Rng & r, bool all)
{
  JointLimits l;
  double junk = r.chance(0.3) ? DBL_MAX : (r.chance(0.4) ? pos_of(r, 1) : std::nan(""));  // values kept behind switched-off limits
  auto on = [&](double p) { return all || r.chance(p); };
  l.has_position_limits = on(0.7);
  double a = r.uniform(-3, 2), w = r.chance(0.1) ? r.uniform(0.001, 0.01) : r.uniform(0.1, 5);
  if (l.has_position_limits || r.chance(0.2)) { l.min_position = a; l.max_position = a + w; }
  else if (junk == DBL_MAX) { l.min_position = -DBL_MAX; l.max_position = DBL_MAX; }
  l.has_velocity_limits = on(0.7); l.max_velocity = l.has_velocity_limits ? pos_of(r, 1) : junk;
  l.has_acceleration_limits = on(0.5); l.max_acceleration = l.has_acceleration_limits ? pos_of(r, r.chance(0.5) ? 1 : 20) : junk;
  l.has_deceleration_limits = on(0.4); l.max_deceleration = l.has_deceleration_limits ? pos_of(r, r.chance(0.5) ? 1 : 20) : junk;
  l.has_effort_limits = on(0.6); l.max_effort = l.has_effort_limits ? pos_of(r, 10) : junk;
  l.has_jerk_limits = on(0.4); l.max_jerk = l.has_jerk_limits ? pos_of(r, 10) : junk;
  return l;
}
static SoftJointLimits gen_soft(Rng & r, const JointLimits & l)
{
  SoftJointLimits s;
  double lo = std::isfinite(l.min_position) && std::fabs(l.min_position) < 1e6 ? l.min_position : -1.0;
  double hi = std::isfinite(l.max_position) && std::fabs(l.max_position) < 1e6 ? l.max_position : 1.0;
  double w = hi - lo;
  s.min_position = lo + w * r.uniform(0.0, 0.45);
  s.max_position = hi - w * r.uniform(0.0, 0.45);
  if (r.chance(0.1)) { s.min_position = lo; s.max_position = hi; }
  if (r.chance(0.08)) s.min_position = std::nan("");
  if (r.chance(0.05)) s.max_position = s.min_position;
  s.k_position = r.chance(0.12) ? 0.0 : (r.chance(0.05) ? std::nan("") : r.uniform(0.2, 30));
  s.k_velocity = r.chance(0.12) ? 0.0 : (r.chance(0.1) ? std::nan("") : r.uniform(0.2, 30));
  return s;
}

static void body(Rng & r, uint64_t c, const Args & a)
{
  const bool soft = a.mode == "soft";
  for (int scen = 0; scen < 25; ++scen)
  {
    JointLimits l = gen_limits(r, r.chance(0.25));
    SoftJointLimits s;
    bool give_soft = soft && r.chance(0.92);
    if (give_soft) s = gen_soft(r, l);
    std::unique_ptr<Lim> lim;
    if (soft) lim = std::make_unique<joint_limits::JointSoftLimiter>();
    else lim = std::make_unique<joint_limits::JointSaturationLimiter<JointControlInterfacesData>>();
    if (scen == 0)
    {
      // construction: exactly one joint and matching numbers of limits
      auto mk = [&]() -> std::unique_ptr<Lim> { if (soft) return std::make_unique<joint_limits::JointSoftLimiter>(); return std::make_unique<joint_limits::JointSaturationLimiter<JointControlInterfacesData>>(); };
      for (size_t nj = 0; nj < 4; ++nj)
        for (size_t nl = 0; nl < 4; ++nl)
        {
          auto x = mk();
          bool ok = x->init(std::vector<std::string>(nj, "j"), std::vector<JointLimits>(nl, l), {}, nullptr, nullptr);
          VCHECK(ok == (nj == 1 && nl == 1), "limiter.init", "init with " << nj << " joints and " << nl << " limits gives " << ok);
        }
    }
    bool ok = lim->init({"j"}, {l}, give_soft ? std::vector<SoftJointLimits>{s} : std::vector<SoftJointLimits>{}, nullptr, nullptr);
    VCHECK(ok, "limiter.init", "init failed for " << str(l, s, soft));
    Model m; m.l = l; m.s = s; m.soft = soft;
    bool closed = r.chance(0.6);
    // simulated joint for closed loop runs
    double jp = l.has_position_limits ? r.uniform(l.min_position, l.max_position) : r.uniform(-1, 1), jv = 0;
    int delay = r.range(0, 2);
    std::vector<double> hist;
    int kind = r.below(6);   // 0: all, 1: pos 2: vel 3: eff 4: acc 5 mixed per step
    double dt0 = r.pick({0.001, 0.002, 0.01, 0.1, 0.5});
    bool act_p = r.chance(0.85), act_v = r.chance(0.85);
    double drift = r.pick({-1.0, 1.0, 0.0});
    if (r.chance(0.2))
    {
      JointControlInterfacesData c0;
      if (r.chance(0.7)) c0.position = jp;
      if (r.chance(0.5)) c0.velocity = 0.0;
      lim->configure(c0); m.prev = c0;
    }
    int steps = closed ? 60 : 25;
    for (int k = 0; k < steps; ++k)
    {
      JointControlInterfacesData act, want;
      act.joint_name = want.joint_name = "j";
      if (closed)
      {
        if (act_p) act.position = jp;
        if (act_v) act.velocity = jv;
      }
      else
      {
        if (act_p)
        {
          act.position = val(r, 1);
          if (l.has_position_limits)
            switch (r.below(8))
            {
              case 0: act.position = l.max_position; break;
              case 1: act.position = l.min_position; break;
              case 2: act.position = l.max_position + r.uniform(0, 0.002); break;
              case 3: act.position = l.min_position - r.uniform(0, 0.002); break;
              case 4: act.position = r.chance(0.5) ? l.max_position + r.uniform(0.002, 0.012) : l.min_position - r.uniform(0.002, 0.012); break;
              default: act.position = r.uniform(l.min_position, l.max_position);
            }
          if (r.chance(0.05)) act.position = std::nan("");
        }
        if (act_v)
        {
          act.velocity = val(r, 1);
          if (l.has_velocity_limits && r.chance(0.2)) act.velocity = l.max_velocity * r.pick({1.0, -1.0, 1.5, -1.5});
          if (r.chance(0.05)) act.velocity = std::nan("");
        }
        if (r.chance(0.3)) act.effort = val(r, 10);
        if (r.chance(0.3)) act.acceleration = val(r, 5);
      }
      if (near_edge(l, act.position)) continue;
      int kd = kind == 5 ? r.below(5) : kind;
      auto lim_or = [&](bool has, double m0, double sc) { return has && std::isfinite(m0) && r.chance(0.3) ? m0 * r.pick({1.0, -1.0, 0.999, -1.001}) : val(r, sc); };
      if (kd == 0 || kd == 1)
      {
        want.position = closed ? (l.has_position_limits ? r.uniform(l.min_position - 1, l.max_position + 1) + drift * 5 : val(r, 3)) : val(r, 2);
        if (m.prev.position && r.chance(0.35)) want.position = *m.prev.position + val(r, 1) * dt0;
        if (l.has_position_limits && r.chance(0.15)) want.position = r.pick({l.min_position, l.max_position});
      }
      if (kd == 0 || kd == 2) want.velocity = closed && r.chance(0.7) ? drift * 100 : lim_or(l.has_velocity_limits, l.max_velocity, 1);
      if ((kd == 0 || kd == 2) && m.prev.velocity && r.chance(0.3)) want.velocity = *m.prev.velocity + val(r, 1) * dt0;
      if (kd == 0 || kd == 3) want.effort = lim_or(l.has_effort_limits, l.max_effort, 10);
      if (kd == 0 || kd == 4) want.acceleration = r.chance(0.5) ? lim_or(l.has_deceleration_limits, l.max_deceleration, 5) : lim_or(l.has_acceleration_limits, l.max_acceleration, 5);
      if ((kd == 0 && r.chance(0.7)) || r.chance(0.1)) want.jerk = lim_or(l.has_jerk_limits, l.max_jerk, 10);
      for (auto * p : {&want.position, &want.velocity, &want.effort, &want.acceleration, &want.jerk})
        if (*p && r.chance(0.02)) *p = r.pick({std::nan(""), INF, -INF, 1e300});
      double dt = dt0;
      if (r.chance(0.04)) dt = r.pick({0.0, -0.001, -1.0});
      if (r.chance(0.03)) { lim->reset_internals(); m.reset(); rec().count("resets"); }
      auto before = m.prev;
      rclcpp::Duration d = rclcpp::Duration::from_seconds(dt);
      Result e = m.step(act, want, d.seconds());
      JointControlInterfacesData got = want;
      bool ret = false, thrown = false;
      std::string what;
      try { ret = lim->enforce(act, got, d); }
      catch (const std::runtime_error & ex) { thrown = true; what = ex.what(); }
      auto ctx = [&] { return str(l, s, give_soft) + " dt " + num(dt) + " actual{" + str(act) + "} previous{" + str(before) + "} command{" + str(want) + "} limited{" + str(got) + "} expected{" + str(e.out) + "}"; };
      VCHECK(thrown == e.thrown, "limiter.out_of_range_error", (thrown ? "error although the joint is within its range: " + what : "no error although the joint is outside its range") << " " << ctx());
      rec().count(e.thrown ? "refused" : (e.changed ? "limited" : "passed"));
      if (thrown || e.thrown)
      {
        VCHECK(str(got) == str(want), "limiter.changed_on_error", ctx());
        if (thrown != e.thrown) break;
      }
      else
      {
        auto cmp = [&](const char * n, const std::optional<double> & g, const std::optional<double> & x, const std::optional<double> & w)
        {
          VCHECK(g.has_value() == w.has_value(), std::string("limiter.presence.") + n, ctx());
          if (!g || !w) return;
          VCHECK(std::isnan(*w) ? std::isnan(*g) : close(*g, *x), std::string("limiter.value.") + n, n << " " << *g << " instead of " << *x << ": " << ctx());
          if (!std::isnan(*w) && *x == *w) VCHECK(same_bits(*g, *w) || !close(*g, *x) || std::fabs(*g - *w) <= 1e-12 * std::max(1.0, std::fabs(*w)), std::string("limiter.not_bit_for_bit.") + n, ctx());
        };
        cmp("position", got.position, e.out.position, want.position);
        cmp("velocity", got.velocity, e.out.velocity, want.velocity);
        cmp("effort", got.effort, e.out.effort, want.effort);
        cmp("acceleration", got.acceleration, e.out.acceleration, want.acceleration);
        cmp("jerk", got.jerk, e.out.jerk, want.jerk);
        bool really = false;
        auto df = [&](const std::optional<double> & x, const std::optional<double> & y) { if (x && y && !std::isnan(*x) && *x != *y) really = true; };
        df(want.position, got.position); df(want.velocity, got.velocity); df(want.effort, got.effort); df(want.acceleration, got.acceleration); df(want.jerk, got.jerk);
        VCHECK(ret == really, "limiter.report", "reported " << ret << " but " << (really ? "changed" : "not changed") << ": " << ctx());
        // stand-alone safety statements, not taken from the interval computation
        if (dt > 0)
        {
          double eps = 1e-9;
          if (known(got.position) && l.has_position_limits)
            VCHECK(*got.position >= l.min_position - eps && *got.position <= l.max_position + eps, "limiter.safety.position", ctx());
          if (known(got.velocity) && l.has_velocity_limits)
            VCHECK(std::fabs(*got.velocity) <= l.max_velocity * (1 + eps) + eps, "limiter.safety.velocity", ctx());
          if (known(got.velocity) && l.has_velocity_limits && l.has_position_limits && known(act.position))
          {
            if (*act.position >= l.max_position && !l.has_acceleration_limits)
              VCHECK(*got.velocity <= eps, "limiter.safety.outward", ctx());
            if (*act.position <= l.min_position && !l.has_acceleration_limits)
              VCHECK(*got.velocity >= -eps, "limiter.safety.outward", ctx());
          }
          if (known(got.effort) && l.has_effort_limits)
            VCHECK(std::fabs(*got.effort) <= l.max_effort * (1 + eps) + eps, "limiter.safety.effort", ctx());
          if (known(got.jerk) && l.has_jerk_limits)
            VCHECK(std::fabs(*got.jerk) <= l.max_jerk * (1 + eps), "limiter.safety.jerk", ctx());
          if (known(got.acceleration) && l.has_acceleration_limits)
            VCHECK(std::fabs(*got.acceleration) <= std::max(l.max_acceleration, l.has_deceleration_limits ? l.max_deceleration : 0.0) * (1 + eps), "limiter.safety.acceleration", ctx());
          if (known(got.position) && l.has_velocity_limits && known(before.position) && l.has_position_limits && *before.position >= l.min_position && *before.position <= l.max_position && !soft)
            VCHECK(std::fabs(*got.position - *before.position) <= l.max_velocity * dt + 1e-9, "limiter.safety.step", ctx());
        }
        // next model state follows the real output, so that one difference is reported once
        if (dt > 0)
        {
          if (known(got.position)) m.prev.position = got.position;
          if (known(got.velocity)) m.prev.velocity = got.velocity;
          if (known(got.effort)) m.prev.effort = got.effort;
          if (known(got.acceleration)) m.prev.acceleration = got.acceleration;
          if (known(got.jerk)) m.prev.jerk = got.jerk;
        }
        uint64_t h = hash_str(str(got)) ^ hash_str(str(act));
        if (e.changed) rec().distinct_hash(h);
        if (scen == 0 && k < 2) rec().sample(ctx());
        if (closed && dt > 0)
        {
          double np = jp, nv = jv;
          if (known(got.position)) { np = *got.position; nv = (np - jp) / dt; }
          else if (known(got.velocity)) { nv = *got.velocity; np = jp + nv * dt; }
          hist.push_back(np);
          if (std::isfinite(np) && std::fabs(np) < 1e6)
          {
            double q = hist.size() > static_cast<size_t>(delay) ? hist[hist.size() - 1 - delay] : jp;
            if (std::isfinite(q)) { jv = (q - jp) / dt; jp = q; }
          }
          if (r.chance(0.02)) drift = -drift;
        }
      }
    }
  }
}
int main(int argc, char ** argv) { rclcpp::init(0, nullptr); return run_cases(argc, argv, body); }
