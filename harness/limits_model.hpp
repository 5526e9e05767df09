// Reference model of the documented limiting rules for one joint (range limiter and soft limiter), written from the rules:
// a command is moved to the nearest value of an admissible interval; the model computes the intervals.
#pragma once
#include "common.hpp"
#include "joint_limits/joint_limits.hpp"
#include "joint_limits/data_structures.hpp"
namespace lm
{
using joint_limits::JointControlInterfacesData;
using joint_limits::JointLimits;
using joint_limits::SoftJointLimits;
constexpr double INF = std::numeric_limits<double>::infinity();
constexpr double TOL_OUT = 0.002, TOL_THROW = 0.0087;
struct Iv { double lo = -INF, hi = INF; };
inline bool known(const std::optional<double> & v) { return v && !std::isnan(*v); }
inline double into(double v, const Iv & i) { return v < i.lo ? i.lo : (v > i.hi ? i.hi : v); }
inline Iv hull(double a, double b) { return a <= b ? Iv{a, b} : Iv{b, a}; }
struct Result
{
  bool thrown = false, changed = false;
  JointControlInterfacesData out;
  Iv pos, vel, eff, acc, jerk;
};
struct Model
{
  JointLimits l;
  SoftJointLimits s;
  bool soft = false;
  JointControlInterfacesData prev;
  void reset() { prev = JointControlInterfacesData(); }

  bool soft_range() const { return std::isfinite(s.min_position) && std::isfinite(s.max_position) && s.max_position - s.min_position > 1e-10; }
  bool soft_law() const { return soft_range() && std::isfinite(s.k_position) && std::fabs(s.k_position) > 1e-10; }

  Iv hard_pos(const JointControlInterfacesData & act, double dt) const
  {
    Iv i;
    if (l.has_position_limits) i = Iv{l.min_position, l.max_position};
    if (l.has_velocity_limits)
    {
      double v = l.max_velocity;
      if (l.has_acceleration_limits) v = std::min(v, (known(act.velocity) ? std::fabs(*act.velocity) : 0.0) + l.max_acceleration * dt);
      std::optional<double> ref;
      if (known(prev.position)) ref = prev.position;
      else if (known(act.position)) ref = act.position;
      if (ref)
      {
        double lo = into(*ref - v * dt, i);
        double hi = std::min(std::max(*ref + v * dt, lo), i.hi);
        i = Iv{lo, hi};
      }
    }
    return i;
  }
  Iv hard_vel(const JointControlInterfacesData & act, double want, double dt) const
  {
    if (!l.has_velocity_limits) return Iv{};
    Iv i{-l.max_velocity, l.max_velocity};
    if (l.has_position_limits && known(act.position))
    {
      double p = *act.position;
      Iv mv{-l.max_velocity, l.max_velocity};
      i = Iv{into((l.min_position - p) / dt, mv), into((l.max_position - p) / dt, mv)};
      bool above = p > l.max_position, below = p < l.min_position;
      bool far = p > l.max_position + TOL_OUT || p < l.min_position - TOL_OUT;
      if (far || (above && want >= 0) || (below && want <= 0)) i = Iv{0, 0};
    }
    if (l.has_acceleration_limits && known(prev.velocity))
    {
      double d = l.max_acceleration * dt, ref = into(*prev.velocity, Iv{-l.max_velocity, l.max_velocity});
      i = hull(std::max(ref - d, i.lo), std::min(ref + d, i.hi));
    }
    return i;
  }
  Iv hard_eff(const JointControlInterfacesData & act) const
  {
    if (!l.has_effort_limits) return Iv{};
    Iv i{-l.max_effort, l.max_effort};
    if (!act.velocity) return i;
    double v = *act.velocity;
    bool no_down = false, no_up = false;
    if (l.has_position_limits && act.position)
    {
      if (*act.position <= l.min_position && v <= 0) no_down = true;
      else if (*act.position >= l.max_position && v >= 0) no_up = true;
    }
    if (l.has_velocity_limits) { if (v < -l.max_velocity) no_down = true; else if (v > l.max_velocity) no_up = true; }
    if (no_down) i.lo = 0;
    if (no_up) i.hi = 0;
    return i;
  }
  Iv acc_iv(const JointControlInterfacesData & act, double want) const
  {
    bool braking = act.velocity && ((want < 0 && *act.velocity > 0) || (want > 0 && *act.velocity < 0));
    if (braking && l.has_deceleration_limits) return Iv{-l.max_deceleration, l.max_deceleration};
    if (l.has_acceleration_limits) return Iv{-l.max_acceleration, l.max_acceleration};
    return Iv{};
  }
  static void seed1(std::optional<double> & p, const std::optional<double> & d, const std::optional<double> & a)
  {
    if (!d) return;
    if (a) p = a;
    else if (!std::isnan(*d)) p = d;
  }
  Result step(const JointControlInterfacesData & act, const JointControlInterfacesData & want, double dt)
  {
    Result r;
    r.out = want;
    if (!(dt > 0)) return r;
    if (!prev.has_data())
    {
      seed1(prev.position, want.position, act.position);
      seed1(prev.velocity, want.velocity, act.velocity);
      seed1(prev.effort, want.effort, act.effort);
      seed1(prev.acceleration, want.acceleration, act.acceleration);
      seed1(prev.jerk, want.jerk, act.jerk);
    }
    // soft velocity law
    Iv sv;
    double refp = INF;
    if (prev.position && std::isfinite(*prev.position)) refp = *prev.position;
    else if (act.position) refp = *act.position;
    if (soft && l.has_velocity_limits)
    {
      Iv mv{-l.max_velocity, l.max_velocity};
      sv = mv;
      if (l.has_position_limits && soft_law() && std::isfinite(refp))
      {
        sv.lo = into(-s.k_position * (refp - s.min_position), mv);
        sv.hi = into(-s.k_position * (refp - s.max_position), mv);
        double ap = act.position ? *act.position : (prev.position && std::isfinite(*prev.position) ? *prev.position : INF);
        if (std::isfinite(ap) && (ap < l.min_position - TOL_OUT || ap > l.max_position + TOL_OUT)) sv = Iv{0, 0};
        else if (ap < s.min_position || ap > s.max_position)
        {
          sv.lo = std::copysign(M_PI / 180.0, sv.lo);
          sv.hi = std::copysign(M_PI / 180.0, sv.hi);
        }
      }
    }
    if (known(want.position))
    {
      if (act.position && l.has_position_limits && (*act.position > l.max_position + TOL_THROW || *act.position < l.min_position - TOL_THROW))
      {
        r.thrown = true;
        return r;
      }
      Iv h = hard_pos(act, dt);
      if (soft)
      {
        Iv i;
        if (soft_range()) i = Iv{s.min_position, s.max_position};
        if (l.has_velocity_limits && std::isfinite(refp))
        {
          i.lo = into(refp + sv.lo * dt, i);
          i.hi = into(refp + sv.hi * dt, i);
        }
        Iv both{std::max(i.lo, h.lo), std::min(i.hi, h.hi)};
        if (!(both.lo <= both.hi))
        {
          // the soft boundary is preferred when they do not overlap, within the hard position limits
          both = i;
          if (l.has_position_limits) both = Iv{into(i.lo, Iv{l.min_position, l.max_position}), into(i.hi, Iv{l.min_position, l.max_position})};
        }
        h = both;
      }
      r.pos = h;
      r.out.position = into(*want.position, h);
    }
    if (known(want.velocity))
    {
      Iv h = hard_vel(act, *want.velocity, dt);
      if (soft)
      {
        if (l.has_velocity_limits && l.has_acceleration_limits && known(act.velocity))
        {
          double d = l.max_acceleration * dt;
          sv = Iv{into(*act.velocity - d, sv), into(*act.velocity + d, sv)};
        }
        sv = Iv{into(sv.lo, h), into(sv.hi, h)};
        h = sv;
      }
      r.vel = h;
      r.out.velocity = into(*want.velocity, h);
    }
    if (known(want.effort))
    {
      Iv h = hard_eff(act);
      if (soft && l.has_effort_limits && l.has_velocity_limits && std::isfinite(s.k_velocity) && known(act.velocity))
      {
        Iv me{-l.max_effort, l.max_effort};
        h = Iv{into(into(-s.k_velocity * (*act.velocity - sv.lo), me), h), into(into(-s.k_velocity * (*act.velocity - sv.hi), me), h)};
      }
      r.eff = h;
      r.out.effort = into(*want.effort, h);
    }
    if (known(want.acceleration))
    {
      r.acc = acc_iv(act, *want.acceleration);
      r.out.acceleration = into(*want.acceleration, r.acc);
    }
    if (known(want.jerk) && l.has_jerk_limits)
    {
      r.jerk = Iv{-l.max_jerk, l.max_jerk};
      r.out.jerk = into(*want.jerk, r.jerk);
    }
    auto ch = [&](const std::optional<double> & a, const std::optional<double> & b) { if (known(a) && *a != *b) r.changed = true; };
    ch(want.position, r.out.position); ch(want.velocity, r.out.velocity); ch(want.effort, r.out.effort);
    ch(want.acceleration, r.out.acceleration); ch(want.jerk, r.out.jerk);
    auto up = [&](std::optional<double> & p, const std::optional<double> & o) { if (known(o)) p = o; };
    up(prev.position, r.out.position); up(prev.velocity, r.out.velocity); up(prev.effort, r.out.effort);
    up(prev.acceleration, r.out.acceleration); up(prev.jerk, r.out.jerk);
    return r;
  }
};
}  // namespace lm
