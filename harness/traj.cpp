// C07: trajectory point limiter.
#include "common.hpp"
#include "joint_limits/joint_saturation_limiter.hpp"
#include "rclcpp/node.hpp"
using namespace vh;
using joint_limits::JointLimits;
using Point = trajectory_msgs::msg::JointTrajectoryPoint;
using Lim = joint_limits::JointSaturationLimiter<Point>;
constexpr double EPS = 1e-10;
static std::string str(const Point & p)
{
  std::ostringstream o; o.precision(17);
  o << "pos[" << join(p.positions) << "] vel[" << join(p.velocities) << "] acc[" << join(p.accelerations) << "]";
  return o.str();
}
static std::string str(const std::vector<JointLimits> & ls)
{
  std::ostringstream o; o.precision(17);
  for (auto & l : ls)
    o << "{pos " << l.has_position_limits << " [" << l.min_position << "," << l.max_position << "] vel " << l.has_velocity_limits << " " << l.max_velocity
      << " acc " << l.has_acceleration_limits << " " << l.max_acceleration << " dec " << l.has_deceleration_limits << " " << l.max_deceleration << "}";
  return o.str();
}
static bool close(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-7 * std::max({1.0, std::fabs(a), std::fabs(b)}); }

struct Out { bool accepted = true, limited = false, edge = false, braked = false; Point p; };
// Per joint: clamp position, derive missing velocity, clamp velocity, clamp acceleration or deceleration, then check that
// every joint can still stop before its position limit; if one cannot, all joints brake.
static Out model(const std::vector<JointLimits> & L, const Point & cur, const Point & want, double dt)
{
  Out r; r.p = want;
  size_t n = L.size();
  bool hp = want.positions.size() == n, hv = want.velocities.size() == n, ha = want.accelerations.size() == n;
  if (!(dt > 0) || cur.positions.size() != n || !(hp || hv)) { r.accepted = false; return r; }
  bool brake = false;
  std::vector<double> P(n), V(n), A(n), CV(n);
  auto near = [&](double a, double b) { if (a != b && std::fabs(a - b) < 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)})) r.edge = true; };
  auto nearly = [&](double a, double b) { if (std::fabs(a - b) < 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)})) r.edge = true; };
  for (size_t i = 0; i < n; ++i)
  {
    const auto & l = L[i];
    double c = cur.positions[i];
    double cv = cur.velocities.size() == n ? cur.velocities[i] : 0.0;
    CV[i] = cv;
    double p = hp ? want.positions[i] : 0, v = hv ? want.velocities[i] : 0, a = ha ? want.accelerations[i] : 0;
    if (hp)
    {
      if (l.has_position_limits)
      {
        double q = std::min(std::max(p, l.min_position), l.max_position);
        if (q != p) { p = q; r.limited = true; }
      }
      if (std::fabs(p - c) > EPS && std::fabs(v) <= EPS) v = (p - c) / dt;
      near(std::fabs(p - c), EPS);
    }
    if (l.has_velocity_limits)
    {
      if (hp && (std::fabs(v) <= EPS || std::isnan(v))) v = (p - c) / dt;
      near(std::fabs(v), l.max_velocity);
      if (std::fabs(v) > l.max_velocity)
      {
        v = std::copysign(l.max_velocity, v);
        r.limited = true;
        if (hp) p = c + v * dt;
        a = (v - cv) / dt;
      }
    }
    if (l.has_acceleration_limits || l.has_deceleration_limits)
    {
      if (std::fabs(a) <= EPS || std::isnan(a)) a = (v - cv) / dt;
      bool slowing = (a < 0 && cv > 0) || (a > 0 && cv < 0);
      double m = std::numeric_limits<double>::infinity();
      if (slowing && l.has_deceleration_limits) m = l.max_deceleration;
      else if (l.has_acceleration_limits) m = l.max_acceleration;
      near(std::fabs(a), m);
      if (std::fabs(a) > m)
      {
        a = std::copysign(m, a);
        r.limited = true;
        v = cv + a * dt;
        if (hp) p = c + cv * dt + 0.5 * a * dt * dt;
      }
    }
    if (l.has_position_limits)
    {
      if (hv && !hp)
      {
        double e = c + v * dt;
        double q = std::min(std::max(e, l.min_position), l.max_position);
        nearly(e, l.min_position); nearly(e, l.max_position);
        if (q != e) { v = (q - c) / dt; r.limited = true; }
      }
      double dec = l.has_deceleration_limits ? l.max_deceleration : l.has_acceleration_limits ? l.max_acceleration : std::fabs(v / dt);
      double room = v < 0 ? c - l.min_position : l.max_position - c;
      // distance covered while stopping at the deceleration, or while keeping the speed for as long as stopping takes
      double need = std::max(v * v / (2 * dec), v * v / dec);
      if (v != 0) { nearly(room, need); nearly(room, v * v / (2 * dec)); }
      if (v != 0 && room < need) { brake = true; r.limited = true; }
    }
    P[i] = p; V[i] = v; A[i] = a;
  }
  if (brake)
  {
    r.braked = true;
    for (size_t i = 0; i < n; ++i)
    {
      const auto & l = L[i];
      double m = l.has_deceleration_limits ? l.max_deceleration : l.has_acceleration_limits ? l.max_acceleration : std::numeric_limits<double>::infinity();
      A[i] = -CV[i] / dt;
      if (std::fabs(A[i]) > m) A[i] = std::copysign(m, A[i]);
      if (hv) V[i] = CV[i] + A[i] * dt;
      if (hp) P[i] = cur.positions[i] + CV[i] * dt + 0.5 * A[i] * dt * dt;
    }
  }
  if (hp) r.p.positions = P;
  if (hv) r.p.velocities = V;
  if (ha) r.p.accelerations = A;
  return r;
}

static void body(Rng & r, uint64_t, const Args &)
{
  for (int scen = 0; scen < 20; ++scen)
  {
    size_t n = r.pick({1, 1, 2, 3, 6, 7});
    std::vector<JointLimits> L(n);
    std::vector<std::string> names;
    for (size_t i = 0; i < n; ++i)
    {
      names.push_back("j" + std::to_string(i));
      auto & l = L[i];
      l.has_position_limits = r.chance(0.75);
      double a = r.uniform(-3, 1);
      if (l.has_position_limits || r.chance(0.2)) { l.min_position = a; l.max_position = a + r.uniform(0.2, 5); }
      l.has_velocity_limits = r.chance(0.7); if (l.has_velocity_limits || r.chance(0.2)) l.max_velocity = r.uniform(0.1, 3);
      l.has_acceleration_limits = r.chance(0.6); if (l.has_acceleration_limits || r.chance(0.2)) l.max_acceleration = r.uniform(0.5, 20);
      l.has_deceleration_limits = r.chance(0.5); if (l.has_deceleration_limits || r.chance(0.2)) l.max_deceleration = r.uniform(0.5, 20);
    }
    // limits arrive either directly or as parameters
    Lim lim;
    bool ok;
    static int cnt = 0;
    std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("n" + std::to_string(cnt++));
    if (r.chance(0.7)) ok = lim.init(names, L, {}, nullptr, node->get_node_logging_interface());
    else
    {
      for (size_t i = 0; i < n; ++i)
      {
        std::string b = "joint_limits." + names[i] + ".";
        auto & l = L[i];
        node->declare_parameter(b + "has_position_limits", l.has_position_limits);
        node->declare_parameter(b + "min_position", l.min_position);
        node->declare_parameter(b + "max_position", l.max_position);
        node->declare_parameter(b + "has_velocity_limits", l.has_velocity_limits);
        node->declare_parameter(b + "max_velocity", l.max_velocity);
        node->declare_parameter(b + "has_acceleration_limits", l.has_acceleration_limits);
        node->declare_parameter(b + "max_acceleration", l.max_acceleration);
        node->declare_parameter(b + "has_deceleration_limits", l.has_deceleration_limits);
        node->declare_parameter(b + "max_deceleration", l.max_deceleration);
      }
      ok = lim.init(names, node);
      rec().count("limits_from_parameters");
    }
    VCHECK(ok, "traj.init", "init failed");
    double dt = r.pick({0.005, 0.01, 0.02, 0.1, 0.5, 1.0});
    bool closed = r.chance(0.6);
    Point cur;
    for (size_t i = 0; i < n; ++i) { cur.positions.push_back(L[i].has_position_limits ? r.uniform(L[i].min_position, L[i].max_position) : r.uniform(-2, 2)); cur.velocities.push_back(r.chance(0.5) ? 0.0 : r.uniform(-1.5, 1.5)); }
    lim.configure(cur);
    double dir = r.pick({1.0, -1.0});
    int mode = r.below(4);
    for (int k = 0; k < 25; ++k)
    {
      Point c = cur, w;
      if (!closed)
        for (size_t i = 0; i < n; ++i)
        {
          c.positions[i] = L[i].has_position_limits ? r.uniform(L[i].min_position, L[i].max_position) : r.uniform(-2, 2);
          if (L[i].has_position_limits && r.chance(0.1)) c.positions[i] = r.pick({L[i].min_position, L[i].max_position});
          if (L[i].has_position_limits && r.chance(0.05)) c.positions[i] = L[i].max_position + r.uniform(0, 0.5);
          c.velocities[i] = r.chance(0.3) ? 0.0 : r.uniform(-2, 2);
        }
      bool no_vel_state = r.chance(0.1);
      if (no_vel_state) { if (r.chance(0.5)) c.velocities.clear(); else c.velocities.resize(n + 1); }
      int md = closed ? mode : r.below(5);
      bool hp = md == 0 || md == 1 || md == 3, hv = md == 0 || md == 2 || md == 3, ha = md == 3 || (md == 4);
      if (md == 4) hp = true;
      for (size_t i = 0; i < n; ++i)
      {
        double v = r.chance(0.2) ? 0.0 : closed && r.chance(0.6) ? dir * 5 : r.uniform(-3, 3) * r.pick({1.0, 0.1, 0.01});
        if (L[i].has_velocity_limits && r.chance(0.15)) v = L[i].max_velocity * r.pick({1.0, -1.0});
        if (hv) w.velocities.push_back(v);
        if (hp) w.positions.push_back(r.chance(0.1) ? c.positions[i] : r.chance(0.6) ? c.positions[i] + v * dt * r.uniform(0.5, 1.5) : r.uniform(-6, 6));
        if (ha) w.accelerations.push_back(r.chance(0.3) ? 0.0 : r.uniform(-30, 30) * r.pick({1.0, 0.1}));
      }
      double d = dt;
      if (r.chance(0.03)) d = r.pick({0.0, -0.5});
      if (r.chance(0.06))
        switch (r.below(4))
        {
          case 0: w.positions.clear(); w.velocities.clear(); break;
          case 1: c.positions.resize(n - 1); break;
          case 2: w.velocities.resize(n + 2); w.positions.clear(); break;
          default: w.positions.resize(n + 1); break;
        }
      if (r.chance(0.02)) lim.reset_internals();
      rclcpp::Duration du = rclcpp::Duration::from_seconds(d);
      Out e = model(L, c, w, du.seconds());
      Point got = w;
      bool ret = lim.enforce(c, got, du);
      auto ctx = [&] { return str(L) + " dt " + num(d) + " current " + str(c) + " desired " + str(w) + " limited " + str(got) + " expected " + str(e.p); };
      rec().count(!e.accepted ? "refused" : e.braked ? "braked" : e.limited ? "limited" : "passed");
      VCHECK(got.positions.size() == w.positions.size() && got.velocities.size() == w.velocities.size() && got.accelerations.size() == w.accelerations.size() && got.effort == w.effort, "traj.sizes", ctx());
      if (!e.accepted)
      {
        VCHECK(!ret && got.positions == w.positions && got.velocities == w.velocities && got.accelerations == w.accelerations, "traj.refused_but_changed", ctx());
        continue;
      }
      if (e.edge) { rec().count("rounding_edges"); continue; }
      VCHECK(ret == e.limited, "traj.report", "reported " << ret << " expected " << e.limited << " " << ctx());
      auto cmp = [&](const char * nme, const std::vector<double> & g, const std::vector<double> & x)
      {
        for (size_t i = 0; i < std::min(g.size(), x.size()); ++i)
          VCHECK(close(g[i], x[i]), std::string("traj.value.") + nme, nme << " " << i << ": " << g[i] << " instead of " << x[i] << " " << ctx());
      };
      cmp("position", got.positions, e.p.positions);
      cmp("velocity", got.velocities, e.p.velocities);
      cmp("acceleration", got.accelerations, e.p.accelerations);
      // stand-alone safety statements
      for (size_t i = 0; i < n; ++i)
      {
        double cv = c.velocities.size() == n ? c.velocities[i] : 0.0;
        auto fin = [&](const std::vector<double> & x) { return i >= x.size() || std::isfinite(x[i]); };
        VCHECK(fin(got.positions) && fin(got.velocities) && fin(got.accelerations), "traj.not_finite", ctx());
        bool has_acc = L[i].has_acceleration_limits || L[i].has_deceleration_limits;
        if (got.velocities.size() == n && L[i].has_velocity_limits && !has_acc && !e.braked)
          VCHECK(std::fabs(got.velocities[i]) <= std::max(L[i].max_velocity, 0.0) * (1 + 1e-9) + 1e-9 || (L[i].has_position_limits && (c.positions[i] > L[i].max_position || c.positions[i] < L[i].min_position)), "traj.safety.velocity", ctx());
        if (got.accelerations.size() == n && L[i].has_acceleration_limits)
          VCHECK(std::fabs(got.accelerations[i]) <= std::max(L[i].max_acceleration, L[i].has_deceleration_limits ? L[i].max_deceleration : 0.0) * (1 + 1e-9), "traj.safety.acceleration", ctx());
        if (e.braked && got.velocities.size() == n)
          VCHECK(std::fabs(got.velocities[i]) <= std::fabs(cv) * (1 + 1e-9) + 1e-9, "traj.safety.braking", ctx());
        if (!e.limited && w.positions.size() == n)
          VCHECK(same_bits(got.positions[i], w.positions[i]), "traj.not_bit_for_bit", ctx());
        if (!e.limited && w.velocities.size() == n && std::fabs(w.velocities[i]) > EPS)
          VCHECK(same_bits(got.velocities[i], w.velocities[i]), "traj.not_bit_for_bit", ctx());
      }
      if (e.limited) rec().distinct(str(got) + str(c));
      if (scen == 0) rec().sample(ctx());
      if (closed && d > 0)
        for (size_t i = 0; i < n; ++i)
        {
          double np = got.positions.size() == n ? got.positions[i] : c.positions[i] + got.velocities[i] * d;
          double nv = got.velocities.size() == n ? got.velocities[i] : (np - c.positions[i]) / d;
          cur.positions[i] = np; cur.velocities[i] = nv;
        }
      if (r.chance(0.05)) dir = -dir;
    }
  }
}
int main(int argc, char ** argv) { rclcpp::init(0, nullptr); return run_cases(argc, argv, body); }
