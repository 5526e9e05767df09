// C21: sensor and device adapters: every interface lands in its own field, whatever the order offered; missing values, ranges, release.
#include "common.hpp"
#include "controller_interface/helpers.hpp"
#include "semantic_components/force_torque_sensor.hpp"
#include "semantic_components/gps_sensor.hpp"
#include "semantic_components/imu_sensor.hpp"
#include "semantic_components/led_rgb_device.hpp"
#include "semantic_components/magnetic_field_sensor.hpp"
#include "semantic_components/pose_sensor.hpp"
#include "semantic_components/range_sensor.hpp"

using namespace vh;
namespace hw = hardware_interface;
namespace sc = semantic_components;

struct World
{
  std::vector<std::shared_ptr<hw::StateInterface>> own;
  std::vector<hw::LoanedStateInterface> loans;
  std::map<std::string, std::shared_ptr<hw::StateInterface>> by;
};
static std::pair<std::string, std::string> split(const std::string & full)
{
  auto p = full.find('/');
  return p == std::string::npos ? std::make_pair(std::string(), full) : std::make_pair(full.substr(0, p), full.substr(p + 1));
}
static std::string name(Rng & g) { return g.pick({"s", "sensor", "s1", "imu_10", "a", "tool0"}); }
// offers the named interfaces and some others, shuffled
static World offer(Rng & g, const std::vector<std::string> & wanted, const std::string & drop = "")
{
  World w;
  std::vector<std::string> all;
  for (auto & n : wanted) if (n != drop) all.push_back(n);
  const std::vector<std::string> noise = {"other/range", "sensor2/force.x", "s/other", "x/orientation.w", "s/force", "imu_1/orientation.x"};
  for (auto & n : noise) if (g.chance(.4) && std::find(wanted.begin(), wanted.end(), n) == wanted.end()) all.push_back(n);
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  g.shuffle(all);
  w.loans.reserve(all.size());
  for (auto & n : all)
  {
    auto [p, i] = split(n);
    auto s = std::make_shared<hw::StateInterface>(p, i, "double", "");
    w.own.push_back(s);
    w.by[s->get_name()] = s;
    w.loans.emplace_back(s);
  }
  return w;
}
static double val(Rng & g) { return g.chance(.06) ? std::nan("") : g.chance(.05) ? g.pick({HUGE_VAL, -HUGE_VAL, 0.0}) : g.uniform(-100, 100); }

// Holds the mutex of some interfaces from another thread while f runs.
template <class F> static void while_locked(const std::vector<std::shared_ptr<hw::StateInterface>> & v, F f)
{
  std::atomic<int> phase{0};
  std::thread t([&]
  {
    std::vector<std::unique_lock<std::shared_mutex>> l;
    for (auto & s : v) l.emplace_back(s->get_mutex());
    phase = 1;
    while (phase == 1) std::this_thread::yield();
  });
  while (phase == 0) std::this_thread::yield();
  f();
  phase = 2;
  t.join();
}

// fields: read through the adapter, in the order of `names`
template <class C> struct Probe
{
  std::vector<std::string> names;                                  // documented interface of each field
  std::vector<double> before;                                      // field values before anything could be read; NaN-able
  std::function<std::vector<std::vector<double>>(C &)> read;       // all ways to read the fields
  std::vector<bool> keeps;                                         // keeps the previous value, or falls back to `before`
  std::function<double(size_t, double)> conv = [](size_t, double v) { return v; };
  bool check_before = true;
};

template <class C> static void exercise(Rng & g, const char * what, C & c, Probe<C> p)
{
  // names asked for
  auto asked = c.get_state_interface_names();
  std::vector<std::string> real;
  for (auto & n : p.names) if (!n.empty()) real.push_back(n);
  VCHECK(asked == real, "names", what << " asks for '" << join(asked) << "' instead of '" << join(real) << "'");
  std::vector<double> last = p.before;
  const int rounds = static_cast<int>(g.range(1, 3));
  for (int round = 0; round < rounds; ++round)
  {
    if (real.size() > 0 && g.chance(.25))
    {
      auto w = offer(g, real, g.pick(real));
      VCHECK(!c.assign_loaned_state_interfaces(w.loans), "assign.missing", what << ": assignment succeeded with an interface missing");
      c.release_interfaces();
      rec().count("missing");
    }
    auto w = offer(g, real);
    // duplicates among the wanted names are offered once
    const bool ok = c.assign_loaned_state_interfaces(w.loans);
    VCHECK(ok, "assign", what << ": all interfaces offered but assignment failed");
    if (!ok) return;
    const int steps = static_cast<int>(g.range(1, 6));
    for (int s = 0; s < steps; ++s)
    {
      std::vector<std::shared_ptr<hw::StateInterface>> locked;
      std::set<std::string> locked_names;
      for (auto & [n, i] : w.by)
      {
        if (g.chance(.8)) (void)i->set_value(val(g));
        if (g.chance(.1) && s > 0) { locked.push_back(i); locked_names.insert(n); }
      }
      std::vector<double> want(p.names.size());
      for (size_t f = 0; f < p.names.size(); ++f)
      {
        if (p.names[f].empty()) { want[f] = p.before[f]; continue; }
        auto [pr, in] = split(p.names[f]);
        const std::string full = pr + "/" + in;
        if (locked_names.count(full)) want[f] = p.keeps[f] ? last[f] : p.before[f];
        else want[f] = p.conv(f, *w.by.at(full)->get_optional());
      }
      while_locked(locked, [&]
      {
        auto ways = p.read(c);
        for (size_t k = 0; k < ways.size(); ++k)
          for (size_t f = 0; f < want.size(); ++f)
            VCHECK(same_bits(ways[k][f], want[f]) || ways[k][f] == want[f], locked.empty() ? "value" : "value.unreadable", what << ": field " << f << " ('" << p.names[f] << "') read " << ways[k][f] << " by way " << k
              << " instead of " << want[f] << (locked.empty() ? "" : ", some interfaces not readable"));
        rec().count(locked.empty() ? "reads" : "reads_blocked");
      });
      last = want;
      // the raw vector
      std::vector<double> raw;
      raw.reserve(real.size());
      if (raw.capacity() == real.size() && !real.empty())
      {
        while_locked(locked, [&]
        {
          bool r = false, thrown = false;
          try { r = c.get_values(raw); } catch (const std::exception &) { thrown = true; }
          bool blocked = false;
          for (auto & n : real) { auto [pr, in] = split(n); blocked |= locked_names.count(pr + "/" + in) > 0; }
          VCHECK(!thrown && r == !blocked, "raw", what << ": get_values " << (thrown ? "threw" : r ? "succeeded" : "failed") << (blocked ? " with unreadable interfaces" : ""));
          if (r && !blocked)
          {
            bool same = raw.size() == real.size();
            for (size_t i = 0; same && i < raw.size(); ++i) { auto [pr, in] = split(real[i]); same = same_bits(raw[i], *w.by.at(pr + "/" + in)->get_optional()); }
            VCHECK(same, "raw.values", what << ": get_values returned other values or another order");
          }
        });
      }
      rec().distinct(std::string(what) + join(want));
    }
    c.release_interfaces();
    std::vector<double> none(0);
    bool r = true;
    std::vector<double> one; one.reserve(real.size());
    r = c.get_values(one);
    VCHECK(!(r && !one.empty()), "release", what << ": values still readable after release");
    rec().count("releases");
    if (!real.empty())
    {
      std::vector<double> empty;
      VCHECK(c.get_values(empty) && empty.empty(), "release.left", what << ": interfaces left after release");
    }
  }
}
template <class A> static std::vector<double> vec(const A & a) { return std::vector<double>(a.begin(), a.end()); }
template <class A, class B> static std::vector<double> cat(A a, const B & b) { auto r = vec(a); for (auto x : b) r.push_back(x); return r; }

static void sensors(Rng & g)
{
  const double nan = std::nan("");
  {
    const std::string n = name(g);
    sc::ForceTorqueSensor c(n);
    Probe<sc::ForceTorqueSensor> p;
    for (auto i : {"force.x", "force.y", "force.z", "torque.x", "torque.y", "torque.z"}) p.names.push_back(n + "/" + i);
    p.before.assign(6, nan); p.keeps.assign(6, true);
    p.read = [](auto & c) { geometry_msgs::msg::Wrench m; VCHECK(c.get_values_as_message(m), "message", "false");
      return std::vector<std::vector<double>>{{m.force.x, m.force.y, m.force.z, m.torque.x, m.torque.y, m.torque.z}, cat(c.get_forces(), c.get_torques())}; };
    exercise(g, "force torque sensor", c, p);
  }
  {
    std::vector<std::string> nm;
    const std::vector<std::string> base = {"fx/a", "a/fy", "s/force.z", "s/torque.x", "zz/torque.y", "m/c"};
    for (size_t i = 0; i < 6; ++i) nm.push_back(g.chance(.4) ? "" : base[i]);
    if (g.chance(.3)) g.shuffle(nm);
    sc::ForceTorqueSensor c(nm[0], nm[1], nm[2], nm[3], nm[4], nm[5]);
    bool any = false;
    for (auto & x : nm) any |= !x.empty();
    if (any)
    {
      Probe<sc::ForceTorqueSensor> p;
      p.names = nm; p.before.assign(6, nan); p.keeps.assign(6, true);
      p.read = [](auto & c) { geometry_msgs::msg::Wrench m; VCHECK(c.get_values_as_message(m), "message", "false");
        return std::vector<std::vector<double>>{{m.force.x, m.force.y, m.force.z, m.torque.x, m.torque.y, m.torque.z}, cat(c.get_forces(), c.get_torques())}; };
      exercise(g, "partial force torque sensor", c, p);
    }
  }
  {
    const std::string n = name(g);
    sc::IMUSensor c(n);
    Probe<sc::IMUSensor> p;
    for (auto i : {"orientation.x", "orientation.y", "orientation.z", "orientation.w", "angular_velocity.x", "angular_velocity.y", "angular_velocity.z", "linear_acceleration.x", "linear_acceleration.y", "linear_acceleration.z"})
      p.names.push_back(n + "/" + i);
    p.before = {0, 0, 0, 1, 0, 0, 0, 0, 0, 0}; p.keeps.assign(10, true);
    p.read = [](auto & c) { sensor_msgs::msg::Imu m; VCHECK(c.get_values_as_message(m), "message", "false");
      return std::vector<std::vector<double>>{{m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w, m.angular_velocity.x, m.angular_velocity.y, m.angular_velocity.z,
        m.linear_acceleration.x, m.linear_acceleration.y, m.linear_acceleration.z}, cat(cat(c.get_orientation(), c.get_angular_velocity()), c.get_linear_acceleration())}; };
    exercise(g, "imu", c, p);
  }
  {
    const std::string n = name(g);
    sc::PoseSensor c(n);
    Probe<sc::PoseSensor> p;
    for (auto i : {"position.x", "position.y", "position.z", "orientation.x", "orientation.y", "orientation.z", "orientation.w"}) p.names.push_back(n + "/" + i);
    p.before = {0, 0, 0, 0, 0, 0, 1}; p.keeps.assign(7, true);
    p.read = [](auto & c) { geometry_msgs::msg::Pose m; VCHECK(c.get_values_as_message(m), "message", "false");
      return std::vector<std::vector<double>>{{m.position.x, m.position.y, m.position.z, m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w}, cat(c.get_position(), c.get_orientation())}; };
    exercise(g, "pose sensor", c, p);
  }
  {
    const std::string n = name(g);
    sc::MagneticFieldSensor c(n);
    Probe<sc::MagneticFieldSensor> p;
    for (auto i : {"magnetic_field.x", "magnetic_field.y", "magnetic_field.z"}) p.names.push_back(n + "/" + i);
    p.before = {0, 0, 0}; p.keeps.assign(3, true);
    p.read = [](auto & c) { sensor_msgs::msg::MagneticField m; VCHECK(c.get_values_as_message(m), "message", "false");
      return std::vector<std::vector<double>>{{m.magnetic_field.x, m.magnetic_field.y, m.magnetic_field.z}}; };
    exercise(g, "magnetic field sensor", c, p);
  }
  {
    const std::string n = name(g);
    sc::RangeSensor c(n);
    Probe<sc::RangeSensor> p;
    p.names = {n + "/range"}; p.before = {nan}; p.keeps = {false};
    p.conv = [](size_t, double v) { return static_cast<double>(static_cast<float>(v)); };
    p.read = [](auto & c) { sensor_msgs::msg::Range m; VCHECK(c.get_values_as_message(m), "message", "false"); return std::vector<std::vector<double>>{{m.range}, {c.get_range()}}; };
    exercise(g, "range sensor", c, p);
  }
  auto gps = [&](auto & c, const std::string & n, bool cov)
  {
    using C = std::decay_t<decltype(c)>;
    Probe<C> p;
    for (auto i : {"status", "service", "latitude", "longitude", "altitude"}) p.names.push_back(n + "/" + i);
    p.before = {127, 65535, nan, nan, nan};
    p.keeps.assign(5, false);
    if (cov) for (auto i : {"latitude_covariance", "longitude_covariance", "altitude_covariance"}) { p.names.push_back(n + "/" + i); p.before.push_back(0); p.keeps.push_back(true); }
    p.conv = [](size_t f, double v)
    {
      if (f == 0) return v > -129 && v < 128 ? std::trunc(v) : 127.;
      if (f == 1) return v > -1 && v < 65536 ? std::trunc(v) : 65535.;
      return v;
    };
    p.read = [cov](C & c)
    {
      sensor_msgs::msg::NavSatFix m;
      VCHECK(c.get_values_as_message(m), "message", "false");
      std::vector<double> a{static_cast<double>(m.status.status), static_cast<double>(m.status.service), m.latitude, m.longitude, m.altitude};
      std::vector<double> b{static_cast<double>(c.get_status()), static_cast<double>(c.get_service()), c.get_latitude(), c.get_longitude(), c.get_altitude()};
      if (cov)
      {
        for (int i : {0, 4, 8}) a.push_back(m.position_covariance[static_cast<size_t>(i)]);
        if constexpr (std::is_same_v<C, sc::GPSSensor<sc::GPSSensorOption::WithCovariance>>)
        {
          auto v = c.get_covariance();
          for (int i : {0, 4, 8}) b.push_back(v[static_cast<size_t>(i)]);
          for (size_t i : {1, 2, 3, 5, 6, 7}) VCHECK(v[i] == 0 && m.position_covariance[i] == 0, "covariance", "off-diagonal " << v[i]);
        }
      }
      return std::vector<std::vector<double>>{a, b};
    };
    exercise(g, "gps", c, p);
  };
  { const std::string n = name(g); sc::GPSSensor<sc::GPSSensorOption::WithCovariance> c(n); gps(c, n, true); }
  { const std::string n = name(g); sc::GPSSensor<sc::GPSSensorOption::WithoutCovariance> c(n); gps(c, n, false); }
}

static void led(Rng & g)
{
  const std::string n = name(g);
  std::vector<std::string> ch = {"r", "g", "b"};
  g.shuffle(ch);
  sc::LedRgbDevice d(n, ch[0], ch[1], ch[2]);
  std::vector<std::string> want = {n + "/" + ch[0], n + "/" + ch[1], n + "/" + ch[2]};
  VCHECK(d.get_command_interface_names() == want, "led.names", join(d.get_command_interface_names()));
  for (int round = 0; round < 2; ++round)
  {
    std::vector<std::string> all = want;
    const bool drop = g.chance(.2);
    if (drop) all.erase(all.begin() + static_cast<long>(g.below(3)));
    if (g.chance(.4)) all.push_back("other/r");
    if (g.chance(.4)) all.push_back(n + "/a");
    g.shuffle(all);
    std::map<std::string, std::shared_ptr<hw::CommandInterface>> by;
    std::vector<hw::LoanedCommandInterface> loans;
    loans.reserve(all.size());
    for (auto & x : all)
    {
      auto [p, i] = split(x);
      by[x] = std::make_shared<hw::CommandInterface>(p, i, "double", "-7");
      loans.emplace_back(by[x]);
    }
    const bool ok = d.assign_loaned_command_interfaces(loans);
    VCHECK(ok == !drop, "led.assign", "assignment " << ok << " with interface " << (drop ? "missing" : "present"));
    if (!ok) { d.release_interfaces(); continue; }
    std::map<std::string, double> cur;
    for (auto & x : all) cur[x] = -7;
    for (int s = 0; s < 8; ++s)
    {
      auto lit = [&]() -> float { return g.chance(.12) ? g.pick({-0.01f, 1.01f, std::nanf(""), HUGE_VALF, -HUGE_VALF, 255.f}) : g.chance(.15) ? g.pick({0.f, 1.f}) : static_cast<float>(g.unit()); };
      std::shared_ptr<hw::CommandInterface> blocked;
      std_msgs::msg::ColorRGBA m;
      m.r = lit(); m.g = lit(); m.b = lit(); m.a = lit();
      const bool valid = m.r >= 0 && m.r <= 1 && m.g >= 0 && m.g <= 1 && m.b >= 0 && m.b <= 1;
      if (g.chance(.2))
      {
        std::vector<double> v(static_cast<size_t>(g.range(0, 5)));
        for (auto & x : v) x = g.uniform(-5, 5);
        const bool r = d.set_values(v);
        VCHECK(r == (v.size() == 3), "led.set_values", v.size() << " values: " << r);
        if (v.size() == 3) for (size_t i = 0; i < 3; ++i) cur[want[i]] = v[i];
      }
      else
      {
        const bool r = d.set_values_from_message(m);
        VCHECK(r == valid, "led.range", "color " << m.r << "," << m.g << "," << m.b << (r ? " accepted" : " refused"));
        if (valid) { cur[want[0]] = m.r; cur[want[1]] = m.g; cur[want[2]] = m.b; }
        rec().count(valid ? "colors" : "colors_refused");
      }
      for (auto & [x, i] : by) VCHECK(*i->get_optional() == cur[x], "led.value", x << " is " << *i->get_optional() << " instead of " << cur[x] << " after color " << m.r << "," << m.g << "," << m.b);
      rec().distinct("led" + std::to_string(m.r) + std::to_string(m.g));
    }
    d.release_interfaces();
    VCHECK(d.set_values({}) && !d.set_values({.1, .2, .3}), "led.release", "interfaces left after release");
    for (auto & [x, i] : by) VCHECK(*i->get_optional() == cur[x], "led.release.value", x << " changed by release");
  }
}
int main(int argc, char ** argv)
{
  return run_cases(argc, argv, [](Rng & g, uint64_t, const Args &) { for (int i = 0; i < 3; ++i) { sensors(g); led(g); } });
}
