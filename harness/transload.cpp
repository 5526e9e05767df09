// C09: transmission loaders, from parsed descriptions and from infos made directly; judged by how the loaded object maps values.
#include "common.hpp"
#include <pluginlib/class_loader.hpp>
#include "hardware_interface/component_parser.hpp"
#include "hardware_interface/hardware_info.hpp"
#include "transmission_interface/transmission.hpp"
#include "transmission_interface/transmission_loader.hpp"

using namespace vh;
namespace ti = transmission_interface;
namespace hi = hardware_interface;

static const char * kType[3] = {"transmission_interface/SimpleTransmission", "transmission_interface/DifferentialTransmission", "transmission_interface/FourBarLinkageTransmission"};

static void judge(Rng & g, int kind, const std::vector<double> & ar, const std::vector<double> & jr, const std::vector<double> & off, ti::Transmission & t, const std::string & d)
{
  const size_t n = kind ? 2 : 1;
  VCHECK(t.num_joints() == n && t.num_actuators() == n, "kind", "loaded a transmission with " << t.num_joints() << " joints; " << d);
  if (t.num_joints() != n) return;
  double J[3][2] = {}, A[3][2] = {};
  const char * q[3] = {"position", "velocity", "effort"};
  const std::string jn[2] = {"j1", "j2"}, an[2] = {"a1", "a2"};
  std::vector<ti::JointHandle> jh;
  std::vector<ti::ActuatorHandle> ah;
  for (int k = 0; k < 3; ++k)
    for (size_t i = 0; i < n; ++i) { jh.emplace_back(jn[i], q[k], &J[k][i]); ah.emplace_back(an[i], q[k], &A[k][i]); }
  t.configure(jh, ah);
  for (int k = 0; k < 3; ++k) for (size_t i = 0; i < n; ++i) A[k][i] = g.uniform(-5, 5);
  t.actuator_to_joint();
  using LD = long double;
  for (int k = 0; k < 3; ++k)
  {
    LD w[2] = {0, 0}, m = 0;
    if (kind == 0) w[0] = k == 2 ? A[k][0] * LD(jr[0]) : A[k][0] / LD(jr[0]) + (k == 0 ? off[0] : 0);
    else if (kind == 1)
    {
      if (k == 2) { w[0] = jr[0] * (LD(A[k][0]) * ar[0] + LD(A[k][1]) * ar[1]); w[1] = jr[1] * (LD(A[k][0]) * ar[0] - LD(A[k][1]) * ar[1]); }
      else { w[0] = (A[k][0] / LD(ar[0]) + A[k][1] / LD(ar[1])) / (2 * LD(jr[0])) + (k ? 0 : off[0]); w[1] = (A[k][0] / LD(ar[0]) - A[k][1] / LD(ar[1])) / (2 * LD(jr[1])) + (k ? 0 : off[1]); }
    }
    else
    {
      if (k == 2) { w[0] = LD(jr[0]) * A[k][0] * ar[0] + LD(A[k][1]) * ar[1]; w[1] = LD(jr[1]) * A[k][1] * ar[1]; }
      else { w[0] = A[k][0] / (LD(jr[0]) * ar[0]) + (k ? 0 : off[0]); w[1] = (A[k][1] / LD(ar[1]) - A[k][0] / (LD(jr[0]) * ar[0])) / jr[1] + (k ? 0 : off[1]); }
    }
    for (size_t i = 0; i < n; ++i)
    {
      m = fabsl(w[i]) + 1e4;
      VCHECK(fabsl(J[k][i] - w[i]) <= 1e-11L * m, "mapping", q[k] << "[" << i << "]=" << J[k][i] << " expected " << static_cast<double>(w[i]) << "; " << d);
    }
  }
  rec().count("loaded");
}

int main(int argc, char ** argv)
{
  std::cerr.setstate(std::ios::failbit);
  return run_cases(argc, argv, [&](Rng & g, uint64_t, const Args &)
  {
    pluginlib::ClassLoader<ti::TransmissionLoader> cl("transmission_interface", "transmission_interface::TransmissionLoader");
    for (int rep = 0; rep < 40; ++rep)
    {
      const int kind = g.below(3);
      const size_t n = kind ? 2 : 1;
      std::shared_ptr<ti::TransmissionLoader> loader;
      try { loader = cl.createSharedInstance(kType[kind]); }
      catch (const std::exception & e) { VCHECK(false, "loader", "no loader for " << kType[kind] << ": " << e.what()); continue; }
      size_t nj = n, na = n;
      if (g.chance(.15)) nj = g.below(n);
      else if (kind && g.chance(.15)) na = g.below(n);
      std::vector<double> ar(2, 1.0), jr(2, 1.0), off(2, 0.0);
      std::vector<bool> has_ar(2), has_jr(2), has_off(2);
      bool zero = false;
      auto rd = [&]() { double v; do v = g.uniform(-4, 4); while (std::fabs(v) < .05); char b[32]; std::snprintf(b, sizeof b, "%.6f", v); return strtod(b, nullptr); };
      for (size_t i = 0; i < n; ++i)
      {
        if (g.chance(.7)) { jr[i] = rd(); has_jr[i] = true; }
        if (kind && g.chance(.7)) { ar[i] = rd(); has_ar[i] = true; }
        if (g.chance(.6)) { off[i] = rd(); has_off[i] = true; }
      }
      if (g.chance(.15))
      {
        zero = true;
        if (kind && g.chance(.5)) { size_t i = g.below(2); ar[i] = 0; has_ar[i] = true; if (i >= na) zero = false; }
        else { size_t i = g.below(n); jr[i] = 0; has_jr[i] = true; if (i >= nj) zero = false; }
      }
      const bool refuse = nj < n || na < n || zero;
      std::ostringstream d;
      d.precision(17);
      d << kType[kind] << " joints " << nj << " actuators " << na << " ar " << join(ar) << " jr " << join(jr) << " off " << join(off);
      hi::TransmissionInfo info;
      if (g.chance(.6))
      {
        // through a description
        std::ostringstream x;
        x.precision(17);
        x << "<robot name='r'><link name='b'/>";
        for (int i = 1; i <= 2; ++i) x << "<link name='l" << i << "'/><joint name='j" << i << "' type='continuous'><parent link='b'/><child link='l" << i << "'/></joint>";
        x << "<ros2_control name='h' type='system'><hardware><plugin>p</plugin></hardware>";
        for (int i = 1; i <= 2; ++i) x << "<joint name='j" << i << "'><command_interface name='position'/><state_interface name='position'/></joint>";
        x << "<transmission name='t'><plugin>" << kType[kind] << "</plugin>";
        std::vector<std::string> js, as;
        for (size_t i = 0; i < nj; ++i)
        {
          std::ostringstream o;
          o.precision(17);
          o << "<joint name='j" << i + 1 << "' role='joint" << i + 1 << "'>";
          std::string r = has_jr[i] ? "<mechanical_reduction>" + num(jr[i]) + "</mechanical_reduction>" : "", of = has_off[i] ? "<offset>" + num(off[i]) + "</offset>" : "";
          o << (g.chance(.5) ? r + of : of + r) << "</joint>";
          js.push_back(o.str());
        }
        for (size_t i = 0; i < na; ++i)
          as.push_back("<actuator name='a" + std::to_string(i + 1) + "' role='actuator" + std::to_string(i + 1) + "'>" + (has_ar[i] ? "<mechanical_reduction>" + num(ar[i]) + "</mechanical_reduction>" : "") + "</actuator>");
        if (g.chance(.5)) for (auto & s : js) x << s;
        else js.insert(js.begin(), ""), js.erase(js.begin());
        const bool first = x.str().find("role='joint") != std::string::npos;
        for (auto & s : as) x << s;
        if (!first) for (auto & s : js) x << s;
        x << "</transmission></ros2_control></robot>";
        try
        {
          auto hw = hi::parse_control_resources_from_urdf(x.str());
          info = hw.at(0).transmissions.at(0);
          VCHECK(info.type == kType[kind], "parse.type", info.type);
        }
        catch (const std::exception & e) { VCHECK(false, "parse", e.what() << "\n" << x.str()); continue; }
        rec().count("from_description");
      }
      else
      {
        info.name = "t";
        info.type = kType[kind];
        for (size_t i = 0; i < nj; ++i) { hi::JointInfo j; j.name = "j" + std::to_string(i + 1); j.role = "joint" + std::to_string(i + 1); if (has_jr[i]) j.mechanical_reduction = jr[i]; if (has_off[i]) j.offset = off[i]; info.joints.push_back(j); }
        for (size_t i = 0; i < na; ++i) { hi::ActuatorInfo a; a.name = "a" + std::to_string(i + 1); a.role = "actuator" + std::to_string(i + 1); if (has_ar[i]) a.mechanical_reduction = ar[i]; info.actuators.push_back(a); }
      }
      std::shared_ptr<ti::Transmission> t;
      try { t = loader->load(info); }
      catch (...) { VCHECK(false, "exception", "load let an exception escape; " << d.str()); continue; }
      rec().distinct(d.str());
      rec().sample(d.str() + (refuse ? " -> refused" : " -> loaded"));
      if (refuse) { VCHECK(!t, "accepted", "loaded although invalid: " << d.str()); rec().count("refused"); continue; }
      VCHECK(!!t, "refused", "not loaded: " << d.str());
      if (t) judge(g, kind, ar, jr, off, *t, d.str());
      // the same loader again, and another one in between
      auto t2 = loader->load(info);
      VCHECK(t2 && t2 != t, "again", "loading the same description again");
      if (t2) judge(g, kind, ar, jr, off, *t2, d.str());
    }
  });
}
