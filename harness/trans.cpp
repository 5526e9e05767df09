// C08: the three transmissions against their documented linear laws (long double), round trips, power, connections.
#include "common.hpp"
#include "transmission_interface/transmission.hpp"
#include "transmission_interface/exception.hpp"
std::unique_ptr<transmission_interface::Transmission> make_simple(double reduction, double offset);
std::unique_ptr<transmission_interface::Transmission> make_differential(
  const std::vector<double> & a, const std::vector<double> & j, const std::vector<double> & o);
std::unique_ptr<transmission_interface::Transmission> make_four_bar(
  const std::vector<double> & a, const std::vector<double> & j, const std::vector<double> & o);

using namespace vh;
namespace ti = transmission_interface;
using LD = long double;
static const std::vector<std::string> kAll = {"position", "velocity", "effort", "torque", "force", "absolute_position"};
static const std::vector<std::string> kFour = {"position", "velocity", "effort"};

struct Spec
{
  int kind;  // 0 simple 1 differential 2 four bar
  std::vector<double> ar, jr, off;
  size_t n() const { return kind == 0 ? 1 : 2; }
  static bool pos(const std::string & q) { return q == "position" || q == "absolute_position"; }
  static bool vel(const std::string & q) { return q == "velocity"; }
  // mag: size of the summands, for the rounding tolerance
  std::vector<LD> a2j(const std::string & q, const std::vector<LD> & a, std::vector<LD> & mag) const
  {
    std::vector<LD> r(n());
    mag.assign(n(), 0);
    const bool p = pos(q);
    if (kind == 0)
    {
      const LD red = jr[0];
      if (p || vel(q)) r[0] = a[0] / red + (p ? off[0] : 0), mag[0] = fabsl(a[0] / red) + (p ? fabsl(off[0]) : 0);
      else r[0] = a[0] * red, mag[0] = fabsl(r[0]);
      return r;
    }
    LD A0 = ar[0], A1 = ar[1], J0 = jr[0], J1 = jr[1];
    if (kind == 1)
    {
      if (p || vel(q))
      {
        r[0] = (a[0] / A0 + a[1] / A1) / (2 * J0) + (p ? off[0] : 0);
        r[1] = (a[0] / A0 - a[1] / A1) / (2 * J1) + (p ? off[1] : 0);
        mag[0] = (fabsl(a[0] / A0) + fabsl(a[1] / A1)) / fabsl(2 * J0) + (p ? fabsl(off[0]) : 0);
        mag[1] = (fabsl(a[0] / A0) + fabsl(a[1] / A1)) / fabsl(2 * J1) + (p ? fabsl(off[1]) : 0);
      }
      else
      {
        r[0] = J0 * (a[0] * A0 + a[1] * A1);
        r[1] = J1 * (a[0] * A0 - a[1] * A1);
        mag[0] = fabsl(J0) * (fabsl(a[0] * A0) + fabsl(a[1] * A1));
        mag[1] = fabsl(J1) * (fabsl(a[0] * A0) + fabsl(a[1] * A1));
      }
      return r;
    }
    if (p || vel(q))
    {
      r[0] = a[0] / (J0 * A0) + (p ? off[0] : 0);
      r[1] = (a[1] / A1 - a[0] / (J0 * A0)) / J1 + (p ? off[1] : 0);
      mag[0] = fabsl(a[0] / (J0 * A0)) + (p ? fabsl(off[0]) : 0);
      mag[1] = (fabsl(a[1] / A1) + fabsl(a[0] / (J0 * A0))) / fabsl(J1) + (p ? fabsl(off[1]) : 0);
    }
    else
    {
      r[0] = J0 * a[0] * A0 + a[1] * A1;
      r[1] = J1 * a[1] * A1;
      mag[0] = fabsl(J0 * a[0] * A0) + fabsl(a[1] * A1);
      mag[1] = fabsl(r[1]);
    }
    return r;
  }
  std::vector<LD> j2a(const std::string & q, const std::vector<LD> & jin, std::vector<LD> & mag) const
  {
    std::vector<LD> r(n()), j(n()), jm(n());
    mag.assign(n(), 0);
    for (size_t i = 0; i < n(); ++i)
    {
      j[i] = jin[i] - (pos(q) ? static_cast<LD>(off[i]) : 0);
      jm[i] = fabsl(jin[i]) + (pos(q) ? fabsl(off[i]) : 0);
    }
    const bool pv = pos(q) || vel(q);
    if (kind == 0)
    {
      r[0] = pv ? j[0] * jr[0] : j[0] / jr[0];
      mag[0] = pv ? jm[0] * fabsl(jr[0]) : jm[0] / fabsl(jr[0]);
      return r;
    }
    LD A0 = ar[0], A1 = ar[1], J0 = jr[0], J1 = jr[1];
    if (kind == 1)
    {
      if (pv)
      {
        r[0] = (j[0] * J0 + j[1] * J1) * A0;
        r[1] = (j[0] * J0 - j[1] * J1) * A1;
        for (int k = 0; k < 2; ++k) mag[k] = (jm[0] * fabsl(J0) + jm[1] * fabsl(J1)) * fabsl(k ? A1 : A0);
      }
      else
      {
        r[0] = (j[0] / J0 + j[1] / J1) / (2 * A0);
        r[1] = (j[0] / J0 - j[1] / J1) / (2 * A1);
        for (int k = 0; k < 2; ++k) mag[k] = (jm[0] / fabsl(J0) + jm[1] / fabsl(J1)) / fabsl(2 * (k ? A1 : A0));
      }
      return r;
    }
    if (pv)
    {
      r[0] = j[0] * J0 * A0;
      r[1] = (j[0] + j[1] * J1) * A1;
      mag[0] = jm[0] * fabsl(J0 * A0);
      mag[1] = (jm[0] + jm[1] * fabsl(J1)) * fabsl(A1);
    }
    else
    {
      r[0] = (j[0] - j[1] / J1) / (J0 * A0);
      r[1] = j[1] / (A1 * J1);
      mag[0] = (jm[0] + jm[1] / fabsl(J1)) / fabsl(J0 * A0);
      mag[1] = fabsl(r[1]);
    }
    return r;
  }
};
static double red(Rng & g)
{
  double v = g.pick({1.0, 2.0, 0.5, 10.0, -1.0, -3.0, 100.0, 0.01});
  if (g.chance(.6)) v = std::exp(g.uniform(-6, 6)) * (g.chance(.4) ? -1 : 1);
  return v;
}
static double val(Rng & g) { return g.chance(.1) ? 0.0 : g.chance(.1) ? g.pick({1.0, -1.0, 1e6, -1e-6}) : std::exp(g.uniform(-5, 8)) * (g.chance(.5) ? -1 : 1); }
static bool near(double got, LD want, LD mag) { return std::isfinite(got) && fabsl(got - want) <= 1e-12L * mag + 1e-300L; }

static std::unique_ptr<ti::Transmission> make(const Spec & s)
{
  if (s.kind == 0) return make_simple(s.jr[0], s.off[0]);
  if (s.kind == 1) return make_differential(s.ar, s.jr, s.off);
  return make_four_bar(s.ar, s.jr, s.off);
}

int main(int argc, char ** argv)
{
  return run_cases(argc, argv, [&](Rng & g, uint64_t, const Args &)
  {
    for (int rep = 0; rep < 30; ++rep)
    {
      Spec s;
      s.kind = g.below(3);
      const size_t n = s.n();
      for (int i = 0; i < 2; ++i) { s.ar.push_back(red(g)); s.jr.push_back(red(g)); s.off.push_back(g.chance(.4) ? 0.0 : val(g) / 100); }
      if (s.kind == 0) s.ar = {1.0, 1.0};
      // refused constructions
      {
        Spec b = s;
        std::string what;
        const int m = g.below(4);
        if (m == 0) { b.jr[g.below(n)] = g.chance(.5) ? 0.0 : -0.0; what = "zero joint reduction"; }
        else if (b.kind && m == 1) { b.ar[g.below(2)] = g.chance(.5) ? 0.0 : -0.0; what = "zero actuator reduction"; }
        else if (b.kind && m == 2) { auto & v = *g.pick({&b.ar, &b.jr, &b.off}); v.resize(g.pick({0u, 1u, 3u}), 1.0); what = "wrong number of values"; }
        if (!what.empty())
        {
          bool thrown = false, right = false;
          try { make(b); }
          catch (const ti::Exception &) { thrown = right = true; }
          catch (...) { thrown = true; }
          VCHECK(thrown && right, "construct.accepted", "kind " << b.kind << " accepted " << what << " (other exception: " << thrown << ")");
          rec().count("construct_refused");
        }
      }
      std::unique_ptr<ti::Transmission> t;
      try { t = make(s); }
      catch (const std::exception & e) { VCHECK(false, "construct.refused", "valid reductions refused: " << e.what()); continue; }
      VCHECK(t->num_joints() == n && t->num_actuators() == n, "numbers", t->num_joints());
      const auto & known = s.kind == 2 ? kFour : kAll;
      // connections: q connected on the joint side / actuator side of every axis
      std::map<std::string, std::array<bool, 2>> jc, ac;
      std::set<std::string> paired;
      bool broken = false, any_j = false, any_a = false;
      const double dens = g.pick({.3, .6, 1.0});
      for (auto & q : kAll)
      {
        if (!g.chance(dens)) continue;
        std::array<bool, 2> j{g.chance(.85), false}, a{g.chance(.85), false};
        if (n == 2) { j[1] = j[0]; a[1] = a[0]; }
        if (n == 2 && g.chance(.04)) j[g.below(2)] ^= 1;
        if (n == 2 && g.chance(.04)) a[g.below(2)] ^= 1;
        jc[q] = j;
        ac[q] = a;
      }
      for (auto & q : known)
      {
        const bool inJ = jc.count(q), j0 = inJ && jc[q][0], j1 = inJ && jc[q][n - 1], a0 = inJ && ac[q][0], a1 = inJ && ac[q][n - 1];
        if (j0 && j1 && a0 && a1) paired.insert(q);
        if (n == 2 && (j0 != j1 || a0 != a1)) broken = true;
        any_j |= j0; any_a |= a0;
      }
      std::map<std::string, std::array<double, 2>> J, A;
      const double SJ = -777.25, SA = 888.5;
      std::vector<ti::JointHandle> jh;
      std::vector<ti::ActuatorHandle> ah;
      const std::vector<std::string> jn = {"j1", "j2"}, an = {"act1", "act2"};
      for (auto & q : kAll) { J[q] = {SJ, SJ}; A[q] = {SA, SA}; }
      for (auto & q : kAll)
        for (size_t i = 0; i < n; ++i)
        {
          if (jc.count(q) && jc[q][i]) jh.emplace_back(jn[i], q, &J[q][i]);
          else if (g.chance(.1)) jh.emplace_back(jn[i], q, nullptr);
          if (ac.count(q) && ac[q][i]) ah.emplace_back(an[i], q, &A[q][i]);
          else if (g.chance(.1)) ah.emplace_back(an[i], q, nullptr);
        }
      std::array<double, 2> fj{1.25, 1.5}, fa{2.25, 2.5};
      if (g.chance(.3)) { jh.emplace_back(jn[g.below(n)], "foo", &fj[0]); ah.emplace_back(an[g.below(n)], "foo", &fa[0]); }
      g.shuffle(jh);
      g.shuffle(ah);
      auto names = [](auto & v) { std::set<std::string> r; for (auto & x : v) r.insert(x.get_prefix_name()); return r; };
      bool extra = false;
      if (g.chance(.04) && !jh.empty()) { jh.emplace_back("j3", "position", &fj[1]); extra = true; }
      if (g.chance(.04) && !ah.empty()) { ah.emplace_back("act3", "position", &fa[1]); extra = true; }
      const size_t njn = names(jh).size(), nan_ = names(ah).size();
      if (extra && njn == n && nan_ == n) continue;  // the extra axis stands in for one without any handle: other names, not modelled
      bool must_refuse = jh.empty() || ah.empty() || njn != n || nan_ != n;
      bool may_refuse = false;
      if (!must_refuse)
      {
        if (n == 1) must_refuse = !any_j || !any_a;
        else
        {
          must_refuse = paired.empty() || (s.kind == 1 && broken);
          may_refuse = broken;
        }
      }
      bool ok = true;
      try { t->configure(jh, ah); }
      catch (const ti::Exception & e) { ok = false; }
      catch (const std::exception & e) { ok = false; VCHECK(false, "configure.exception", "undocumented exception " << e.what()); }
      std::ostringstream d;
      d << "kind " << s.kind << " ar " << join(s.ar) << " jr " << join(s.jr) << " off " << join(s.off) << " paired";
      for (auto & q : paired) d << " " << q;
      if (must_refuse) { VCHECK(!ok, "configure.accepted", "unusable connections accepted: " << d.str() << " joints " << njn << " actuators " << nan_); rec().count("configure_refused"); continue; }
      if (!may_refuse) VCHECK(ok, "configure.refused", "usable connections refused: " << d.str());
      if (!ok) continue;
      rec().distinct(d.str());
      rec().sample(d.str());
      for (int step = 0; step < 6; ++step)
      {
        auto chk_other = [&](const char * dir)
        {
          VCHECK(fj[0] == 1.25 && fj[1] == 1.5 && fa[0] == 2.25 && fa[1] == 2.5, "other.written", dir << ": an interface that is not its own was written; " << d.str());
        };
        // actuator -> joint
        for (auto & q : kAll) for (size_t i = 0; i < 2; ++i) { J[q][i] = SJ; A[q][i] = val(g); }
        auto A0 = A;
        t->actuator_to_joint();
        VCHECK(A == A0, "a2j.source", "actuator values changed by actuator_to_joint; " << d.str());
        chk_other("a2j");
        for (auto & q : kAll)
        {
          if (!paired.count(q)) { VCHECK(J[q][0] == SJ && J[q][1] == SJ, "a2j.unconnected", q << " written although not connected on both sides; " << d.str()); continue; }
          std::vector<LD> mag, in;
          for (size_t i = 0; i < n; ++i) in.push_back(A[q][i]);
          auto w = s.a2j(q, in, mag);
          for (size_t i = 0; i < n; ++i)
            VCHECK(near(J[q][i], w[i], mag[i]), "a2j.value", q << "[" << i << "] = " << J[q][i] << " expected " << static_cast<double>(w[i]) << " from " << A[q][0] << "," << A[q][1] << "; " << d.str());
          rec().count("mapped");
        }
        if (paired.count("velocity"))
          for (auto eff : {"effort", "torque", "force"})
            if (paired.count(eff))
            {
              LD pj = 0, pa = 0, m = 0;
              for (size_t i = 0; i < n; ++i)
              {
                pj += static_cast<LD>(J[eff][i]) * J["velocity"][i];
                pa += static_cast<LD>(A[eff][i]) * A["velocity"][i];
              }
              // the rounding of both factors is bounded by the size of their summands
              std::vector<LD> m1, m2, ve, ef;
              for (size_t i = 0; i < n; ++i) { ve.push_back(A["velocity"][i]); ef.push_back(A[eff][i]); }
              s.a2j("velocity", ve, m1);
              s.a2j(eff, ef, m2);
              for (size_t i = 0; i < n; ++i) m += m1[i] * m2[i];
              VCHECK(fabsl(pj - pa) <= 1e-11L * (m + fabsl(pa)), "power", eff << ": " << static_cast<double>(pj) << " W at the joints, " << static_cast<double>(pa) << " W at the actuators; " << d.str());
              rec().count("power");
            }
        // and back
        auto keepA = A;
        auto keepJ = J;
        for (auto & q : kAll) A[q] = {SA, SA};
        t->joint_to_actuator();
        VCHECK(J == keepJ, "j2a.source", "joint values changed by joint_to_actuator; " << d.str());
        chk_other("j2a");
        for (auto & q : kAll)
        {
          // the absolute position is a measurement only
          if (!paired.count(q) || q == "absolute_position")
          {
            if (q != "absolute_position" || !paired.count(q)) VCHECK(A[q][0] == SA && A[q][1] == SA, "j2a.unconnected", q << " written although not connected on both sides; " << d.str());
            continue;
          }
          std::vector<LD> mag, in, mj, ma;
          for (size_t i = 0; i < n; ++i) in.push_back(J[q][i]);
          auto w = s.j2a(q, in, mag);
          for (size_t i = 0; i < n; ++i)
            VCHECK(near(A[q][i], w[i], mag[i]), "j2a.value", q << "[" << i << "] = " << A[q][i] << " expected " << static_cast<double>(w[i]) << " from " << J[q][0] << "," << J[q][1] << "; " << d.str());
          // round trip, rounding errors amplified by the map at most
          std::vector<LD> src, m0, m1;
          for (size_t i = 0; i < n; ++i) src.push_back(keepA[q][i]);
          s.a2j(q, src, m0);
          s.j2a(q, m0, m1);
          for (size_t i = 0; i < n; ++i)
            VCHECK(fabsl(A[q][i] - static_cast<LD>(keepA[q][i])) <= 1e-12L * m1[i], "roundtrip", q << "[" << i << "] " << keepA[q][i] << " came back as " << A[q][i] << "; " << d.str());
          rec().count("roundtrip");
        }
      }
    }
  });
}
