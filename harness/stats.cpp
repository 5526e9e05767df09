// C31: moving statistics against long double recomputation; concurrent readers under TSan (mode "stress").
#include "common.hpp"
#include "hardware_interface/types/statistics_types.hpp"
using namespace vh;
using LD = long double;
using S = ros2_control::MovingAverageStatistics;
using D = ros2_control::MovingAverageStatisticsData;
struct Want
{
  std::vector<double> v;
  double cur = std::numeric_limits<double>::quiet_NaN();
  double big() const { double b = 0; for (auto x : v) b = std::max(b, std::fabs(x)); return b; }
  LD mean() const { LD s = 0; for (auto x : v) s += x; return s / v.size(); }
  LD sd() const { LD m = mean(), s = 0; for (auto x : v) s += (x - m) * (x - m); return sqrtl(s / v.size()); }
};
template <class T> static void compare(const T & got, const Want & w, const std::string & what)
{
  VCHECK(got.sample_count == w.v.size(), "count", what << ": count " << got.sample_count << " instead of " << w.v.size());
  if (w.v.empty())
  {
    VCHECK(std::isnan(got.average) && std::isnan(got.min) && std::isnan(got.max) && std::isnan(got.standard_deviation), "empty",
      what << ": statistics of nothing: " << got.average << " [" << got.min << "," << got.max << "] " << got.standard_deviation);
    return;
  }
  const LD tol = 4e-15L * (w.v.size() + 10) * w.big();
  VCHECK(fabsl(got.average - w.mean()) <= tol, "average", what << ": average " << got.average << " instead of " << static_cast<double>(w.mean()) << " over " << w.v.size());
  VCHECK(got.min == *std::min_element(w.v.begin(), w.v.end()), "min", what << ": min " << got.min << " of " << w.v.size());
  VCHECK(got.max == *std::max_element(w.v.begin(), w.v.end()), "max", what << ": max " << got.max << " of " << w.v.size());
  VCHECK(fabsl(got.standard_deviation - w.sd()) <= tol * 4, "deviation", what << ": standard deviation " << got.standard_deviation << " instead of " << static_cast<double>(w.sd()) << " over " << w.v.size());
  rec().count("compared");
}
static double value(Rng & g, int kind)
{
  if (g.chance(.06)) return g.pick({std::nan(""), HUGE_VAL, -HUGE_VAL});
  switch (kind)
  {
    case 0: return g.uniform(-1, 1);
    case 1: return 1e9 + g.uniform(0, 1e-3);
    case 2: return std::ldexp(g.uniform(-1, 1), static_cast<int>(g.range(-300, 300)));
    case 3: return 42.5;
    case 4: return -g.uniform(100, 200);
    case 5: return g.uniform(100, 200);
    default: return static_cast<double>(g.range(-3, 3));
  }
}
static void sequential(Rng & g)
{
  auto s = std::make_shared<S>();
  D d;
  Want w, wd;  // source / copied data
  unsigned int threshold = std::numeric_limits<unsigned int>::max();
  const int kind = static_cast<int>(g.below(7));
  std::ostringstream h;
  const int n = static_cast<int>(g.pick({20, 100, 400}));
  for (int i = 0; i < n; ++i)
  {
    const auto op = g.below(40);
    if (op == 0) { s->reset(); w = Want(); h << " R"; rec().count("resets"); }
    else if (op == 1) { s->reset_current_measurement(); w.cur = 0.0; h << " C"; }
    else if (op < 5)
    {
      d.update_statistics(s);
      if (!w.v.empty()) { wd = w; }
      if (w.v.size() >= threshold) { w = Want(); rec().count("threshold_resets"); }
      h << " U";
      rec().count("updates");
    }
    else if (op == 5) { threshold = static_cast<unsigned>(g.range(1, 60)); d.set_reset_statistics_sample_count(threshold); h << " T" << threshold; }
    else
    {
      const double v = value(g, kind);
      s->add_measurement(v);
      w.cur = v;
      if (std::isfinite(v)) w.v.push_back(v);
      h << " " << v;
      rec().count("measurements");
    }
    const std::string hs = "after" + (h.str().size() > 300 ? "..." + h.str().substr(h.str().size() - 300) : h.str());
    compare(s->get_statistics(), w, hs);
    VCHECK(s->get_count() == w.v.size(), "count", "get_count " << s->get_count());
    auto st = s->get_statistics();
    VCHECK(same_bits(s->get_average(), st.average) && same_bits(s->get_min(), st.min) && same_bits(s->get_max(), st.max) && same_bits(s->get_standard_deviation(), st.standard_deviation),
      "getters", "single getters differ from the whole " << hs);
    VCHECK(same_bits(s->get_current_measurement(), w.cur), "latest", "latest measurement " << s->get_current_measurement() << " instead of " << w.cur << " " << hs);
    const auto ds = d.get_statistics();
    compare(ds, wd, "copied data " + hs);
    const double dc = d.get_current_data();
    VCHECK(same_bits(dc, wd.cur), "latest.copied", "latest copied value " << dc << " instead of " << wd.cur << " " << hs);
  }
  rec().distinct(h.str());
  rec().sample(h.str().substr(0, 200));
}
static void stress(Rng & g)
{
  auto s = std::make_shared<S>();
  D d;
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> reads{0};
  std::atomic<int> bad{0};
  const double base = g.uniform(1, 100);
  std::vector<std::thread> th;
  for (int t = 0; t < 3; ++t)
    th.emplace_back([&, t]
    {
      while (!stop)
      {
        const auto a = t == 2 ? d.get_statistics() : s->get_statistics();
        if (a.sample_count > 0)
        {
          // every measurement lies in [base, base + 1]
          if (!(a.min >= base && a.max <= base + 1 && a.average >= a.min - 1e-9 && a.average <= a.max + 1e-9 && a.standard_deviation <= a.max - a.min + 1e-9)) bad = 1;
        }
        else if (!std::isnan(a.average)) bad = 2;
        const double c = t == 2 ? d.get_current_data() : s->get_current_measurement();
        if (!std::isnan(c) && (c < base || c > base + 1)) bad = 3;
        reads++;
        if (t == 1) { (void)s->get_average(); (void)s->get_min(); (void)s->get_max(); (void)s->get_standard_deviation(); (void)s->get_count(); }
        std::this_thread::yield();
      }
    });
  d.set_reset_statistics_sample_count(50);
  for (int i = 0; i < 1500; ++i)
  {
    s->add_measurement(base + g.unit());
    if (i % 20 == 0) d.update_statistics(s);
    if (i % 300 == 299) s->reset();
    if (i % 50 == 0) std::this_thread::yield();
  }
  stop = true;
  for (auto & t : th) t.join();
  VCHECK(bad == 0, "race", "a reader saw statistics that never were (" << bad << ")");
  rec().count("concurrent_reads", reads);
  rec().distinct(std::to_string(reads));
}
int main(int argc, char ** argv)
{
  return run_cases(argc, argv, [](Rng & g, uint64_t, const Args & a) { if (a.mode == "stress") stress(g); else for (int i = 0; i < 4; ++i) sequential(g); });
}
