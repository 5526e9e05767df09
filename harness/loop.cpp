// C34: cadence of the control loop. The loop runs on a virtual steady clock: only sleeping and the scripted hardware let time pass.
#include <errno.h>
#include <time.h>
#include "hwfake.hpp"
#include "controller_manager/controller_manager.hpp"
#include "controller_manager/sleeping_policies.hpp"
#define main ros2_control_node_main
#include "controller_manager/src/ros2_control_node.cpp"
#undef main
#include "std_msgs/msg/string.hpp"

namespace
{
thread_local bool t_virtual = false;
std::atomic<int64_t> g_now{0};       // ns of the virtual steady clock
std::atomic<int64_t> g_slept{0};
std::atomic<int> g_jitter_max{0}, g_eintr{0};
std::atomic<uint64_t> g_sleeps{0};
std::atomic<uint64_t> g_rng{1};
int64_t rnd(int64_t n) { return n <= 0 ? 0 : static_cast<int64_t>(vh::mix(g_rng.fetch_add(1)) % static_cast<uint64_t>(n)); }
int64_t real_now()
{
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return int64_t(t.tv_sec) * 1000000000LL + t.tv_nsec;
}
int real_sleep(const timespec * a, timespec * b) { int r = ::clock_nanosleep(CLOCK_MONOTONIC, 0, a, b); if (r) { errno = r; return -1; } return 0; }
int virtual_sleep(int64_t ns, timespec * rem)
{
  g_sleeps++;
  if (ns < 0) ns = 0;
  if (g_eintr > 0 && ns > 10 && rnd(3) == 0)
  {
    g_eintr--;
    const int64_t part = rnd(ns);
    g_now += part; g_slept += part;
    if (rem) { rem->tv_sec = (ns - part) / 1000000000LL; rem->tv_nsec = (ns - part) % 1000000000LL; }
    errno = EINTR;
    return -1;
  }
  g_slept += ns;
  g_now += ns + (g_jitter_max ? rnd(g_jitter_max + 1) : 0);
  return 0;
}
}  // namespace
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
  return time_point(nanoseconds(t_virtual ? g_now.load() : real_now()));
}
} } }
extern "C" int nanosleep(const timespec * a, timespec * b)
{
  if (!t_virtual) return real_sleep(a, b);
  return virtual_sleep(int64_t(a->tv_sec) * 1000000000LL + a->tv_nsec, b);
}
extern "C" int usleep(useconds_t us)
{
  timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}

namespace
{
using controller_manager::ControllerManager;
using vh::Rng;
const char * kName = "controller_manager";

int pick_rate(Rng & r)
{
  static const std::vector<int> v = {1, 2, 3, 7, 10, 30, 33, 60, 100, 125, 250, 333, 400, 500, 700, 1000, 1024, 3000, 4000, 7777, 10000};
  return r.chance(0.7) ? v[r.below(v.size())] : static_cast<int>(r.range(1, 12000));
}
int64_t pick_work(Rng & r, int64_t P)
{
  switch (r.below(12))
  {
    case 0: return 0;
    case 1: return P;
    case 2: return P + r.range(-2, 2);
    case 3: return P * r.range(2, 6);
    case 4: return P * r.range(1, 6) + r.range(-3, 3);
    case 5: return static_cast<int64_t>(P * r.uniform(1.0, 3.0));
    case 6: return static_cast<int64_t>(P * r.uniform(1.0, 60.0));
    default: return static_cast<int64_t>(P * r.uniform(0.0, 0.95));
  }
}
// Number of whole periods after which the schedule `next` (late at `now`) is in the future again: one value, or two neighbours when `now` lies
// so close to a point of the schedule that the resolution of the computation decides.
std::vector<int64_t> skips(int64_t next, int64_t now, int64_t P, bool manage)
{
  if (!manage || next >= now) return {0};
  const int64_t diff = now - next, n = (diff + P - 1) / P;
  const int64_t tol = 2 + n + diff / 100000000;
  std::vector<int64_t> v{n};
  if (diff - (n - 1) * P <= tol) v.push_back(n - 1);
  if (n * P - diff <= tol) v.push_back(n + 1);
  return v;
}

struct Over
{
  ~Over() { std::lock_guard<std::mutex> l(shim::node_overrides_mutex()); shim::node_overrides().clear(); }
  void set(const std::vector<rclcpp::Parameter> & p) { std::lock_guard<std::mutex> l(shim::node_overrides_mutex()); shim::node_overrides()[kName] = p; }
};
struct Cleanup
{
  ~Cleanup()
  {
    t_virtual = false;
    shim::clock_state().manual = false; shim::clock_state().sleep_throws = false;
    shim::ok_flag() = true; g_jitter_max = 0; g_eintr = 0;
    realtime_tools::shim_sched_hook() = nullptr;
    hwf::world().reset();
  }
};

void policies(Rng & r)
{
  Cleanup cl; Over ov;
  const int rate = pick_rate(r);
  ov.set({rclcpp::Parameter("update_rate", rate)});
  auto cm = std::make_shared<ControllerManager>(std::make_shared<rclcpp::Executor>(), kName, "", controller_manager::get_cm_node_options());
  VCHECK(static_cast<int>(cm->get_update_rate()) == rate, "rate", "manager's rate " << cm->get_update_rate() << " instead of " << rate);
  const int64_t P = 1000000000LL / rate;
  g_rng = r.next();
  t_virtual = true;
  for (int round = 0; round < 6; ++round)
  {
    controller_manager::ControlLoopTimingConfig cfg;
    cfg.manage_overruns = r.chance(0.7);
    controller_manager::ControlLoopState st;
    st.period = std::chrono::nanoseconds(P);
    g_now = r.range(1, 4000000000000000LL);
    int64_t next = g_now - (r.chance(0.3) ? r.range(0, 20 * P) : 0);
    st.next_iteration_time = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(next));
    g_jitter_max = r.chance(0.5) ? 0 : static_cast<int>(r.range(1, 50000));
    for (int k = 0; k < 12; ++k)
    {
      g_now += pick_work(r, P);
      g_eintr = r.chance(0.2) ? 2 : 0;
      const int64_t before = g_now, slept0 = g_slept;
      sleep_for_periodic_cycle(cm, cfg, st);
      const int64_t got = st.next_iteration_time.time_since_epoch().count();
      auto ok = skips(next + P, before, P, cfg.manage_overruns);
      bool fits = false;
      for (auto n : ok) fits |= got == next + P + n * P;
      std::ostringstream w;
      w << "rate " << rate << " manage " << cfg.manage_overruns << " previous schedule " << next << " end of cycle " << before << " new schedule " << got << " (expected "
        << next + P + ok[0] * P << ") woke at " << g_now;
      VCHECK(fits, "schedule", w.str());
      VCHECK(g_now >= got, "early", w.str());
      VCHECK(g_slept - slept0 == std::max<int64_t>(0, got - before) || g_jitter_max || g_slept - slept0 >= std::max<int64_t>(0, got - before), "slept", w.str());
      if (!g_jitter_max) VCHECK(g_now == std::max(got, before), "late", w.str() << " though sleeping is exact");
      else VCHECK(g_now <= std::max(got, before) + 4 * int64_t(g_jitter_max), "late", w.str() << " jitter " << g_jitter_max);
      if (cfg.manage_overruns && next + P < before)
      {
        vh::rec().count("overruns");
        VCHECK(got + 2 + ok[0] + (before - next) / 100000000 >= before, "burst", w.str());
      }
      else vh::rec().count("periodic");
      vh::rec().distinct(std::to_string(rate) + ":" + std::to_string((before - next) * 16 / P) + (cfg.manage_overruns ? "m" : ""));
      if (!fits) break;
      next = got;
    }
  }
  for (int round = 0; round < 12; ++round)
  {
    controller_manager::ControlLoopTimingConfig cfg;
    cfg.expect_blocking_read_write = true;
    cfg.minimum_cycle_time = r.chance(0.2) ? 0.0001 : r.chance(0.1) ? 0.0 : std::pow(10.0, r.uniform(-5, 1));
    const int64_t min = static_cast<int64_t>(cfg.minimum_cycle_time * 1e9);
    g_jitter_max = 0; g_eintr = 0;
    g_now = r.range(1, 4000000000000000LL);
    controller_manager::ControlLoopState st;
    st.period = std::chrono::nanoseconds(P);
    st.previous_time = rclcpp::Time(g_now.load(), RCL_STEADY_TIME);
    int64_t work = r.chance(0.2) ? min : r.chance(0.3) ? std::max<int64_t>(0, min + r.range(-2, 2)) : static_cast<int64_t>(min * r.uniform(0, 2));
    g_now += work;
    st.cycle_end_time = rclcpp::Time(g_now.load(), RCL_STEADY_TIME);
    const int64_t before = g_now;
    sleep_for_blocking_read_write(cm, cfg, st);
    const int64_t slept = g_now - before;
    std::ostringstream w;
    w << "minimum " << min << " ns, cycle " << work << " ns, slept " << slept << " ns";
    if (work >= min) { VCHECK(slept == 0, "blocking_slept", w.str()); vh::rec().count("blocking_long"); }
    else
    {
      VCHECK(work + slept + 1000 >= min, "blocking_short", w.str());
      VCHECK(slept <= min, "blocking_too_long", w.str());
      vh::rec().count("blocking_short");
    }
  }
  t_virtual = false;
}

void sim_policy(Rng & r)
{
  Cleanup cl; Over ov;
  const int rate = pick_rate(r);
  ov.set({rclcpp::Parameter("update_rate", rate), rclcpp::Parameter("use_sim_time", true)});
  auto cm = std::make_shared<ControllerManager>(std::make_shared<rclcpp::Executor>(), kName, "", controller_manager::get_cm_node_options());
  const int64_t P = 1000000000LL / rate;
  auto & cs = shim::clock_state();
  cs.manual = true;
  for (int k = 0; k < 10; ++k)
  {
    controller_manager::ControlLoopState st;
    st.period = std::chrono::nanoseconds(P);
    const int64_t prev = r.range(0, 4000000000000LL);
    st.previous_time = rclcpp::Time(prev, RCL_ROS_TIME);
    cs.now_ns = prev + (r.chance(0.5) ? 0 : pick_work(r, P));
    const int64_t n0 = cs.now_ns, calls = cs.sleep_calls;
    cs.sleep_throws = r.chance(0.25);
    bool ret = false, threw = false;
    try { ret = sleep_for_sim_time(cm, st); } catch (...) { threw = true; }
    std::ostringstream w;
    w << "simulated clock " << n0 << " cycle started " << prev << " period " << P << " throws " << cs.sleep_throws << " -> " << ret << " slept until " << cs.last_sleep_until;
    VCHECK(!threw, "sim_exception", w.str());
    VCHECK(ret == !cs.sleep_throws, "sim_result", w.str());
    VCHECK(cs.sleep_calls == calls + 1 && cs.last_sleep_until == prev + P, "sim_until", w.str());
    vh::rec().count(cs.sleep_throws ? "sim_failed" : "sim_slept");
  }
}

// the whole program
void node(Rng & r)
{
  Cleanup cl; Over ov;
  auto & w = hwf::world();
  w.reset();
  enum Mode { PERIODIC, UNMANAGED, BLOCKING, SIM, MODES };
  const int mode = static_cast<int>(r.below(MODES));
  const int rate = pick_rate(r);
  const int64_t P = 1000000000LL / rate;
  const double minimum = r.chance(0.3) ? 0.0001 : std::pow(10.0, r.uniform(-5, 0));
  const bool defaults = r.chance(0.3);
  const int prio = static_cast<int>(r.range(1, 99));
  std::vector<rclcpp::Parameter> ps{rclcpp::Parameter("update_rate", rate)};
  if (!defaults) ps.emplace_back("thread_priority", prio);
  if (mode == UNMANAGED || mode == PERIODIC) { if (!(mode == PERIODIC && defaults)) ps.emplace_back("overruns.manage", mode == PERIODIC); }
  if (mode == BLOCKING) { ps.emplace_back("hardware_synchronization.expect_blocking_read_write", true); ps.emplace_back("hardware_synchronization.minimum_cycle_time", minimum); }
  if (mode == SIM) { ps.emplace_back("use_sim_time", true); if (r.chance(0.5)) ps.emplace_back("hardware_synchronization.expect_blocking_read_write", true); }
  ov.set(ps);
  const int N = 30;
  const bool breaks = mode == SIM && r.chance(0.5);
  const int break_at = static_cast<int>(r.range(3, N - 3));
  auto & cs = shim::clock_state();
  cs.sleep_throws = false;
  cs.manual = mode == SIM;
  cs.now_ns = r.range(1, 1000000000000LL);
  g_now = r.range(1, 4000000000000000LL);
  g_jitter_max = 0; g_eintr = 0;
  g_rng = r.next();
  Rng work_rng(r.next());
  struct Cycle { int64_t start, period, wtime, wperiod, end; int reads, writes; };
  std::vector<Cycle> cyc;
  std::atomic<bool> running{false}, broke{false};
  std::atomic<int> got_prio{-1}, after_break{0}, entered{0};
  auto now = [&] { return mode == SIM ? cs.now_ns.load() : g_now.load(); };
  auto pass = [&](int64_t d) { if (mode == SIM) cs.now_ns += d; else g_now += d; };
  std::vector<int64_t> plan;
  for (int i = 0; i < N; ++i)
    plan.push_back(mode == BLOCKING ? static_cast<int64_t>(minimum * 1e9 * (r.chance(0.5) ? r.uniform(0, 0.99) : r.uniform(1.0, 4))) : pick_work(r, P));
  w.hook = [&](const hwf::Ev & e)
  {
    if (!running || e.comp != "hw") return;
    if (e.cb == "read")
    {
      if (broke) { after_break++; return; }
      if (static_cast<int>(cyc.size()) >= N) return;
      cyc.push_back({now(), e.period, 0, 0, 0, 1, 0});
      VCHECK(e.t == cyc.back().start, "read_time", "read at " << cyc.back().start << " is told " << e.t);
      pass(plan[cyc.size() - 1] / 2);
    }
    else if (e.cb == "write" && !cyc.empty() && !broke && static_cast<int>(cyc.size()) <= N)
    {
      auto & c = cyc.back();
      c.writes++;
      if (c.writes > 1) return;
      c.wtime = e.t; c.wperiod = e.period;
      VCHECK(e.t == now(), "write_time", "write at " << now() << " is told " << e.t);
      pass(plan[cyc.size() - 1] - plan[cyc.size() - 1] / 2);
      c.end = now();
      if (breaks && static_cast<int>(cyc.size()) == break_at) { cs.sleep_throws = true; broke = true; }
      if (static_cast<int>(cyc.size()) == N) shim::ok_flag() = false;
    }
  };
  hwf::HwD d;
  d.name = "hw"; d.type = "system";
  d.joints.push_back({"j", {"position"}, {"position"}});
  realtime_tools::shim_sched_hook() = [&](int p)
  {
    got_prio = p;
    entered++;
    std_msgs::msg::String s;
    s.data = hwf::urdf({d});
    rclcpp::Subscription<std_msgs::msg::String>::SharedPtr sub;
    {
      std::lock_guard<std::mutex> l(shim::live_nodes_mutex());
      auto i = shim::live_nodes().find(kName);
      if (i != shim::live_nodes().end()) sub = i->second->shim_subscription<std_msgs::msg::String>("robot_description");
    }
    if (sub) sub->cb(std::make_shared<std_msgs::msg::String>(s));
    running = true;
    t_virtual = true;
    return true;
  };
  std::thread stopper;
  if (breaks)
    stopper = std::thread([&] {
      const int64_t t0 = real_now();
      while (!(broke && cs.sleep_throws) && real_now() - t0 < 20000000000LL) std::this_thread::sleep_for(std::chrono::milliseconds(1));
      std::this_thread::sleep_for(std::chrono::milliseconds(15));
      shim::ok_flag() = false;
    });
  std::string a0 = "ros2_control_node";
  char * argv[] = {a0.data(), nullptr};
  int rc = -1; std::string thrown;
  try { rc = ros2_control_node_main(1, argv); } catch (const std::exception & e) { thrown = e.what(); }
  if (stopper.joinable()) stopper.join();
  std::ostringstream cs_;
  cs_ << "mode " << mode << " rate " << rate << (mode == BLOCKING ? " minimum " + vh::num(minimum) : std::string());
  const std::string ctx = cs_.str();
  VCHECK(rc == 0 && thrown.empty(), "exit", ctx << " exit code " << rc << " " << thrown);
  VCHECK(entered == 1 && got_prio == (defaults ? 50 : prio), "priority", ctx << " loop thread started " << entered << " times, priority " << got_prio);
  VCHECK(static_cast<int>(cyc.size()) == (breaks ? break_at : N), "cycles", ctx << " cycles seen " << cyc.size());
  VCHECK(after_break == 0, "cycle_after_break", ctx << " reads after the clock became unusable: " << after_break);
  const int64_t min_ns = static_cast<int64_t>(minimum * 1e9);
  int64_t S = cyc.empty() ? 0 : cyc[0].start;  // schedule: grid through the first cycle
  for (size_t k = 0; k < cyc.size(); ++k)
  {
    auto & c = cyc[k];
    const bool last = k + 1 == cyc.size();
    VCHECK(c.writes == 1, "writes", ctx << " cycle " << k << " writes " << c.writes);
    VCHECK(c.wperiod == c.period, "write_period", ctx << " cycle " << k << " read period " << c.period << " write period " << c.wperiod);
    if (k == 0)
    {
      VCHECK(c.period >= P || mode == SIM, "first_period", ctx << " first period " << c.period << " shorter than " << P);
      continue;
    }
    auto & p = cyc[k - 1];
    std::ostringstream o;
    o << ctx << " cycle " << k << " starts " << c.start << ", previous start " << p.start << " end " << p.end << " period given " << c.period;
    VCHECK(c.period == c.start - p.start, "period", o.str());
    if (mode == SIM) VCHECK(c.start == std::max(p.start + P, p.end), "sim_start", o.str() << " expected " << std::max(p.start + P, p.end));
    else if (mode == BLOCKING)
    {
      const int64_t work = p.end - p.start, slept = c.start - p.end;
      if (work >= min_ns) VCHECK(slept == 0, "blocking_slept", o.str());
      else VCHECK(work + slept + 1000 >= min_ns && slept <= min_ns, "blocking_short", o.str());
    }
    else
    {
      auto ok = skips(S + P, p.end, P, mode == PERIODIC);
      bool fits = false; int64_t chosen = 0;
      for (auto n : ok) if (!fits && c.start == std::max(S + P + n * P, p.end)) { fits = true; chosen = n; }
      VCHECK(fits, "cadence", o.str() << " expected " << std::max(S + P + ok[0] * P, p.end));
      if (!fits) break;
      S += P + chosen * P;
    }
    (void)last;
  }
  vh::rec().count(mode == PERIODIC ? "node_periodic" : mode == UNMANAGED ? "node_unmanaged" : mode == BLOCKING ? "node_blocking" : breaks ? "node_sim_broken" : "node_sim");
  vh::rec().distinct(ctx);
  vh::rec().sample(ctx + " cycles " + std::to_string(cyc.size()));
}
}  // namespace

int main(int argc, char ** argv)
{
  hwf::register_plugins();
  return vh::run_cases(argc, argv, [](Rng & r, uint64_t c, const vh::Args &) {
    if (c % 4 == 0) node(r);
    else if (c % 4 == 3) sim_policy(r);
    else policies(r);
  });
}
