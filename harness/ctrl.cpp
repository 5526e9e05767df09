// C19 controller base classes: lifecycle, rate, ownership, asynchronous updates. C20 chainable controllers: exports and modes.
#include "common.hpp"
#include <atomic>
#include <thread>
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "lifecycle_msgs/msg/state.hpp"
using vh::Rng;
using controller_interface::CallbackReturn;
using controller_interface::return_type;
using hardware_interface::CommandInterface;
using hardware_interface::LoanedCommandInterface;
using hardware_interface::LoanedStateInterface;
using hardware_interface::StateInterface;
namespace
{
hardware_interface::InterfaceDescription desc(const std::string & prefix, const std::string & name)
{
  hardware_interface::InterfaceInfo i;
  i.name = name;
  i.data_type = "double";
  return hardware_interface::InterfaceDescription(prefix, i);
}
const char * sname(int s) { static const char * n[] = {"unknown", "unconfigured", "inactive", "active", "finalized"}; return s >= 0 && s < 5 ? n[s] : "transitional"; }
struct Call { std::string cb; int from; size_t ncmd, nst; bool operator==(const Call &) const = default; };
std::string show(const std::vector<Call> & v) { std::ostringstream o; for (auto & c : v) o << c.cb << "@" << sname(c.from) << "(" << c.ncmd << "," << c.nst << ") "; return o.str(); }
struct Script
{
  std::map<std::string, int> plan;  // 0 success 1 failure 2 error 3 throw
  std::vector<Call> calls;
  int answer(const std::string & cb, int from, size_t a, size_t b) { calls.push_back({cb, from, a, b}); auto i = plan.find(cb); return i == plan.end() ? 0 : i->second; }
};
template <class Base>
class Scripted : public Base
{
public:
  Script s;
  std::atomic<int> in_update{0}, overlaps{0}, updates{0}, foreign{0};
  std::atomic<int64_t> last_time{0}, last_period{0};
  std::atomic<int> delay_us{0};
  std::atomic<int> upd{0};     // answer of the next update
  std::atomic<bool> allowed{true};  // may an update run now?
  std::mutex m;
  std::vector<int64_t> times, periods;
  controller_interface::InterfaceConfiguration command_interface_configuration() const override { return {controller_interface::interface_configuration_type::NONE, {}}; }
  controller_interface::InterfaceConfiguration state_interface_configuration() const override { return {controller_interface::interface_configuration_type::NONE, {}}; }
  CallbackReturn ret(const char * cb, const rclcpp_lifecycle::State & p)
  {
    int r = s.answer(cb, p.id(), this->command_interfaces_.size(), this->state_interfaces_.size());
    if (r == 3) throw std::runtime_error(std::string("scripted ") + cb);
    return r == 0 ? CallbackReturn::SUCCESS : r == 1 ? CallbackReturn::FAILURE : CallbackReturn::ERROR;
  }
  CallbackReturn on_init() override { auto i = s.plan.find("init"); int r = i == s.plan.end() ? 0 : i->second; return r == 0 ? CallbackReturn::SUCCESS : r == 1 ? CallbackReturn::FAILURE : CallbackReturn::ERROR; }
  CallbackReturn on_configure(const rclcpp_lifecycle::State & p) override { return ret("configure", p); }
  CallbackReturn on_cleanup(const rclcpp_lifecycle::State & p) override { return ret("cleanup", p); }
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State & p) override { return ret("shutdown", p); }
  CallbackReturn on_activate(const rclcpp_lifecycle::State & p) override { return ret("activate", p); }
  CallbackReturn on_deactivate(const rclcpp_lifecycle::State & p) override { return ret("deactivate", p); }
  CallbackReturn on_error(const rclcpp_lifecycle::State & p) override { return ret("error", p); }
  return_type work(const rclcpp::Time & t, const rclcpp::Duration & d)
  {
    if (in_update.fetch_add(1) != 0) ++overlaps;
    if (!allowed) ++foreign;
    last_time = t.nanoseconds();
    last_period = d.nanoseconds();
    int us = delay_us;
    if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
    { std::lock_guard<std::mutex> l(m); times.push_back(t.nanoseconds()); periods.push_back(d.nanoseconds()); }
    ++updates;
    if (!allowed) ++foreign;
    --in_update;
    int r = upd;
    if (r == 2) throw std::runtime_error("scripted update");
    return r == 0 ? return_type::OK : return_type::ERROR;
  }
  size_t ncmd() const { return this->command_interfaces_.size(); }
  size_t nst() const { return this->state_interfaces_.size(); }
  std::vector<LoanedCommandInterface> & cmds() { return this->command_interfaces_; }
};
class Plain : public Scripted<controller_interface::ControllerInterface>
{
public:
  return_type update(const rclcpp::Time & t, const rclcpp::Duration & d) override { return work(t, d); }
};

unsigned model_rate(unsigned u, unsigned cm) { return cm % u == 0 ? u : cm / static_cast<unsigned>(std::round(static_cast<double>(cm) / u)); }

void life_case(Rng & r)
{
  unsigned cm = static_cast<unsigned>(r.pick({1, 10, 50, 100, 100, 250, 1000, 999, 60}));
  auto c = std::make_shared<Plain>();
  controller_interface::ControllerInterfaceParams p;
  p.controller_name = "ctrl";
  p.robot_description = "<r/>";
  p.update_rate = p.controller_manager_update_rate = cm;
  std::vector<rclcpp::Parameter> ov;
  int64_t u = cm;
  auto pick_rate = [&]() -> int64_t { int k = static_cast<int>(r.below(10)); return k == 0 ? -static_cast<int64_t>(r.range(1, 1000)) : k == 1 ? 0 : k == 2 ? cm : k == 3 ? cm + r.range(1, 500) : std::max<int64_t>(1, r.range(1, cm)); };
  if (r.chance(0.7)) { u = pick_rate(); ov.emplace_back("update_rate", static_cast<int>(u)); }
  bool async = r.chance(0.4);
  if (async || r.chance(0.3)) ov.emplace_back("is_async", async);
  if (r.chance(0.3)) ov.emplace_back("thread_priority", static_cast<int>(r.range(0, 99)));
  bool detached = r.chance(0.08);
  if (detached) { ov.emplace_back("async_parameters.scheduling_policy", "detached"); ov.emplace_back("async_parameters.execution_rate", 10); }
  p.node_options.automatically_declare_parameters_from_overrides(true).parameter_overrides(ov);
  std::string hist;
  auto ctx = [&] { return "cm rate " + std::to_string(cm) + (async ? " async" : "") + (detached ? " detached" : "") + " history " + hist; };
  int init = r.chance(0.06) ? static_cast<int>(r.range(1, 2)) : 0;
  c->s.plan["init"] = init;
  auto ir = c->init(p);
  VCHECK((ir == return_type::OK) == (init == 0), "init_result", "init returns " << int(ir) << " although on_init answers " << init);
  if (init)
  {
    VCHECK(c->get_lifecycle_state().id() == 4, "init_failed_state", "state " << sname(c->get_lifecycle_state().id()) << " after a failed initialisation");
    VCHECK(c->s.calls == (std::vector<Call>{{"shutdown", 1, 0, 0}}), "init_failed_calls", "callbacks " << show(c->s.calls) << " after a failed initialisation");
    vh::rec().count("init_failed");
    return;
  }
  VCHECK(c->get_update_rate() == cm, "initial_rate", "rate " << c->get_update_rate() << " before configuring " << ctx());
  int st = 1;
  unsigned rate = cm;
  bool is_async = false;
  bool triggers_off = false;   // prepare_for_deactivation was called
  size_t ncmd = 0, nst = 0;
  int loans_out = 0;
  std::map<std::string, std::shared_ptr<CommandInterface>> ci;
  std::map<std::string, std::shared_ptr<StateInterface>> si;
  for (int k = 0; k < 4; ++k)
  {
    ci["j" + std::to_string(k)] = std::make_shared<CommandInterface>(desc("j" + std::to_string(k), "position"));
    si["j" + std::to_string(k)] = std::make_shared<StateInterface>(desc("j" + std::to_string(k), "position"));
  }
  // counters of the triggers since the last configuration
  int64_t now = 1000000000;
  std::vector<Call> want;
  // model of a transition with the callback cb
  auto go = [&](const std::string & cb, std::set<int> from, int ok, int fail)
  {
    if (!from.count(st)) return;
    int prev = st;
    want.push_back({cb, prev, ncmd, nst});
    int a = c->s.plan[cb];
    if (a == 0) st = ok;
    else if (a == 1) st = fail;
    else { if (cb == "shutdown" && a == 2) ncmd = nst = 0; want.push_back({"error", prev, ncmd, nst}); st = c->s.plan["error"] == 0 ? 1 : 4; }
    if (cb == "shutdown" || a >= 2) ncmd = nst = 0;
    if (cb == "shutdown" && a < 2) ncmd = nst = 0;
  };
  auto refused = [&] { return detached; };
  for (int step = 0; step < 60; ++step)
  {
    c->s.calls.clear();
    want.clear();
    for (auto cb : {"configure", "activate", "deactivate", "cleanup", "shutdown", "error"}) c->s.plan[cb] = r.chance(0.82) ? 0 : static_cast<int>(r.range(1, 3));
    int what = static_cast<int>(r.below(22));
    int before = st;
    if (what < 4)
    {
      std::string how = "configure";
      bool reached = true;
      std::set<unsigned> rates{rate};
      if (st == 1)
      {
        auto asked = c->get_node()->get_parameter("update_rate").as_int();
        if (asked < 0) reached = false;
        else if (asked > static_cast<int64_t>(cm)) rates = {cm};
        else if (asked == 0) rates = {rate, cm};
        else rates = {model_rate(static_cast<unsigned>(asked), cm)};
        how += "(rate " + std::to_string(asked) + ")";
        if (reached) is_async = c->get_node()->get_parameter("is_async").as_bool();
      }
      if (reached && is_async && refused()) reached = false;
      if (reached) go("configure", {1}, 2, 1);
      hist += how + " ";
      const auto & res = c->configure();
      VCHECK(res.id() == st, "configure_result", "configure returns " << sname(res.id()) << " expected " << sname(st) << " " << ctx());
      VCHECK(rates.count(c->get_update_rate()), "rate", "update rate " << c->get_update_rate() << " Hz expected " << *rates.begin() << " Hz " << ctx());
      VCHECK(c->get_update_rate() <= cm, "rate_above_manager", "update rate " << c->get_update_rate() << " Hz " << ctx());
      rate = c->get_update_rate();
      if (before == 1) vh::rec().count(reached ? "configured" : "configuration_refused");
    }
    else if (what < 8)
    {
      hist += "activate ";
      if (st == 2) triggers_off = false;
      go("activate", {2}, 3, 2);
      c->get_node()->activate();
    }
    else if (what < 11)
    {
      if (st == 3 && (is_async || r.chance(0.5))) { hist += "prepare "; c->prepare_for_deactivation(); triggers_off = true; }
      hist += "deactivate ";
      go("deactivate", {3}, 2, 3);
      c->get_node()->deactivate();
    }
    else if (what < 12) { hist += "cleanup "; go("cleanup", {2}, 1, 2); c->get_node()->cleanup(); }
    else if (what < 13 && r.chance(0.2)) { hist += "shutdown "; go("shutdown", {1, 2, 3}, 4, 4); c->get_node()->shutdown(); }
    else if (what < 14)
    {
      if (st != 2) continue;
      size_t a = r.below(4), b = r.below(4);
      std::vector<LoanedCommandInterface> lc;
      std::vector<LoanedStateInterface> ls;
      for (size_t k = 0; k < a; ++k) { ++loans_out; lc.emplace_back(ci["j" + std::to_string(k)], [&] { --loans_out; }); }
      for (size_t k = 0; k < b; ++k) { ++loans_out; ls.emplace_back(si["j" + std::to_string(k)], [&] { --loans_out; }); }
      c->assign_interfaces(std::move(lc), std::move(ls));
      ncmd = a;
      nst = b;
      hist += "assign(" + std::to_string(a) + "," + std::to_string(b) + ") ";
      VCHECK(c->ncmd() == a && c->nst() == b, "assigned", "holds " << c->ncmd() << " and " << c->nst() << " interfaces " << ctx());
      for (size_t k = 0; k < a; ++k)
      {
        double v = r.uniform(-1, 1);
        (void)c->cmds()[k].set_value(v);
        VCHECK(c->cmds()[k].get_name() == "j" + std::to_string(k) + "/position" && ci["j" + std::to_string(k)]->get_optional<double>().value() == v, "assigned_interface",
          "interface " << k << " is " << c->cmds()[k].get_name() << " " << ctx());
      }
    }
    else if (what < 15) { if (st == 3 && is_async) continue; hist += "release "; c->release_interfaces(); ncmd = nst = 0; }
    else if (what < 16)
    {
      u = pick_rate();
      c->get_node()->set_parameter(rclcpp::Parameter("update_rate", static_cast<int>(u)));
      hist += "param(rate " + std::to_string(u) + ") ";
      VCHECK(c->get_update_rate() == rate, "rate_changed", "the rate changes to " << c->get_update_rate() << " without configuring " << ctx());
    }
    else if (what < 17)
    {
      async = r.chance(0.5);
      c->get_node()->set_parameter(rclcpp::Parameter("is_async", async));
      hist += std::string("param(async ") + (async ? "1" : "0") + ") ";
      VCHECK(c->is_async() == is_async, "async_changed", "asynchronous: " << c->is_async() << " without configuring " << ctx());
    }
    else
    {
      if (st != 3) continue;
      now += static_cast<int64_t>(r.range(1, 50)) * 1000000;
      int64_t per = static_cast<int64_t>(r.range(1, 50)) * 1000000;
      int had = c->updates;
      int a = r.chance(0.85) ? 0 : r.chance(0.6) ? 1 : 2;
      int prev_upd = c->upd;
      hist += "update(" + std::to_string(a) + ") ";
      if (!is_async)
      {
        c->upd = a;
        controller_interface::ControllerUpdateStatus s;
        bool threw = false;
        try { s = c->trigger_update(rclcpp::Time(now, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(per))); }
        catch (const std::runtime_error &) { threw = true; }
        VCHECK(c->updates == had + 1 && c->last_time == now && c->last_period == per, "sync_update", "updates " << c->updates - had << " with time " << c->last_time << " period " << c->last_period << " instead of " << now << " " << per << " " << ctx());
        VCHECK(threw == (a == 2), "sync_throw", "exception " << threw << " " << ctx());
        if (!threw)
          VCHECK(s.successful && s.result == (a == 0 ? return_type::OK : return_type::ERROR) && s.period && s.period->nanoseconds() == per && s.execution_time && s.execution_time->count() >= 0,
            "sync_status", "successful " << s.successful << " result " << int(s.result) << " for an update answering " << a << " " << ctx());
        vh::rec().count("sync_updates");
      }
      else
      {
        (void)prev_upd;
        c->upd = a == 2 ? 0 : a;
        controller_interface::ControllerUpdateStatus s;
        auto t = rclcpp::Time(now, RCL_STEADY_TIME);
        // a trigger may be missed while the thread is just starting or finishing
        auto trigger = [&](int64_t at)
        {
          controller_interface::ControllerUpdateStatus z;
          for (int q = 0; q < 2000; ++q)
          {
            int n = c->updates;
            z = c->trigger_update(rclcpp::Time(at, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(per)));
            if (z.successful || triggers_off) break;
            VCHECK(c->updates == n, "missed_update_runs", "a missed cycle runs the update " << ctx());
            std::this_thread::sleep_for(std::chrono::microseconds(20));
          }
          return z;
        };
        (void)t;
        s = trigger(now);
        c->wait_for_trigger_update_to_finish();
        if (triggers_off)
        {
          VCHECK(!s.successful && s.result == return_type::OK && c->updates == had, "async_skipped", "an update was started after the preparation for deactivation " << ctx());
          vh::rec().count("async_skipped");
        }
        else
        {
          VCHECK(s.successful && c->updates == had + 1 && c->last_time == now && c->last_period == per, "async_update", "successful " << s.successful << " updates " << c->updates - had << " with time " << c->last_time << " period " << c->last_period << " instead of " << now << " " << per << " " << ctx());
          vh::rec().count("async_updates");
          // the result is that of the previous cycle; ask again without running it to completion
          now += 1000000;
          had = c->updates;
          s = trigger(now);
          VCHECK(s.result == (c->upd == 0 ? return_type::OK : return_type::ERROR), "async_result", "the result of the last cycle is reported as " << int(s.result) << " " << ctx());
          VCHECK(s.period && s.period->nanoseconds() == 1000000, "async_period", "reported period " << (s.period ? s.period->nanoseconds() : -1) << " " << ctx());
          c->wait_for_trigger_update_to_finish();
          VCHECK(c->updates == had + 1, "async_update", "updates " << c->updates - had << " " << ctx());
        }
      }
      c->upd = 0;
    }
    VCHECK(c->s.calls == want, "callbacks", "callbacks " << show(c->s.calls) << " expected " << show(want) << " " << ctx());
    VCHECK(c->get_lifecycle_state().id() == st, "state", "state " << sname(c->get_lifecycle_state().id()) << " expected " << sname(st) << " " << ctx());
    VCHECK(c->get_lifecycle_id() == st, "state_id", "state id " << sname(c->get_lifecycle_id()) << " expected " << sname(st) << " " << ctx());
    VCHECK(c->ncmd() == ncmd && c->nst() == nst, "interfaces_held", "holds " << c->ncmd() << " command and " << c->nst() << " state interfaces, expected " << ncmd << " and " << nst << " " << ctx());
    VCHECK(loans_out == static_cast<int>(ncmd + nst), "loans", loans_out << " interfaces are on loan, expected " << ncmd + nst << " " << ctx());
    VCHECK(c->is_async() == is_async, "is_async", "asynchronous: " << c->is_async() << " " << ctx());
    vh::rec().distinct(std::to_string(st) + std::to_string(before) + show(c->s.calls) + std::to_string(rate) + "/" + std::to_string(cm) + (is_async ? "a" : "s"));
  }
  vh::rec().count("histories");
  if (vh::rec().current() < 3) vh::rec().sample(ctx());
  if (st != 4 && (is_async || r.chance(0.5)))
  {
    c->s.plan.clear();
    c->get_node()->shutdown();
    ncmd = nst = 0;
  }
  c.reset();
  VCHECK(loans_out == 0, "loans_at_end", loans_out << " interfaces are on loan after the controller was destroyed " << ctx());
}

// asynchronous controller triggered by a loop thread while requests of a manager come and go
void async_stress(Rng & r)
{
  auto c = std::make_shared<Plain>();
  controller_interface::ControllerInterfaceParams p;
  p.controller_name = "ctrl";
  p.update_rate = p.controller_manager_update_rate = 100;
  p.node_options.automatically_declare_parameters_from_overrides(true).parameter_overrides({rclcpp::Parameter("is_async", true)});
  if (c->init(p) != return_type::OK) return;
  c->allowed = false;
  std::atomic<bool> active{false}, stop{false}, pause{false};
  std::atomic<int> in_loop{0};
  std::atomic<int> started{0};
  std::vector<int64_t> accepted, accepted_p;
  uint64_t seed = r.below(1u << 30);
  // the loop, as a manager runs it: it triggers while it believes the controller to be active
  std::thread loop([&]
  {
    Rng q(seed);
    int64_t t = 1;
    while (!stop)
    {
      t += 1000 + static_cast<int64_t>(q.below(1000));
      if (active && !pause)
      {
        in_loop = 1;
        if (active && !pause)
        {
          try
          {
            auto s = c->trigger_update(rclcpp::Time(t, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(t % 977)));
            if (s.successful) { accepted.push_back(t); accepted_p.push_back(t % 977); ++started; }
          }
          catch (const std::runtime_error &) { active = false; }
        }
        in_loop = 0;
      }
      (void)c->get_lifecycle_id();
      if (q.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(60)));
    }
  });
  std::string hist;
  int cycles = static_cast<int>(r.range(4, 14));
  c->configure();
  for (int k = 0; k < cycles; ++k)
  {
    c->delay_us = static_cast<int>(r.pick({0, 0, 30, 200}));
    c->allowed = true;
    c->get_node()->activate();
    VCHECK(c->get_lifecycle_id() == 3, "async_state", "state " << int(c->get_lifecycle_id()) << " after activation");
    active = true;
    for (int q = 0; q < 200 && c->updates < 3 * (k + 1); ++q) std::this_thread::sleep_for(std::chrono::microseconds(50));
    // as the manager: no further triggers, then wait, then the transition; the loop may still be calling
    c->prepare_for_deactivation();
    int n = c->updates;
    VCHECK(c->in_update == 0, "update_during_deactivation", "an update is running after the preparation for deactivation");
    c->allowed = false;
    std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
    VCHECK(c->updates == n, "update_after_deactivation", "updates after the preparation for deactivation");
    active = false;
    while (in_loop) std::this_thread::yield();
    int end = static_cast<int>(r.below(10));
    c->s.plan.clear();
    if (end < 6) c->get_node()->deactivate();
    else if (end < 8) { c->s.plan["deactivate"] = 2; c->get_node()->deactivate(); c->s.plan.clear(); c->configure(); }
    else { c->get_node()->deactivate(); c->get_node()->cleanup(); c->configure(); }
    for (int q = 0; q < 3; ++q) VCHECK(c->get_lifecycle_id() == 2, "async_state", "state " << sname(c->get_lifecycle_id()) << " instead of inactive");
    vh::rec().count("async_cycles");
  }
  stop = true;
  loop.join();
  VCHECK(c->get_lifecycle_id() == 2, "async_state", "state " << sname(c->get_lifecycle_id()) << " instead of inactive after all requests");
  c->get_node()->shutdown();
  VCHECK(c->overlaps == 0, "overlapping_updates", c->overlaps << " updates overlapped");
  VCHECK(c->foreign == 0, "update_while_inactive", c->foreign << " updates ran while not active");
  VCHECK(c->times == accepted && c->periods == accepted_p, "updates_lost", c->times.size() << " updates for " << accepted.size() << " accepted triggers, or with other arguments");
  vh::rec().count("stress_updates", c->updates);
  vh::rec().distinct(std::to_string(c->times.size()) + "/" + std::to_string(cycles));
}

// many threads look at the state while it changes
void id_stress(Rng & r)
{
  auto c = std::make_shared<Plain>();
  controller_interface::ControllerInterfaceParams p;
  p.controller_name = "ctrl";
  p.update_rate = p.controller_manager_update_rate = 100;
  if (c->init(p) != return_type::OK) return;
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> reads{0};
  std::vector<std::thread> t;
  for (int k = 0; k < 3; ++k)
    t.emplace_back([&] { while (!stop) { (void)c->get_lifecycle_id(); ++reads; } });
  c->configure();
  for (int k = 0; k < 300; ++k)
  {
    int want = 2;
    if (k % 2 == 0) { c->get_node()->activate(); want = 3; } else c->get_node()->deactivate();
    uint64_t n = reads;
    if (r.chance(0.2)) { auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(20); while (reads < n + 12 && std::chrono::steady_clock::now() < until) std::this_thread::yield(); }
    int got = c->get_lifecycle_id();
    VCHECK(got == want, "stale_state", "the state is reported as " << sname(got) << " although the controller is " << sname(want));
    vh::rec().count("state_reads");
  }
  stop = true;
  for (auto & x : t) x.join();
  int got = c->get_lifecycle_id();
  VCHECK(got == 2, "stale_state", "the state is reported as " << sname(got) << " for good although the controller is inactive");
  c->get_node()->shutdown();
  vh::rec().distinct(std::to_string(reads.load()));
}

// ------------------------------------------------------------------ C20
struct ExpIf { std::string prefix, name; bool modern; };
class Chain : public Scripted<controller_interface::ChainableControllerInterface>
{
public:
  std::vector<ExpIf> refs, sts;
  int resize = 0;         // error made in sizing reference_interfaces_
  bool use_default = false;
  std::map<std::string, double> own_store;
  std::vector<std::shared_ptr<CommandInterface>> modern_refs;
  std::vector<std::shared_ptr<StateInterface>> modern_sts;
  int chained_answer = 0;  // 0 true 1 false 2 throw
  std::vector<bool> mode_calls;
  int sub = 0, wr = 0;
  std::vector<std::string> stages;
  std::vector<double> seen;
  int64_t st_time = 0, st_period = 0;
  std::vector<hardware_interface::StateInterface> on_export_state_interfaces() override
  {
    if (use_default) return ChainableControllerInterface::on_export_state_interfaces();
    std::vector<hardware_interface::StateInterface> v;
    size_t n = 0;
    for (auto & e : sts) if (!e.modern) ++n;
    state_interfaces_values_.assign(n, 0.0);
    n = 0;
    for (auto & e : sts) if (!e.modern) v.emplace_back(e.prefix, e.name, &state_interfaces_values_[n++]);
    return v;
  }
  std::vector<StateInterface::SharedPtr> on_export_state_interfaces_list() override
  {
    modern_sts.clear();
    for (auto & e : sts)
      if (e.modern) modern_sts.push_back(std::make_shared<StateInterface>(desc(e.prefix, e.name)));
    return modern_sts;
  }
  std::vector<CommandInterface> on_export_reference_interfaces() override
  {
    if (use_default) return ChainableControllerInterface::on_export_reference_interfaces();
    std::vector<CommandInterface> v;
    size_t n = 0;
    for (auto & e : refs) if (!e.modern) ++n;
    reference_interfaces_.assign(std::max<size_t>(1, n), 0.0);
    size_t k = 0;
    for (auto & e : refs) if (!e.modern) v.emplace_back(CommandInterface(e.prefix, e.name, &reference_interfaces_[k++]));
    long size = static_cast<long>(n) + resize;
    if (size < 0) size = 0;
    // the storage keeps its place: shrink or grow within the capacity only
    reference_interfaces_.reserve(64);
    if (static_cast<size_t>(size) != reference_interfaces_.size()) reference_interfaces_.resize(static_cast<size_t>(size), 0.0);
    k = 0;
    v.clear();
    for (auto & e : refs) if (!e.modern && k < std::max<size_t>(reference_interfaces_.size(), 1)) { v.emplace_back(CommandInterface(e.prefix, e.name, reference_interfaces_.data() + k)); ++k; }
    if (resize < 0)
      for (; k < n; ++k) v.emplace_back(CommandInterface("ctrl", "filler" + std::to_string(k), reference_interfaces_.data()));
    return v;
  }
  std::vector<CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    modern_refs.clear();
    for (auto & e : refs)
      if (e.modern) modern_refs.push_back(std::make_shared<CommandInterface>(desc(e.prefix, e.name)));
    return modern_refs;
  }
  bool on_set_chained_mode(bool b) override
  {
    mode_calls.push_back(b);
    if (chained_answer == 2) throw std::runtime_error("scripted mode");
    return chained_answer == 0;
  }
  return_type stage(const char * n, int a, const rclcpp::Time & t, const rclcpp::Duration & d)
  {
    stages.push_back(n);
    st_time = t.nanoseconds();
    st_period = d.nanoseconds();
    if (a == 2) throw std::runtime_error(n);
    return a == 0 ? return_type::OK : return_type::ERROR;
  }
  return_type update_reference_from_subscribers(const rclcpp::Time & t, const rclcpp::Duration & d) override { return stage("subscribers", sub, t, d); }
  return_type update_and_write_commands(const rclcpp::Time & t, const rclcpp::Duration & d) override
  {
    seen = reference_interfaces_;
    return stage("write", wr, t, d);
  }
  std::vector<std::string> & ref_names() { return exported_reference_interface_names_; }
  std::vector<std::string> & st_names() { return exported_state_interface_names_; }
  auto & ordered_refs() { return ordered_exported_reference_interfaces_; }
  auto & ordered_sts() { return ordered_exported_state_interfaces_; }
  auto & ref_map() { return exported_reference_interfaces_; }
  auto & st_map() { return exported_state_interfaces_; }
  std::vector<double> & ref_store() { return reference_interfaces_; }
  std::vector<double> & st_store() { return state_interfaces_values_; }
};
template <class V> std::vector<std::string> names(const V & v) { std::vector<std::string> o; for (auto & i : v) o.push_back(i->get_name()); return o; }
void chain_case(Rng & r)
{
  auto c = std::make_shared<Chain>();
  controller_interface::ControllerInterfaceParams p;
  p.controller_name = "ctrl";
  p.update_rate = p.controller_manager_update_rate = 100;
  if (c->init(p) != return_type::OK) { VCHECK(false, "chain_init", "not initialised"); return; }
  VCHECK(c->is_chainable() && !c->is_in_chained_mode(), "chainable", "chainable " << c->is_chainable() << " chained " << c->is_in_chained_mode());
  std::string hist;
  bool chained = false;
  int st = 1;
  auto random_exports = [&](bool & bad)
  {
    std::vector<ExpIf> v;
    int n = static_cast<int>(r.range(0, 5));
    for (int k = 0; k < n; ++k)
    {
      ExpIf e;
      e.prefix = r.pick({"ctrl", "ctrl", "ctrl/joint1", "ctrl/joint2"});
      e.name = r.pick({"position", "velocity", "effort", "a", "b", "c", "d"});
      e.modern = r.chance(0.5);
      if (r.chance(0.04)) { e.prefix = r.pick({"other", "joint1", "xctrl", "/ctrl", "Ctrl", "ctr"}); }
      v.push_back(e);
    }
    if (n && r.chance(0.1)) v.push_back(v[r.below(v.size())]);
    std::set<std::string> s;
    for (auto & e : v)
    {
      if (e.prefix.rfind("ctrl", 0) != 0) bad = true;
      if (!s.insert(e.prefix + "/" + e.name).second) bad = true;
    }
    return v;
  };
  auto order = [](const std::vector<ExpIf> & v) { std::vector<std::string> o; for (int m = 0; m < 2; ++m) for (auto & e : v) if (e.modern == (m == 1)) o.push_back(e.prefix + "/" + e.name); return o; };
  std::vector<CommandInterface::SharedPtr> refs;
  std::vector<StateInterface::ConstSharedPtr> sts;
  bool exported = false;
  for (int step = 0; step < 40; ++step)
  {
    int what = static_cast<int>(r.below(14));
    auto ctx = [&] { return "history " + hist; };
    if (what < 3)
    {
      if (st == 3) continue;
      bool bad_r = false, bad_s = false;
      refs.clear();
      sts.clear();
      c->use_default = r.chance(0.1);
      c->refs = random_exports(bad_r);
      c->sts = random_exports(bad_s);
      if (c->use_default)
      {
        for (auto * v : {&c->refs, &c->sts}) v->erase(std::remove_if(v->begin(), v->end(), [](auto & e) { return !e.modern; }), v->end());
        bad_r = bad_s = false;
        std::set<std::string> s;
        for (auto & e : c->refs) if (e.prefix.rfind("ctrl", 0) != 0 || !s.insert(e.prefix + "/" + e.name).second) bad_r = true;
        s.clear();
        for (auto & e : c->sts) if (e.prefix.rfind("ctrl", 0) != 0 || !s.insert(e.prefix + "/" + e.name).second) bad_s = true;
      }
      c->resize = r.chance(0.08) && !c->use_default ? static_cast<int>(r.pick({1, 2})) : 0;
      if (c->resize) bad_r = true;
      hist += "export(";
      for (auto & e : c->refs) hist += e.prefix + "/" + e.name + (e.modern ? "+" : "-") + ",";
      hist += "|";
      for (auto & e : c->sts) hist += e.prefix + "/" + e.name + (e.modern ? "+" : "-") + ",";
      hist += ") ";
      bool threw = false;
      try { sts = c->export_state_interfaces(); } catch (const std::runtime_error &) { threw = true; }
      VCHECK(threw == bad_s, bad_s ? "wrong_export_accepted" : "export_refused", "state interfaces " << vh::join(order(c->sts)) << (threw ? " refused " : " accepted ") << ctx());
      if (!threw && !bad_s)
      {
        VCHECK(names(sts) == order(c->sts), "exported_states", "exported state interfaces " << vh::join(names(sts)) << " instead of " << vh::join(order(c->sts)) << " " << ctx());
        VCHECK(c->st_names() == order(c->sts) && names(c->ordered_sts()) == order(c->sts) && c->st_map().size() == c->sts.size(), "state_lists", "the controller's own lists differ: " << vh::join(c->st_names()) << " " << ctx());
        // what the controller stores is what the interface shows
        size_t k = 0, m = 0;
        for (auto & e : c->sts)
        {
          double v = r.uniform(-9, 9);
          size_t at = 0;
          auto o = order(c->sts);
          for (size_t q = 0; q < o.size(); ++q) if (o[q] == e.prefix + "/" + e.name) at = q;
          if (e.modern) (void)c->modern_sts[m++]->set_value(v); else c->st_store()[k++] = v;
          auto got = sts[at]->get_optional<double>();
          VCHECK(got && *got == v, "state_value", "state interface " << sts[at]->get_name() << " shows " << (got ? *got : -99) << " instead of " << v << " " << ctx());
          VCHECK(c->st_map().count(o[at]) && c->st_map()[o[at]].get() == sts[at].get(), "state_map", "another interface under the name " << o[at] << " " << ctx());
        }
      }
      vh::rec().count(bad_s ? "refused_exports" : "exports");
      threw = false;
      try { refs = c->export_reference_interfaces(); } catch (const std::runtime_error &) { threw = true; }
      VCHECK(threw == bad_r, bad_r ? "wrong_export_accepted" : "export_refused", "reference interfaces " << vh::join(order(c->refs)) << " (size error " << c->resize << ")" << (threw ? " refused " : " accepted ") << ctx());
      exported = !threw && !bad_r;
      if (exported)
      {
        VCHECK(names(refs) == order(c->refs), "exported_references", "exported references " << vh::join(names(refs)) << " instead of " << vh::join(order(c->refs)) << " " << ctx());
        VCHECK(c->ref_names() == order(c->refs) && names(c->ordered_refs()) == order(c->refs) && c->ref_map().size() == c->refs.size(), "reference_lists", "the controller's own lists differ: " << vh::join(c->ref_names()) << " " << ctx());
        for (size_t q = 0; q < refs.size(); ++q)
          VCHECK(c->ref_map().count(refs[q]->get_name()) && c->ref_map()[refs[q]->get_name()].get() == refs[q].get(), "reference_map", "another reference under the name " << refs[q]->get_name() << " " << ctx());
      }
      vh::rec().count(bad_r ? "refused_exports" : "exports");
    }
    else if (what < 6)
    {
      bool want = r.chance(0.5);
      c->chained_answer = r.chance(0.8) ? 0 : 1;
      c->mode_calls.clear();
      hist += std::string("chained(") + (want ? "1" : "0") + (c->chained_answer ? " refused" : "") + ")@" + sname(st) + " ";
      bool ok = c->set_chained_mode(want);
      bool expect = st != 3 && c->chained_answer == 0;
      VCHECK(ok == expect, "mode_answer", "the mode change is " << (ok ? "accepted" : "refused") << " " << ctx());
      VCHECK(c->mode_calls == (st == 3 ? std::vector<bool>{} : std::vector<bool>{want}), "mode_callback", c->mode_calls.size() << " callbacks for the mode change " << ctx());
      if (expect) chained = want;
      vh::rec().count(expect ? "modes_changed" : "modes_refused");
    }
    else if (what < 9)
    {
      int k = static_cast<int>(r.below(5));
      c->s.plan.clear();
      if (k == 0) { hist += "configure "; c->configure(); if (st == 1) st = 2; }
      else if (k < 3) { hist += "activate "; if (r.chance(0.1)) c->s.plan["activate"] = 1; c->get_node()->activate(); if (st == 2 && !c->s.plan.count("activate")) st = 3; }
      else if (k < 4) { hist += "deactivate "; c->get_node()->deactivate(); if (st == 3) st = 2; }
      else { if (!r.chance(0.3)) continue; hist += "cleanup "; c->get_node()->cleanup(); if (st == 2) st = 1; }
      VCHECK(c->get_lifecycle_id() == st, "chain_state", "state " << sname(c->get_lifecycle_id()) << " expected " << sname(st) << " " << ctx());
    }
    else
    {
      c->sub = r.chance(0.8) ? 0 : static_cast<int>(r.range(1, 2));
      c->wr = r.chance(0.8) ? 0 : static_cast<int>(r.range(1, 2));
      c->stages.clear();
      std::vector<double> vals;
      if (exported)
        for (auto & i : refs)
        {
          double v = r.uniform(-9, 9);
          VCHECK(i->set_value(v), "reference_write", "reference " << i->get_name() << " cannot be written " << ctx());
          vals.push_back(v);
        }
      int64_t t = static_cast<int64_t>(r.range(1, 1000000)), d = static_cast<int64_t>(r.range(1, 1000000));
      hist += "update(" + std::to_string(c->sub) + "," + std::to_string(c->wr) + ") ";
      bool threw = false;
      auto res = return_type::OK;
      bool via_trigger = r.chance(0.5);
      try
      {
        if (via_trigger) res = c->trigger_update(rclcpp::Time(t, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(d))).result;
        else res = c->update(rclcpp::Time(t, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(d)));
      }
      catch (const std::runtime_error &) { threw = true; }
      std::vector<std::string> want;
      int final = 0;
      if (!chained) { want.push_back("subscribers"); final = c->sub; }
      if (final == 0) { want.push_back("write"); final = c->wr; }
      VCHECK(c->stages == want, chained ? "stages_chained" : "stages", "stages " << vh::join(c->stages) << " expected " << vh::join(want) << (chained ? " in chained mode " : " ") << ctx());
      VCHECK(threw == (final == 2), "stage_throw", "exception " << threw << " " << ctx());
      if (!threw) VCHECK(res == (final == 0 ? return_type::OK : return_type::ERROR), "stage_result", "the cycle returns " << int(res) << " " << ctx());
      if (!want.empty()) VCHECK(c->st_time == t && c->st_period == d, "stage_arguments", "time " << c->st_time << " period " << c->st_period << " " << ctx());
      if (exported && c->stages.size() && c->stages.back() == "write")
      {
        size_t k = 0, m = 0;
        auto o = order(c->refs);
        for (auto & e : c->refs)
        {
          size_t at = 0;
          for (size_t q = 0; q < o.size(); ++q) if (o[q] == e.prefix + "/" + e.name) at = q;
          double got = e.modern ? c->modern_refs[m++]->get_optional<double>().value_or(-99) : c->seen.at(k++);
          VCHECK(got == vals[at], "reference_value", "the controller sees " << got << " for " << o[at] << " instead of " << vals[at] << " " << ctx());
          vh::rec().count("references_seen");
        }
      }
      vh::rec().count(chained ? "cycles_chained" : "cycles_unchained");
    }
    VCHECK(c->is_in_chained_mode() == chained, "mode", "chained mode " << c->is_in_chained_mode() << " expected " << chained << " " << ctx());
    vh::rec().distinct(std::to_string(st) + std::to_string(chained) + vh::join(c->stages) + std::to_string(c->sub) + std::to_string(c->wr) + vh::join(order(c->refs)));
    if (step == 39 && vh::rec().current() < 3) vh::rec().sample(ctx());
  }
}
}  // namespace
int main(int argc, char ** argv)
{
  return vh::run_cases(argc, argv, [](Rng & r, uint64_t, const vh::Args & a)
  {
    if (a.mode == "life") life_case(r);
    else if (a.mode == "async") async_stress(r);
    else if (a.mode == "id") id_stress(r);
    else if (a.mode == "chain") chain_case(r);
  });
}
