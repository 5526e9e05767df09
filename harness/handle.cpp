// C11: handles and loans against a value model (sequential), and concurrent readers/writers (mode "stress", TSan).
#include <variant>
#include "common.hpp"
#include "hardware_interface/handle.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"

using namespace vh;
namespace hw = hardware_interface;
using Val = std::variant<double, float, bool, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t>;
static const std::vector<std::string> kTypes = {"double", "float32", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32"};

struct St : hw::StateInterface
{
  using hw::StateInterface::StateInterface;
};
static bool same(const Val & a, const Val & b)
{
  if (a.index() != b.index()) return false;
  if (auto x = std::get_if<double>(&a)) return same_bits(*x, std::get<double>(b));
  if (auto x = std::get_if<float>(&a)) { float y = std::get<float>(b); return std::memcmp(x, &y, 4) == 0 || (std::isnan(*x) && std::isnan(y)); }
  return a == b;
}
static std::string str(const Val & v)
{
  std::ostringstream o; o.precision(17);
  std::visit([&](auto x) { o << kTypes[v.index()] << ":" << +x; }, v);
  return o.str();
}
template <size_t I = 0> static Val rnd_as(Rng & g, size_t t)
{
  if constexpr (I < std::variant_size_v<Val>)
  {
    if (t == I)
    {
      using T = std::variant_alternative_t<I, Val>;
      if constexpr (std::is_same_v<T, bool>) return Val(std::in_place_index<I>, g.chance(.5));
      else if constexpr (std::is_floating_point_v<T>)
      {
        if (g.chance(.1)) return Val(std::in_place_index<I>, std::numeric_limits<T>::quiet_NaN());
        if (g.chance(.1)) return Val(std::in_place_index<I>, std::numeric_limits<T>::infinity());
        if (g.chance(.1)) return Val(std::in_place_index<I>, std::numeric_limits<T>::denorm_min());
        return Val(std::in_place_index<I>, static_cast<T>(g.uniform(-1e3, 1e3)));
      }
      else return Val(std::in_place_index<I>, g.chance(.3) ? (g.chance(.5) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) : static_cast<T>(g.next()));
    }
    return rnd_as<I + 1>(g, t);
  }
  return Val();
}
static Val initial(size_t t)
{
  switch (t)
  {
    case 0: return std::numeric_limits<double>::quiet_NaN();
    case 1: return std::numeric_limits<float>::quiet_NaN();
    case 2: return false;
    case 3: return std::numeric_limits<uint8_t>::max();
    case 4: return std::numeric_limits<int8_t>::max();
    case 5: return std::numeric_limits<uint16_t>::max();
    case 6: return std::numeric_limits<int16_t>::max();
    case 7: return std::numeric_limits<uint32_t>::max();
    default: return std::numeric_limits<int32_t>::max();
  }
}

struct Model
{
  bool live = false, zombie = false;  // zombie: moved from, only assign or destroy
  size_t type = 0;
  std::string prefix, iface;
  Val v;
  std::shared_ptr<double> ext;  // external storage
  Val get() const { return ext ? Val(*ext) : v; }
};

// H: handle class with uniform access
template <class H> struct Access
{
  template <class T> static std::optional<T> get(H & h, int how, bool & refused)
  {
    refused = false;
    if (how == 0) return h.template get_optional<T>();
    if (how == 1) { T x{}; if (h.get_value(x, false)) return x; return std::nullopt; }
    if (how == 2) { T x{}; if (h.get_value(x, true)) return x; return std::nullopt; }
    std::shared_lock<std::shared_mutex> l(h.get_mutex());
    return h.template get_optional<T>(l);
  }
  template <class T> static bool set(H & h, int how, const T & x)
  {
    if (how == 0) return h.set_value(x);
    if (how == 1) return h.set_value(x, false);
    if (how == 2) return h.set_value(x, true);
    std::unique_lock<std::shared_mutex> l(h.get_mutex());
    return h.set_value(l, x);
  }
};
template <class H, size_t I = 0> static bool set_any(H & h, int how, const Val & v)
{
  if constexpr (I < std::variant_size_v<Val>)
  {
    if (v.index() == I) return Access<H>::set(h, how, std::get<I>(v));
    return set_any<H, I + 1>(h, how, v);
  }
  return false;
}
template <class H, size_t I = 0> static std::optional<Val> get_any(H & h, int how, size_t t)
{
  if constexpr (I < std::variant_size_v<Val>)
  {
    if (t == I)
    {
      bool r;
      auto x = Access<H>::template get<std::variant_alternative_t<I, Val>>(h, how, r);
      if (!x) return std::nullopt;
      return Val(std::in_place_index<I>, *x);
    }
    return get_any<H, I + 1>(h, how, t);
  }
  return std::nullopt;
}
template <class L, size_t I = 0> static std::optional<Val> loan_get(L & h, size_t t, unsigned tries)
{
  if constexpr (I < std::variant_size_v<Val>)
  {
    if (t == I)
    {
      auto x = h.template get_optional<std::variant_alternative_t<I, Val>>(tries);
      if (!x) return std::nullopt;
      return Val(std::in_place_index<I>, *x);
    }
    return loan_get<L, I + 1>(h, t, tries);
  }
  return std::nullopt;
}
template <class L, size_t I = 0> static bool loan_set(L & h, const Val & v, unsigned tries)
{
  if constexpr (I < std::variant_size_v<Val>)
  {
    if (v.index() == I) return h.set_value(std::get<I>(v), tries);
    return loan_set<L, I + 1>(h, v, tries);
  }
  return false;
}

// C: 0 moves only, 1 also copy construction, 2 also assignments
template <class H, int C> static void sequential(Rng & g, const char * what)
{
  constexpr size_t N = 6;
  std::array<std::unique_ptr<H>, N> h;
  std::array<Model, N> m;
  std::ostringstream hist;
  auto fresh = [&](size_t i)
  {
    m[i] = Model();
    h[i].reset();
    m[i].prefix = g.pick({"joint1", "joint10", "", "a/b", "gpio"});
    m[i].iface = g.pick({"position", "velocity", "x", "position/y"});
    if (g.chance(.25))
    {
      m[i].ext = std::make_shared<double>(g.uniform(-5, 5));
      h[i] = std::make_unique<H>(m[i].prefix, m[i].iface, m[i].ext.get());
      m[i].live = true;
      return;
    }
    m[i].type = g.below(kTypes.size());
    m[i].v = initial(m[i].type);
    std::string text;
    bool bad = false;
    if (g.chance(.5))
    {
      Val v = rnd_as(g, m[i].type);
      bool printable = true;
      std::ostringstream o; o.precision(17);
      std::visit([&](auto x) {
        using T = decltype(x);
        if constexpr (std::is_same_v<T, bool>) o << (x ? "true" : "false");
        else if constexpr (std::is_floating_point_v<T>) { if (!(std::fabs(x) < 1e4 && (std::fabs(x) > 1e-6))) printable = false; o << x; }
        else o << +x;
      }, v);
      if (printable) { text = o.str(); m[i].v = v; }
      if (printable && g.chance(.12)) { text = g.pick({"abc", "1.0.0", "12x", "--1", "99999999999999999999"}); bad = true; }
      // a number that big is a valid double; a fraction is a valid float
      if (bad && m[i].type <= 1 && text[0] == '9') { bad = false; m[i].v = initial(m[i].type); if (m[i].type == 0) m[i].v = 99999999999999999999.; else m[i].v = 99999999999999999999.f; }
    }
    hw::InterfaceInfo info;
    info.name = m[i].iface;
    info.data_type = kTypes[m[i].type];
    info.initial_value = text;
    bool thrown = false;
    try
    {
      if (g.chance(.5)) h[i] = std::make_unique<H>(hw::InterfaceDescription(m[i].prefix, info));
      else h[i] = std::make_unique<H>(m[i].prefix, m[i].iface, kTypes[m[i].type], text);
    }
    catch (const std::exception &) { thrown = true; }
    VCHECK(thrown == bad, "construct", what << " type " << info.data_type << " initial '" << text << "' " << (thrown ? "refused" : "accepted"));
    m[i].live = h[i] != nullptr && !bad;
    if (!m[i].live) h[i].reset();
  };
  auto verify = [&](size_t i)
  {
    if (!m[i].live || m[i].zombie) return;
    H & x = *h[i];
    VCHECK(x.get_prefix_name() == m[i].prefix && x.get_interface_name() == m[i].iface && x.get_name() == m[i].prefix + "/" + m[i].iface, "name",
      what << " is called '" << x.get_name() << "' instead of '" << m[i].prefix + "/" + m[i].iface << "' after:" << hist.str());
    VCHECK(x.get_data_type().to_string() == kTypes[m[i].type], "type", what << " has type " << x.get_data_type().to_string() << " not " << kTypes[m[i].type] << " after:" << hist.str());
    VCHECK(x.is_valid(), "valid", what << " is not valid after:" << hist.str());
    auto r = get_any(x, static_cast<int>(g.below(4)), m[i].type);
    VCHECK(r && same(*r, m[i].get()), "value", what << " #" << i << " reads " << (r ? str(*r) : "nothing") << " instead of " << str(m[i].get()) << " after:" << hist.str());
    if (m[i].type == 2)
    {
      auto d = get_any(x, static_cast<int>(g.below(4)), 0);
      VCHECK(d && std::get<double>(*d) == (std::get<bool>(m[i].v) ? 1.0 : 0.0), "bool_as_double", what << " bool read as double " << (d ? str(*d) : "nothing"));
    }
  };
  for (size_t i = 0; i < N; ++i) if (g.chance(.8)) fresh(i);
  const int steps = static_cast<int>(g.range(10, 60));
  for (int s = 0; s < steps; ++s)
  {
    const size_t i = g.below(N), j = g.below(N);
    const bool ui = m[i].live && !m[i].zombie, uj = m[j].live && !m[j].zombie;
    const int op = static_cast<int>(g.below(10));
    switch (op)
    {
      case 0: if (g.chance(.4)) { fresh(i); hist << " new" << i; } break;
      case 1: if (g.chance(.4)) { h[i].reset(); m[i] = Model(); hist << " drop" << i; } break;
      case 2:  // copy / copy assign
        if constexpr (C >= 1)
        {
          if (!uj) break;
          bool assigned = false;
          if constexpr (C == 2)
            if (m[i].live && g.chance(.6)) { *h[i] = *h[j]; hist << " " << i << "=" << j; assigned = true; }
          if (assigned) {}
          else if (i != j) { h[i] = std::make_unique<H>(*h[j]); hist << " copy" << j << "to" << i; }
          else break;
          if (i != j) { m[i] = m[j]; }
          rec().count("copies");
        }
        break;
      case 3:
        if (!uj) break;
        if constexpr (C == 2)
        {
          if (m[i].live && g.chance(.6))
          {
            H & src = *h[j];
            *h[i] = std::move(src);
            hist << " " << i << "=move" << j;
            if (i != j) { Model t = m[j]; m[j].zombie = true; m[j].live = true; m[i] = t; }
            rec().count("moves");
            break;
          }
        }
        if (i != j)
        {
          h[i] = std::make_unique<H>(std::move(*h[j]));
          hist << " move" << j << "to" << i;
          m[i] = m[j];
          if (g.chance(.5)) { h[j].reset(); m[j] = Model(); hist << "(gone)"; }
          else m[j].zombie = true;
          rec().count("moves");
        }
        break;
      case 4:  // a growing vector of handles
        if (uj && g.chance(.5))
        {
          std::vector<H> v;
          const size_t k = static_cast<size_t>(g.range(1, 5));
          std::vector<Val> expect;
          for (size_t q = 0; q < k; ++q)
          {
            const size_t t = g.below(kTypes.size());
            v.emplace_back(std::to_string(q), "x", kTypes[t], "");
            Val x = rnd_as(g, t);
            VCHECK(set_any(v.back(), 0, x), "vector.set", "write to an idle handle failed");
            expect.push_back(x);
          }
          for (size_t q = 0; q < k; ++q)
          {
            auto r = get_any(v[q], 0, expect[q].index());
            VCHECK(r && same(*r, expect[q]), "vector.value", what << " in a growing vector reads " << (r ? str(*r) : "nothing") << " instead of " << str(expect[q]));
          }
        }
        break;
      case 5: case 6: case 7:
        if (ui)
        {
          const bool right = g.chance(.75);
          size_t t = m[i].type;
          if (!right) { t = g.below(kTypes.size()); if (t == m[i].type) break; }
          const Val v = rnd_as(g, t);
          bool ok = false, thrown = false;
          try { ok = set_any(*h[i], static_cast<int>(g.below(4)), v); }
          catch (const std::exception &) { thrown = true; }
          hist << " set" << i << "(" << str(v) << ")";
          if (right)
          {
            VCHECK(ok && !thrown, "set.refused", what << " idle but write refused;" << hist.str());
            if (m[i].ext) *m[i].ext = std::get<double>(v);
            else m[i].v = v;
            rec().count("writes");
          }
          else { VCHECK(thrown, "set.wrong_type", what << " of type " << kTypes[m[i].type] << " took a " << kTypes[t]); rec().count("mistyped"); }
          // aliasing copies of external storage see the same value, nothing else changes
        }
        break;
      case 8:
        if (ui)
        {
          size_t t = g.below(kTypes.size());
          if (t == m[i].type || (t == 0 && m[i].type == 2)) break;
          bool thrown = false;
          std::optional<Val> r;
          try { r = get_any(*h[i], static_cast<int>(g.below(4)), t); }
          catch (const std::exception &) { thrown = true; }
          VCHECK(thrown, "get.wrong_type", what << " of type " << kTypes[m[i].type] << " read as " << kTypes[t] << " -> " << (r ? str(*r) : "nothing"));
          rec().count("mistyped");
        }
        break;
      default:
        if (ui)
        {
          // held by somebody else: nothing may be read or written (non-blocking calls)
          const bool excl = g.chance(.6);
          std::atomic<int> phase{0};
          std::thread t([&]
          {
            if (excl) { std::unique_lock<std::shared_mutex> l(h[i]->get_mutex()); phase = 1; while (phase == 1) std::this_thread::yield(); }
            else { std::shared_lock<std::shared_mutex> l(h[i]->get_mutex()); phase = 1; while (phase == 1) std::this_thread::yield(); }
          });
          while (phase == 0) std::this_thread::yield();
          const Val v = rnd_as(g, m[i].type);
          const int how = static_cast<int>(g.below(2));
          const bool ok = set_any(*h[i], how, v);
          VCHECK(!ok, "busy.set", what << " was written while locked");
          auto r = get_any(*h[i], how, m[i].type);
          if (excl) VCHECK(!r, "busy.get", what << " was read while locked exclusively");
          else VCHECK(r && same(*r, m[i].get()), "busy.shared", what << " not readable next to another reader");
          phase = 2;
          t.join();
          rec().count("busy");
        }
        break;
    }
    for (size_t k = 0; k < N; ++k) verify(k);
  }
  rec().distinct(hist.str());
  rec().sample(std::string(what) + hist.str());
}

static void loans(Rng & g)
{
  // loans: value, names, limiter, retries, deleter
  const size_t t = g.below(kTypes.size());
  auto ci = std::make_shared<hw::CommandInterface>("joint1", "position", kTypes[t], "");
  auto si = std::make_shared<hw::StateInterface>("joint1", "velocity", kTypes[t], "");
  int deleted = 0, sdeleted = 0;
  Val cur = initial(t), scur = initial(t);
  double lo = -10, hi = 10;
  const bool lim = g.chance(.5);
  if (lim)
    ci->set_on_set_command_limiter([&](double v, bool & l) { l = v < lo || v > hi; return std::isnan(v) ? v : std::clamp(v, lo, hi); });
  {
    std::vector<hw::LoanedCommandInterface> v;
    v.emplace_back(ci, [&] { ++deleted; });
    std::vector<hw::LoanedStateInterface> sv;
    sv.emplace_back(si, [&] { ++sdeleted; });
    for (int s = 0; s < 30; ++s)
    {
      auto & c = v.back();
      auto & st = sv.back();
      VCHECK(c.get_name() == "joint1/position" && c.get_interface_name() == "position" && c.get_prefix_name() == "joint1" && c.get_data_type().to_string() == kTypes[t], "loan.name", c.get_name());
      VCHECK(st.get_name() == "joint1/velocity" && st.get_interface_name() == "velocity" && st.get_prefix_name() == "joint1" && st.get_data_type().to_string() == kTypes[t], "loan.name", st.get_name());
      const unsigned tries = g.pick({1u, 1u, 10u, 3u});
      switch (g.below(6))
      {
        case 0: case 1:
        {
          const Val x = rnd_as(g, t);
          VCHECK(loan_set(c, x, tries), "loan.set", "refused on an idle interface");
          cur = x;
          if (lim && t == 0)
          {
            const double d = std::get<double>(x);
            cur = std::isnan(d) ? d : std::clamp(d, lo, hi);
            VCHECK(ci->is_limited() == (d < lo || d > hi), "loan.limited_flag", "is_limited() = " << ci->is_limited() << " for " << d);
          }
          break;
        }
        case 2: { scur = rnd_as(g, t); VCHECK(set_any(*si, 0, scur), "loan.state_set", "refused"); break; }
        case 3:
        {
          size_t w = g.below(kTypes.size());
          if (w == t) break;
          bool thrown = false;
          try { (void)loan_set(c, rnd_as(g, w), tries); } catch (const std::exception &) { thrown = true; }
          VCHECK(thrown, "loan.set_wrong_type", "loan of type " << kTypes[t] << " took " << kTypes[w]);
          if (w == 0 && t == 2) break;
          thrown = false;
          try { (void)loan_get(st, w, tries); } catch (const std::exception &) { thrown = true; }
          VCHECK(thrown, "loan.get_wrong_type", "loan of type " << kTypes[t] << " read as " << kTypes[w]);
          break;
        }
        case 4:
        {
          std::atomic<int> phase{0};
          std::thread th([&] { std::unique_lock<std::shared_mutex> a(ci->get_mutex()), b(si->get_mutex()); phase = 1; while (phase == 1) std::this_thread::yield(); });
          while (phase == 0) std::this_thread::yield();
          VCHECK(!loan_set(c, rnd_as(g, t), tries), "loan.busy_set", "reported success while the interface was locked");
          VCHECK(!loan_get(c, t, tries) && !loan_get(st, t, tries), "loan.busy_get", "value returned while the interface was locked");
          phase = 2;
          th.join();
          rec().count("busy");
          break;
        }
        default: break;
      }
      // the loan object moves around, the loan does not end
      if (g.chance(.2)) { auto x = std::move(v.back()); std::vector<hw::LoanedCommandInterface> w; w.emplace_back(std::move(x)); v.swap(w); }
      auto r = loan_get(v.back(), t, tries);
      VCHECK(r && same(*r, cur), "loan.value", "command loan reads " << (r ? str(*r) : "nothing") << " instead of " << str(cur));
      auto q = loan_get(sv.back(), t, tries);
      VCHECK(q && same(*q, scur), "loan.state_value", "state loan reads " << (q ? str(*q) : "nothing") << " instead of " << str(scur));
      auto direct = get_any(*ci, 0, t);
      VCHECK(direct && same(*direct, cur), "loan.behind", "interface holds " << (direct ? str(*direct) : "nothing") << " instead of " << str(cur));
      rec().count("loans");
    }
  }
  VCHECK(deleted == 1 && sdeleted == 1, "loan.deleter", "deleter ran " << deleted << " and " << sdeleted << " times");
}

// concurrent: values carry (writer, sequence number); every read is a written value and never goes back per writer
template <class H, class T> static void race(Rng & g, H & w, int nwriters, int nreaders, const std::function<T(int, int)> & enc, const std::function<bool(T, int &, int &)> & dec, const char * what)
{
  const int ops = 400;
  std::atomic<bool> go{false};
  std::atomic<uint64_t> reads{0}, misses{0}, writes{0}, refused{0};
  std::vector<std::thread> th;
  std::vector<std::string> bad(static_cast<size_t>(nwriters + nreaders));
  std::vector<uint64_t> seeds;
  for (int i = 0; i < nwriters + nreaders; ++i) seeds.push_back(g.next());
  std::vector<std::atomic<int>> done(static_cast<size_t>(nwriters));  // last sequence number known to be stored
  for (auto & d : done) d = -1;
  for (int i = 0; i < nwriters; ++i)
    th.emplace_back([&, i]
    {
      Rng r(seeds[static_cast<size_t>(i)]);
      while (!go) {}
      for (int k = 0; k < ops; ++k)
      {
        const T v = enc(i, k);
        bool ok = false;
        switch (r.below(3))
        {
          case 0: ok = w.set_value(v); break;
          case 1: ok = w.set_value(v, false); break;
          default: ok = w.set_value(v, true); if (!ok) bad[static_cast<size_t>(i)] = "a waiting write failed";
        }
        if (ok) { writes++; done[static_cast<size_t>(i)] = k; } else refused++;
        if (ok && nwriters == 1)
        {
          T x{};
          if (!w.get_value(x, true) || std::memcmp(&x, &v, sizeof v)) bad[static_cast<size_t>(i)] = "own write not read back";
        }
        if (r.chance(.1)) std::this_thread::yield();
      }
    });
  for (int i = 0; i < nreaders; ++i)
    th.emplace_back([&, i]
    {
      const size_t id = static_cast<size_t>(nwriters + i);
      Rng r(seeds[id]);
      std::vector<int> last(static_cast<size_t>(nwriters), -1);
      while (!go) {}
      for (int k = 0; k < 2 * ops; ++k)
      {
        std::optional<T> v;
        T x{};
        const int before = nwriters == 1 ? done[0].load() : -1;
        switch (r.below(3))
        {
          case 0: v = w.template get_optional<T>(); break;
          case 1: if (w.get_value(x, false)) v = x; break;
          default: if (w.get_value(x, true)) v = x; else bad[id] = "a waiting read failed";
        }
        if (!v) { misses++; continue; }
        reads++;
        int wi = -1, seq = -1;
        if (!dec(*v, wi, seq)) { bad[id] = "a value that nobody wrote"; break; }
        if (wi < 0) { if (before >= 0) bad[id] = "the initial value again after writes"; continue; }
        if (seq < last[static_cast<size_t>(wi)]) { bad[id] = "an older value after a newer one of the same writer"; break; }
        if (nwriters == 1 && seq < before) { bad[id] = "an overwritten value"; break; }
        last[static_cast<size_t>(wi)] = seq;
      }
    });
  go = true;
  for (auto & t : th) t.join();
  for (auto & b : bad) VCHECK(b.empty(), "race", what << ": " << b);
  rec().count("concurrent_reads", reads);
  rec().count("concurrent_writes", writes);
  rec().count("read_misses", misses);
  rec().count("write_refusals", refused);
  rec().distinct(std::string(what) + std::to_string(reads) + "," + std::to_string(writes) + "," + std::to_string(misses));
}

static void stress(Rng & g)
{
  const int nw = static_cast<int>(g.range(1, 3)), nr = static_cast<int>(g.range(1, 4));
  {
    hw::CommandInterface c("j", "position", "double", "");
    race<hw::CommandInterface, double>(g, c, nw, nr, [](int w, int k) { return w * 100000. + k + .5; },
      [&](double v, int & w, int & k) { if (std::isnan(v)) return true; w = static_cast<int>(v) / 100000; k = static_cast<int>(v) % 100000; return v >= 0 && v - std::floor(v) == .5 && w < nw && k < 400; }, "double");
  }
  {
    double ext = 0.25;
    hw::StateInterface s("j", "position", &ext);
    race<hw::StateInterface, double>(g, s, nw, nr, [](int w, int k) { return w * 100000. + k + .5; },
      [&](double v, int & w, int & k) { if (v == .25) return true; w = static_cast<int>(v) / 100000; k = static_cast<int>(v) % 100000; return v >= 0 && v - std::floor(v) == .5 && w < nw && k < 400; }, "double*");
  }
  {
    hw::StateInterface s("j", "mode", "uint32", "4294967295");
    race<hw::StateInterface, uint32_t>(g, s, nw, nr, [](int w, int k) { return static_cast<uint32_t>(w * 100000 + k); },
      [&](uint32_t v, int & w, int & k) { if (v == 4294967295u) return true; w = static_cast<int>(v / 100000); k = static_cast<int>(v % 100000); return w < nw && k < 400; }, "uint32");
  }
  {
    // a bool interface read as bool and as number by several readers
    hw::CommandInterface b("g", "on", "bool", "");
    std::atomic<bool> stop{false};
    std::vector<std::thread> th;
    std::atomic<uint64_t> wrong{0}, n{0};
    for (int i = 0; i < 3; ++i)
      th.emplace_back([&] { while (!stop) { if (auto v = b.get_optional()) { n++; if (*v != 0. && *v != 1.) wrong++; } double d; if (b.get_value(d, false) && d != 0. && d != 1.) wrong++; } });
    for (int k = 0; k < 200; ++k) { (void)b.set_value(k % 2 == 0, true); std::this_thread::yield(); }
    stop = true;
    for (auto & t : th) t.join();
    VCHECK(wrong == 0, "race.bool", "a bool read as " << wrong << " other values");
    rec().count("concurrent_reads", n);
  }
  {
    // state and command loans used from different threads, one loan each
    auto ci = std::make_shared<hw::CommandInterface>("j", "effort", "double", "0.5");
    std::shared_ptr<const hw::StateInterface> si;
    auto sm = std::make_shared<hw::StateInterface>("j", "effort", "double", "0.5");
    si = sm;
    std::atomic<bool> bad{false};
    std::thread writer([&] { hw::LoanedCommandInterface l(ci); for (int k = 0; k < 300; ++k) { if (l.set_value(k + .5)) { auto r = l.get_optional(); if (r && *r != k + .5) bad = true; } } });
    std::thread hardware([&] { double last = -1; for (int k = 0; k < 300; ++k) { auto v = ci->get_optional(); if (v) { if (*v < last) bad = true; last = *v; (void)sm->set_value(*v); } } });
    std::vector<std::thread> rd;
    for (int i = 0; i < 2; ++i)
      rd.emplace_back([&] { hw::LoanedStateInterface l(si); double last = -1; for (int k = 0; k < 300; ++k) { auto v = l.get_optional(); if (v) { if (*v < last || *v - std::floor(*v) != .5) bad = true; last = *v; } } });
    writer.join(); hardware.join();
    for (auto & t : rd) t.join();
    VCHECK(!bad, "race.loans", "values went back or were never written");
    rec().count("loan_races");
  }
}

int main(int argc, char ** argv)
{
  return run_cases(argc, argv, [](Rng & g, uint64_t, const Args & a)
  {
    if (a.mode == "stress") { stress(g); return; }
    sequential<hw::StateInterface, 1>(g, "state interface");
    sequential<hw::Handle, 2>(g, "handle");
    sequential<hw::CommandInterface, 0>(g, "command interface");
    loans(g);
  });
}
