// C02: frame prefixes and bookkeeping helpers against small reference models.
#include "common.hpp"
#include "controller_interface/helpers.hpp"
#include "controller_interface/tf_prefix.hpp"
#include "hardware_interface/helpers.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
using namespace vh;

static std::string gen_name(Rng & r, size_t maxlen = 4)
{
  static const std::string al = "abcj1/_ ~";
  std::string s;
  size_t n = r.below(maxlen + 1);
  while (n--) s += al[r.below(al.size())];
  return s;
}

static void tf(Rng & r)
{
  std::string p, ns;
  switch (r.below(4))
  {
    case 0: p = ""; break;
    case 1: p = r.pick({std::string("~"), std::string("~/"), std::string("/~"), std::string("a~b"), std::string("~~"), std::string("/"), std::string("//"), std::string("a/"), std::string("/a/b"), std::string("~/x/"), std::string("a"), std::string("a~/~")}); break;
    default: p = gen_name(r, 6);
  }
  ns = r.pick({std::string("/"), std::string("/ns"), std::string("/a/b"), std::string("ns"), std::string("/~"), std::string(""), "/" + gen_name(r, 5)});
  // reference rule: empty stays empty; first '~' is the namespace; one trailing separator is ensured; one leading one dropped
  std::string w;
  if (!p.empty())
  {
    bool done = false;
    for (char c : p)
      if (c == '~' && !done) { w += ns; done = true; }
      else w += c;
    if (w.empty() || w[w.size() - 1] != '/') w += '/';
    if (w[0] == '/') w = w.substr(1);
  }
  std::string p0 = p, ns0 = ns;
  std::string g = controller_interface::resolve_tf_prefix(p, ns);
  VCHECK(g == w, "tf_prefix", "resolve_tf_prefix(\"" << p << "\",\"" << ns << "\") = \"" << g << "\", expected \"" << w << "\"");
  VCHECK(p == p0 && ns == ns0, "tf_prefix:args", "arguments changed");
  rec().distinct("tf" + p + "|" + ns);
  rec().count("tf");
}

template <class T> static T val(Rng & r);
template <> std::string val<std::string>(Rng & r) { return std::string(1, static_cast<char>('a' + r.below(6))) + (r.chance(0.3) ? "1" : ""); }
template <> int val<int>(Rng & r) { return static_cast<int>(r.below(9)); }

template <class T> static void lists(Rng & r)
{
  std::vector<T> v;
  std::map<T, int> m;
  std::unordered_map<T, int> um;
  size_t n = r.below(7);
  for (size_t i = 0; i < n; ++i)
  {
    T x = val<T>(r);
    if (r.chance(0.8)) { if (std::find(v.begin(), v.end(), x) == v.end() || r.chance(0.3)) v.push_back(x); }
    int k = static_cast<int>(r.below(100));
    m[x] = k; um[x] = k;
  }
  std::vector<T> ref = v;
  auto mref = m; auto umref = um;
  std::ostringstream hist;
  for (auto & x : v) hist << x << " ";
  for (int step = 0; step < 12; ++step)
  {
    T x = val<T>(r);
    const bool in = std::count(ref.begin(), ref.end(), x) > 0;
    std::vector<T> xs;
    size_t k = r.below(4);
    while (k--) xs.push_back(val<T>(r));
    auto ctx = [&](const char * f) { std::ostringstream o; o << f << " on {" << hist.str() << "} item " << x << " list {" << join(xs, " ") << "}"; return o.str(); };
    bool any = false, all = true, many = false, mall = true;
    for (auto & y : xs)
    {
      bool h = std::count(ref.begin(), ref.end(), y) > 0;
      any |= h; all &= h;
      many |= mref.count(y) > 0; mall &= mref.count(y) > 0;
    }
    VCHECK(ros2_control::has_item(v, x) == in, "has_item", ctx("has_item(vector)"));
    VCHECK(ros2_control::has_item(m, x) == (mref.count(x) > 0), "has_item:map", ctx("has_item(map)"));
    VCHECK(ros2_control::has_item(um, x) == (mref.count(x) > 0), "has_item:map", ctx("has_item(umap)"));
    VCHECK(ros2_control::has_any_item(v, xs) == any, "has_any_item", ctx("has_any_item(vector)"));
    VCHECK(ros2_control::has_all_items(v, xs) == all, "has_all_items", ctx("has_all_items(vector)"));
    VCHECK(ros2_control::has_any_item(m, xs) == many && ros2_control::has_any_item(um, xs) == many, "has_any_item:map", ctx("has_any_item(map)"));
    VCHECK(ros2_control::has_all_items(m, xs) == mall && ros2_control::has_all_items(um, xs) == mall, "has_all_items:map", ctx("has_all_items(map)"));
    auto it = ros2_control::get_item_iterator(v, x);
    VCHECK(in ? (it != v.cend() && *it == x && it - v.cbegin() == std::find(ref.begin(), ref.end(), x) - ref.begin()) : it == v.cend(), "get_item_iterator", ctx("get_item_iterator"));
    auto mit = ros2_control::get_item_iterator(m, x);
    VCHECK(mref.count(x) ? (mit != m.cend() && mit->first == x) : mit == m.cend(), "get_item_iterator:map", ctx("get_item_iterator(map)"));
    {
      auto s = ref;
      std::sort(s.begin(), s.end());
      bool uniq = std::adjacent_find(s.begin(), s.end()) == s.end();
      VCHECK(ros2_control::is_unique(v) == uniq, "is_unique", ctx("is_unique"));
    }
    switch (r.below(5))
    {
      case 0:
      case 1:
        ros2_control::add_item(v, x);
        if (!in) ref.push_back(x);
        hist << "+" << x << " ";
        break;
      case 2:
        ros2_control::add_items(v, xs);
        for (auto & y : xs) if (std::count(ref.begin(), ref.end(), y) == 0) ref.push_back(y);
        hist << "+{" << join(xs, " ") << "} ";
        break;
      default:
      {
        bool res = ros2_control::remove_item(v, x);
        VCHECK(res == in, "remove_item:result", ctx("remove_item"));
        auto p = std::find(ref.begin(), ref.end(), x);
        if (p != ref.end()) ref.erase(p);
        hist << "-" << x << " ";
      }
    }
    VCHECK(v == ref, "list:content", ctx("after last operation the list is {") << join(v, " ") << "} expected {" << join(ref, " ") << "}");
    VCHECK(m == mref && um == umref, "map:content", "a map was changed by a query");
    rec().count("list_steps");
  }
  rec().distinct(hist.str());
}

static void strips(Rng & r)
{
  std::string core = gen_name(r, 5);
  std::string ws = " \t\n\r\f\v";
  std::string s;
  size_t a = r.below(4), b = r.below(4);
  while (a--) s += ws[r.below(6)];
  s += core;
  while (b--) s += ws[r.below(6)];
  size_t i = 0, j = s.size();
  while (i < j && ws.find(s[i]) != std::string::npos) ++i;
  while (j > i && ws.find(s[j - 1]) != std::string::npos) --j;
  VCHECK(ros2_control::strip(s) == s.substr(i, j - i), "strip", "strip(\"" << esc(s) << "\") = \"" << esc(ros2_control::strip(s)) << "\"");
}

static void ordered(Rng & r)
{
  using hardware_interface::LoanedStateInterface;
  using hardware_interface::StateInterface;
  std::vector<std::pair<std::string, std::string>> names;
  std::vector<std::string> joints{"j1", "j10", "j1/position", "arm/j2", "p"};
  std::vector<std::string> types{"position", "velocity", "pos", "effort"};
  for (auto & j : joints)
    for (auto & t : types)
      if (r.chance(0.5)) names.push_back({j, t});
  r.shuffle(names);
  std::vector<StateInterface::ConstSharedPtr> hs;
  std::vector<LoanedStateInterface> loans;
  for (auto & n : names)
    hs.push_back(std::make_shared<StateInterface>(hardware_interface::InterfaceDescription(n.first, hardware_interface::InterfaceInfo(n.second, "double"))));
  loans.reserve(hs.size());
  for (auto & h : hs) loans.emplace_back(h);
  bool by_joint = r.chance(0.5);
  std::string type = by_joint ? r.pick(types) : "";
  std::vector<std::string> want;
  for (int k = static_cast<int>(r.below(5)); k > 0; --k)
  {
    std::string w = by_joint ? r.pick(joints) : r.pick(joints) + "/" + r.pick(types);
    if (std::find(want.begin(), want.end(), w) == want.end()) want.push_back(w);
  }
  std::vector<size_t> expect;
  bool all = true;
  for (auto & w : want)
  {
    size_t found = 0;
    for (size_t i = 0; i < names.size(); ++i)
    {
      std::string full = names[i].first + "/" + names[i].second;
      if (by_joint ? (w + "/" + type == full) : (w == full)) { expect.push_back(i); ++found; }
    }
    all &= found == 1;
  }
  std::vector<std::reference_wrapper<LoanedStateInterface>> out;
  bool small = r.chance(0.1) && want.size() > 0;
  out.reserve(small ? want.size() - 1 : want.size());
  small = out.capacity() < want.size();
  bool threw = false, res = false;
  try { res = controller_interface::get_ordered_interfaces(loans, want, type, out); }
  catch (const std::range_error &) { threw = true; }
  std::string ctx = "get_ordered_interfaces names {" + join(want, " ") + "} type '" + type + "'";
  VCHECK(threw == small, "ordered:capacity", ctx << (threw ? " threw" : " did not throw") << " with capacity " << out.capacity());
  if (threw) { VCHECK(out.empty(), "ordered:capacity", ctx << " filled the list before throwing"); return; }
  VCHECK(res == all, "ordered:result", ctx << " returned " << res << ", all found: " << all);
  bool eq = out.size() == expect.size();
  for (size_t i = 0; eq && i < out.size(); ++i) eq = &out[i].get() == &loans[expect[i]];
  VCHECK(eq, "ordered:content", ctx << " gave a wrong list of " << out.size() << " (expected " << expect.size() << ")");
  VCHECK(controller_interface::interface_list_contains_interface_type(want, "j1") == (std::find(want.begin(), want.end(), "j1") != want.end()), "contains_type", ctx);
  rec().distinct(ctx + std::to_string(hash_str(join(want))));
  rec().count("ordered");
}

static void one(Rng & r, uint64_t c, const Args &)
{
  for (int i = 0; i < 200; ++i) { tf(r); strips(r); }
  for (int i = 0; i < 30; ++i) { lists<std::string>(r); lists<int>(r); }
  for (int i = 0; i < 40; ++i) ordered(r);
  if (c < 3) { Rng q(c); rec().sample("case " + std::to_string(c) + ": 200 prefixes, 60 list histories of 12 operations, 40 orderings"); }
}
int main(int argc, char ** argv) { return run_cases(argc, argv, one); }
