// C01: text-to-value conversions judged against an independent grammar + arbitrary precision style reference.
#include <locale.h>
#include <unistd.h>
#include <climits>
#include "common.hpp"
#include "hardware_interface/lexical_casts.hpp"

using namespace vh;
namespace hi = hardware_interface;

static bool is_space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
static bool dig(char c) { return c >= '0' && c <= '9'; }

// documented grammar of a real number: optional sign, digits with optional fraction, optional exponent
static bool real_grammar(const std::string & s, bool & nonzero)
{
  size_t i = 0, n = s.size();
  nonzero = false;
  if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
  size_t d = 0;
  while (i < n && dig(s[i])) { nonzero |= s[i] != '0'; ++i; ++d; }
  if (i < n && s[i] == '.')
  {
    ++i;
    while (i < n && dig(s[i])) { nonzero |= s[i] != '0'; ++i; ++d; }
  }
  if (!d) return false;
  if (i < n && (s[i] == 'e' || s[i] == 'E'))
  {
    ++i;
    if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
    size_t e = 0;
    while (i < n && dig(s[i])) { ++i; ++e; }
    if (!e) return false;
  }
  return i == n;
}
static locale_t cloc() { static locale_t l = newlocale(LC_ALL_MASK, "C", nullptr); return l; }

template <class F> struct Ref { bool value = false; F v = 0; bool either = false; };
template <class F> Ref<F> ref_real(const std::string & s)
{
  Ref<F> r;
  bool nz;
  if (!real_grammar(s, nz)) return r;
  F v;
  if constexpr (std::is_same_v<F, double>) v = strtod_l(s.c_str(), nullptr, cloc());
  else v = strtof_l(s.c_str(), nullptr, cloc());
  if (!std::isfinite(v)) return r;
  // a non-zero text whose value underflows may be refused as out of range
  r.either = nz && (v == 0 || std::fabs(v) < std::numeric_limits<F>::min());
  r.value = true;
  r.v = v;
  return r;
}

enum class Out { value, invalid, range, other };
static const char * name(Out o) { return o == Out::value ? "value" : o == Out::invalid ? "invalid_argument" : o == Out::range ? "out_of_range" : "other exception"; }
template <class R, class Fn> Out call(Fn f, R & r)
{
  try { r = f(); return Out::value; }
  catch (const std::invalid_argument &) { return Out::invalid; }
  catch (const std::out_of_range &) { return Out::range; }
  catch (...) { return Out::other; }
}

template <class F> void check_real(const char * fn, F (*f)(const std::string &), const std::string & s)
{
  auto r = ref_real<F>(s);
  F got = 0;
  Out o = call(std::function<F()>([&] { return f(s); }), got);
  if (!r.value) VCHECK(o == Out::invalid, std::string(fn) + ":accepted", fn << "(\"" << s << "\") gave " << name(o) << " " << got << ", the text denotes no finite number");
  else if (o == Out::value)
  {
    VCHECK(same_bits(got, r.v), std::string(fn) + ":value", fn << "(\"" << s << "\") gave " << got << ", expected " << r.v);
    rec().distinct(std::string(fn) + num(got));
  }
  else VCHECK(r.either && o == Out::invalid, std::string(fn) + ":refused", fn << "(\"" << s << "\") was refused with " << name(o) << ", it denotes " << r.v);
  rec().count(std::string(fn) + (o == Out::value ? ".value" : ".refused"));
}

// integers: optional leading white space (accepted by the C library) is tolerated either way
template <class T> void check_int(const char * fn, T (*f)(const std::string &), const std::string & s)
{
  size_t i = 0;
  while (i < s.size() && is_space(s[i])) ++i;
  const bool lead = i > 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  size_t d0 = i;
  __int128 v = 0;
  bool big = false;
  while (i < s.size() && dig(s[i]))
  {
    v = v * 10 + (s[i] - '0');
    if (v > (static_cast<__int128>(1) << 80)) { big = true; v = static_cast<__int128>(1) << 80; }
    ++i;
  }
  const bool ok = i > d0 && i == s.size();
  const bool some = i > d0;
  if (neg) v = -v;
  T got = 0;
  Out o = call(std::function<T()>([&] { return f(s); }), got);
  const bool inr = !big && v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max();
  if (!ok)
    // a malformed text is refused; which of the two kinds depends on whether its leading number overflows
    VCHECK(o == Out::invalid || (o == Out::range && some && !inr), std::string(fn) + ":accepted", fn << "(\"" << s << "\") gave " << name(o) << " " << +got << ", not an integer");
  else if (!inr)
    VCHECK(o == Out::range || (lead && o == Out::invalid), std::string(fn) + ":range", fn << "(\"" << s << "\") gave " << name(o) << " " << +got << ", out of range expected");
  else if (o == Out::value)
  {
    VCHECK(static_cast<__int128>(got) == v, std::string(fn) + ":value", fn << "(\"" << s << "\") gave " << +got);
    rec().distinct(std::string(fn) + std::to_string(got));
  }
  else
    VCHECK(lead && o == Out::invalid, std::string(fn) + ":refused", fn << "(\"" << s << "\") refused with " << name(o));
  rec().count(std::string(fn) + (o == Out::value ? ".value" : ".refused"));
}

static std::string lower_ascii(std::string s) { for (char & c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
static void check_bool(const std::string & s)
{
  const std::string l = lower_ascii(s);
  bool got = false;
  Out o = call(std::function<bool()>([&] { return hi::parse_bool(s); }), got);
  if (l == "true" || l == "false") VCHECK(o == Out::value && got == (l == "true"), "parse_bool:value", "parse_bool(\"" << s << "\") gave " << name(o) << " " << got);
  else VCHECK(o == Out::invalid, "parse_bool:accepted", "parse_bool(\"" << s << "\") gave " << name(o) << " " << got);
  // lower casing maps ASCII letters and leaves the length alone
  const std::string lc = hi::to_lower_case(s);
  bool same = lc.size() == s.size();
  for (size_t i = 0; same && i < s.size(); ++i)
    if (static_cast<unsigned char>(s[i]) < 0x80) same = lc[i] == l[i];
  VCHECK(same, "to_lower_case", "to_lower_case(\"" << s << "\") gave \"" << lc << "\"");
}

// flat array: '[' elements separated by ',' each surrounded by optional white space ']'
static bool split_array(const std::string & s, std::vector<std::string> & e)
{
  e.clear();
  if (s.size() < 2 || s.front() != '[' || s.back() != ']') return false;
  std::string cur;
  std::vector<std::string> raw;
  for (size_t i = 1; i + 1 < s.size(); ++i)
  {
    if (s[i] == '[' || s[i] == ']') return false;
    if (s[i] == ',') { raw.push_back(cur); cur.clear(); }
    else cur += s[i];
  }
  raw.push_back(cur);
  bool first_only_blank = raw.size() == 1;
  for (auto & r : raw)
  {
    size_t a = 0, b = r.size();
    while (a < b && is_space(r[a])) ++a;
    while (b > a && is_space(r[b - 1])) --b;
    std::string t = r.substr(a, b - a);
    if (t.empty()) { if (first_only_blank) return true; return false; }
    for (char c : t) if (is_space(c)) return false;
    e.push_back(t);
  }
  return true;
}
template <class T> void check_array(const char * fn, const std::string & s)
{
  std::vector<std::string> e;
  bool ok = split_array(s, e), either = false;
  std::vector<T> want;
  if (ok)
    for (auto & x : e)
    {
      if constexpr (std::is_same_v<T, std::string>) want.push_back(x);
      else if constexpr (std::is_same_v<T, bool>)
      {
        auto l = lower_ascii(x);
        if (l != "true" && l != "false") { ok = false; break; }
        want.push_back(l == "true");
      }
      else
      {
        auto r = ref_real<double>(x);
        if (!r.value) { ok = false; break; }
        either |= r.either;
        if constexpr (std::is_integral_v<T>)
        {
          if (r.v != std::trunc(r.v) || r.v < static_cast<double>(std::numeric_limits<T>::min()) || r.v >= std::ldexp(1.0, std::numeric_limits<T>::digits)) { ok = false; break; }
        }
        else if constexpr (std::is_same_v<T, float>)
        {
          if (std::fabs(r.v) > std::numeric_limits<float>::max()) { either = true; break; }
        }
        want.push_back(static_cast<T>(r.v));
      }
    }
  std::vector<T> got;
  Out o = call(std::function<std::vector<T>()>([&] { return hi::parse_array<T>(s); }), got);
  auto shorts = s.substr(0, 200);
  if (!ok) VCHECK(o == Out::invalid, std::string(fn) + ":accepted", fn << "(\"" << shorts << "\") gave " << name(o) << " with " << got.size() << " elements");
  else if (o == Out::value)
  {
    bool eq = got.size() == want.size() || either;
    for (size_t i = 0; eq && !either && i < got.size(); ++i)
    {
      if constexpr (std::is_same_v<T, double>) eq = same_bits(got[i], want[i]);
      else eq = got[i] == want[i];
    }
    VCHECK(eq, std::string(fn) + ":value", fn << "(\"" << shorts << "\") gave " << got.size() << " elements, expected " << want.size());
    rec().distinct(std::string(fn) + s.substr(0, 100));
  }
  else VCHECK(either && o == Out::invalid, std::string(fn) + ":refused", fn << "(\"" << shorts << "\") refused with " << name(o));
  rec().count(std::string(fn) + (o == Out::value ? ".value" : ".refused"));
}

static std::string gen_real(Rng & r)
{
  char b[128];
  double d;
  switch (r.below(6))
  {
    case 0: { uint64_t u = r.next(); std::memcpy(&d, &u, 8); if (!std::isfinite(d)) d = 1.5; break; }
    case 1: d = static_cast<double>(r.range(-1000000, 1000000)) / static_cast<double>(r.pick({1, 10, 100, 1000, 3, 7})); break;
    case 2: d = r.pick({0.0, -0.0, 1.0, -1.0, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, FLT_MAX * 1.0, FLT_MIN * 1.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9007199254740993.0, 3.4028235e38, 3.5e38}); break;
    case 3: d = std::ldexp(r.uniform(-1, 1), static_cast<int>(r.range(-1074, 1024))); break;
    case 4: { float f; uint32_t u = static_cast<uint32_t>(r.next()); std::memcpy(&f, &u, 4); d = std::isfinite(f) ? f : 2.5; break; }
    default: d = static_cast<double>(r.range(-300, 300));
  }
  const char * fmts[] = {"%.17g", "%.9g", "%g", "%e", "%.3f", "%.20e", "%.0f", "%+.17g", "%+g", "%G"};
  const char * f = fmts[r.below(10)];
  if (std::fabs(d) > 1e60 && (std::string(f) == "%.3f" || std::string(f) == "%.0f")) f = "%.17g";
  std::snprintf(b, sizeof b, f, d);
  std::string s = b;
  // the harness may run under a comma locale: printed form is always the C one
  for (char & c : s) if (c == ',') c = '.';
  return s;
}
static std::string gen_int(Rng & r)
{
  static const std::vector<std::string> edge{"0", "-0", "+0", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "-18446744073709551616", "-18446744073709551361", "-18446744073709486081", "-18446744069414584321", "-1", "+1", "007", "0x10", "1e2", "12.", "1.0", "99999999999999999999999999", "-99999999999999999999999999", "4294967297", "-4294967297"};
  switch (r.below(4))
  {
    case 0: return r.pick(edge);
    case 1: return std::to_string(r.range(-300, 300));
    case 2: return std::to_string(static_cast<int64_t>(r.next() >> r.below(64)));
    default: return (r.chance(0.3) ? "-" : r.chance(0.2) ? "+" : "") + std::to_string(r.next() >> r.below(64));
  }
}
static std::string mutate(Rng & r, std::string s)
{
  static const std::string alphabet = "0123456789+-.eE ,[]xXnaifNFINtruefalsTRUE\t\n\v_'\"";
  int n = static_cast<int>(r.range(1, 3));
  while (n--)
  {
    size_t p = r.below(s.size() + 1);
    switch (r.below(6))
    {
      case 0: s.insert(p, 1, alphabet[r.below(alphabet.size())]); break;
      case 1: if (p < s.size()) s.erase(p, 1); break;
      case 2: if (p < s.size()) s[p] = alphabet[r.below(alphabet.size())]; break;
      case 3: s = s.substr(0, p); break;
      case 4: s.insert(p, 1, static_cast<char>(r.next())); break;
      default: s += s.substr(p); break;
    }
  }
  return s;
}
static std::string gen_elem(Rng & r, int kind)
{
  switch (kind)
  {
    case 0: return gen_real(r);
    case 1: return r.chance(0.7) ? std::to_string(r.range(-50, 50)) : gen_int(r);
    case 2: { std::string s = r.chance(0.5) ? "true" : "false"; for (char & c : s) if (r.chance(0.3)) c = static_cast<char>(std::toupper(c)); return s; }
    default: { std::string s; int n = static_cast<int>(r.range(1, 8)); while (n--) s += "abcXYZ_/09.-"[r.below(12)]; return s; }
  }
}

struct Comma : std::numpunct<char>
{
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};

static void set_locale(bool foreign, const Args & a)
{
  static bool built = false, have = false;
  if (!built)
  {
    built = true;
    std::string dir = a.out == "/dev/null" ? "/tmp" : a.out.substr(0, a.out.rfind('/'));
    std::string loc = dir + "/loc" + std::to_string(a.shard) + "_" + std::to_string(getpid());
    std::string cmd = "mkdir -p " + loc + " && localedef -f UTF-8 -i de_DE " + loc + "/de_DE.UTF-8 >/dev/null 2>&1";
    have = std::system(cmd.c_str()) == 0;
    setenv("LOCPATH", loc.c_str(), 1);
    have = have && std::setlocale(LC_ALL, "de_DE.UTF-8") != nullptr;
  }
  if (foreign)
  {
    if (have) { std::setlocale(LC_ALL, "de_DE.UTF-8"); rec().count("c_locale_with_comma"); }
    std::locale::global(std::locale(std::locale(), new Comma));
    rec().count("cpp_locale_with_comma");
  }
  else
  {
    std::locale::global(std::locale::classic());
    std::setlocale(LC_ALL, "C");
  }
}

static void one(Rng & r, uint64_t c, const Args & a)
{
  set_locale(c & 1, a);
  for (int i = 0; i < 400; ++i)
  {
    std::string s;
    switch (r.below(5))
    {
      case 0: s = gen_real(r); break;
      case 1: s = gen_int(r); break;
      case 2: s = mutate(r, gen_real(r)); break;
      case 3: s = mutate(r, gen_int(r)); break;
      default: s = r.pick({std::string("nan"), std::string("inf"), std::string("-inf"), std::string("+inf"), std::string("infinity"), std::string("NaN"), std::string("0x1p3"), std::string(""), std::string(" "), std::string("+"), std::string("-"), std::string("."), std::string("e5"), std::string("1e"), std::string("1e+"), std::string(".5"), std::string("5."), std::string("+-1"), std::string("-+1"), std::string("--1"), std::string("++1"), std::string("1,5"), std::string("1.000,5"), std::string(" 1"), std::string("1 "), std::string("1\0", 2), std::string("1.5f"), std::string("1d"), std::string("1.234.567"), std::string("1e400"), std::string("-1e400"), std::string("1e-400"), std::string("3.5e38"), std::string("1_000"), std::string("1'000")});
    }
    check_real<double>("stod", hi::stod, s);
    check_real<float>("stof", hi::stof, s);
    check_int<int8_t>("stoi8", hi::stoi8, s);
    check_int<int16_t>("stoi16", hi::stoi16, s);
    check_int<int32_t>("stoi32", hi::stoi32, s);
    check_int<uint8_t>("stoui8", hi::stoui8, s);
    check_int<uint16_t>("stoui16", hi::stoui16, s);
    check_int<uint32_t>("stoui32", hi::stoui32, s);
    if (c == 0 && i < 3) rec().sample("convert \"" + s + "\"");
  }
  // printed form of a finite value converts back to it
  for (int i = 0; i < 200; ++i)
  {
    uint64_t u = r.next();
    double d; std::memcpy(&d, &u, 8);
    float f; uint32_t w = static_cast<uint32_t>(r.next()); std::memcpy(&f, &w, 4);
    auto back = [&](auto v, auto fn, const char * nm)
    {
      char b[400];
      locale_t old = uselocale(cloc());
      std::snprintf(b, sizeof b, "%.*g", std::numeric_limits<decltype(v)>::max_digits10, static_cast<double>(v));
      uselocale(old);
      decltype(v) got = 0;
      Out o = call(std::function<decltype(v)()>([&] { return fn(b); }), got);
      VCHECK(o == Out::value && same_bits(got, v), std::string(nm) + ":roundtrip", nm << "(\"" << b << "\") gave " << name(o) << " " << got);
    };
    if (std::isfinite(d)) back(d, hi::stod, "stod");
    if (std::isfinite(f)) back(f, hi::stof, "stof");
  }
  for (int i = 0; i < 60; ++i)
  {
    std::string b = gen_elem(r, r.chance(0.7) ? 2 : 3);
    if (r.chance(0.4)) b = mutate(r, b);
    check_bool(b);
    // arrays
    int kind = static_cast<int>(r.below(4));
    std::string s = r.chance(0.2) ? "[ " : "[";
    int n = static_cast<int>(r.below(7));
    for (int k = 0; k < n; ++k)
    {
      if (k) s += r.pick({std::string(","), std::string(", "), std::string(" , "), std::string(",\n\t")});
      s += gen_elem(r, r.chance(0.95) ? kind : static_cast<int>(r.below(4)));
    }
    s += r.chance(0.2) ? " ]" : "]";
    if (r.chance(0.4)) s = mutate(r, s);
    check_array<double>("parse_array<double>", s);
    check_array<int>("parse_array<int>", s);
    check_array<bool>("parse_array<bool>", s);
    check_array<std::string>("parse_array<string>", s);
    check_array<uint8_t>("parse_array<uint8>", s);
    check_array<int64_t>("parse_array<int64>", s);
    if (i == 0 && c < 2) rec().sample("array \"" + s + "\"");
    std::vector<std::string> e1, e2;
    std::vector<std::string> got;
    Out o = call(std::function<std::vector<std::string>()>([&] { return hi::parse_string_array(s); }), got);
    bool ok = split_array(s, e1);
    VCHECK(ok ? (o == Out::value && got == e1) : o == Out::invalid, "parse_string_array", "parse_string_array(\"" << s << "\") " << name(o));
  }
  if (c < 8)
  {
    // very long and degenerate texts must neither crash nor hang
    std::string s = "[";
    size_t n = 20000 << r.below(5);
    for (size_t k = 0; k < n; ++k) { if (k) s += ","; s += "1"; }
    if (c & 1) s += "]";
    check_array<double>("parse_array<double>", s);
    check_array<std::string>("parse_array<string>", s);
    check_array<double>("parse_array<double>", "[" + std::string(60, ','));
    check_array<double>("parse_array<double>", "[" + std::string(60, ' ') + "1" + std::string(60, ' '));
    std::string big(200000, '7');
    check_real<double>("stod", hi::stod, big);
    check_real<double>("stod", hi::stod, "0." + big);
    check_int<int32_t>("stoi32", hi::stoi32, big);
    check_int<uint8_t>("stoui8", hi::stoui8, "-" + big);
    check_bool(big);
    rec().count("long_texts");
  }
  set_locale(false, a);
}
int main(int argc, char ** argv) { return run_cases(argc, argv, one); }
