// Shared run-time for all C++ monitors: deterministic case generator, violation recorder, JSON output.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cfloat>
#include <chrono>
#include <clocale>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vh
{
inline uint64_t mix(uint64_t x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string & s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h);
}

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { return mix(s++ * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull); }
  // inclusive
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(next() % (static_cast<uint64_t>(hi - lo) + 1)); }
  size_t below(size_t n) { return n ? next() % n : 0; }
  bool chance(double p) { return unit() < p; }
  double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <class C> auto & pick(C & c) { return c[below(c.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class C> void shuffle(C & c)
  {
    for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]);
  }
};

inline std::string esc(const std::string & s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"') o += "\\\"";
    else if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}
inline std::string num(double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
template <class C> std::string join(const C & c, const char * sep = ",")
{
  std::ostringstream o; bool f = true;
  for (const auto & x : c) { if (!f) o << sep; f = false; o << x; }
  return o.str();
}
inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

struct Violation { std::string key, msg; uint64_t c; };

class Recorder
{
public:
  static Recorder & get() { static Recorder r; return r; }
  // one oracle decision
  void eval(uint64_t n = 1) { evaluations_.fetch_add(n, std::memory_order_relaxed); }
  void distinct(const std::string & what) { distinct_hash(hash_str(what)); }
  void distinct_hash(uint64_t h)
  {
    std::lock_guard<std::mutex> l(m_);
    if (distinct_.size() < 60000) distinct_.insert(h);
  }
  void count(const std::string & k, uint64_t n = 1) { std::lock_guard<std::mutex> l(m_); counters_[k] += n; }
  void sample(const std::string & s)
  {
    std::lock_guard<std::mutex> l(m_);
    if (samples_.size() < 6) samples_.push_back(s.substr(0, 600));
  }
  void violation(const std::string & key, const std::string & msg)
  {
    std::lock_guard<std::mutex> l(m_);
    ++nviol_;
    if (++perkey_[key] <= 2 && violations_.size() < 60) violations_.push_back({key, msg.substr(0, 2000), case_});
    if (verbose) std::cerr << "VIOL " << key << ": " << msg << "\n";
  }
  void set_case(uint64_t c)
  {
    case_ = c;
    if (cur_)
    {
      std::rewind(cur_);
      std::fprintf(cur_, "%020llu", static_cast<unsigned long long>(c));
      std::fflush(cur_);
    }
  }
  uint64_t current() const { return case_; }
  void open(const std::string & out) { out_ = out; cur_ = std::fopen((out + ".cur").c_str(), "w"); }
  void write()
  {
    std::ofstream o(out_);
    o << "{\"evaluations\":" << evaluations_.load() << ",\"nviol\":" << nviol_ << ",\"distinct\":[";
    bool f = true;
    for (auto h : distinct_) { o << (f ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; f = false; }
    o << "],\"samples\":[";
    f = true;
    for (auto & s : samples_) { o << (f ? "" : ",") << "\"" << esc(s) << "\""; f = false; }
    o << "],\"counters\":{";
    f = true;
    for (auto & [k, v] : counters_) { o << (f ? "" : ",") << "\"" << esc(k) << "\":" << v; f = false; }
    o << "},\"violations\":[";
    f = true;
    for (auto & v : violations_)
    {
      o << (f ? "" : ",") << "{\"key\":\"" << esc(v.key) << "\",\"msg\":\"" << esc(v.msg) << "\",\"case\":" << v.c << "}";
      f = false;
    }
    o << "]}\n";
  }
  bool verbose = false;
  bool thorough = false;

private:
  std::mutex m_;
  std::atomic<uint64_t> evaluations_{0};
  uint64_t nviol_ = 0;
  uint64_t case_ = 0;
  std::unordered_set<uint64_t> distinct_;
  std::vector<std::string> samples_;
  std::map<std::string, uint64_t> counters_, perkey_;
  std::vector<Violation> violations_;
  std::string out_;
  FILE * cur_ = nullptr;
};
inline Recorder & rec() { return Recorder::get(); }

#define VCHECK(cond, key, msg)                                             \
  do                                                                       \
  {                                                                        \
    ::vh::rec().eval();                                                    \
    if (!(cond))                                                           \
    {                                                                      \
      std::ostringstream vh_o;                                             \
      vh_o.precision(17);                                                  \
      vh_o << msg;                                                         \
      ::vh::rec().violation(key, vh_o.str());                              \
    }                                                                      \
  } while (0)

struct Args
{
  uint64_t seed = 1, start = 0, cases = 100, shard = 0, nshards = 1;
  bool thorough = false, single = false;
  uint64_t one = 0;
  std::string out = "/dev/null", mode;
};

// Runs body(rng, case_index) for every case of this shard. A case is a pure function of (seed, index).
inline int run_cases(int argc, char ** argv, const std::function<void(Rng &, uint64_t, const Args &)> & body)
{
  Args a;
  for (int i = 1; i < argc; ++i)
  {
    std::string k = argv[i];
    auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (k == "--seed") a.seed = std::stoull(v());
    else if (k == "--cases") a.cases = std::stoull(v());
    else if (k == "--start") a.start = std::stoull(v());
    else if (k == "--shard") a.shard = std::stoull(v());
    else if (k == "--nshards") a.nshards = std::stoull(v());
    else if (k == "--out") a.out = v();
    else if (k == "--mode") a.mode = v();
    else if (k == "--thorough") a.thorough = true;
    else if (k == "--case") { a.single = true; a.one = std::stoull(v()); }
    else if (k == "-v") rec().verbose = true;
  }
  rec().thorough = a.thorough;
  rec().open(a.out);
  auto go = [&](uint64_t c)
  {
    rec().set_case(c);
    Rng r(mix(a.seed) ^ mix(c * 2654435761ull + hash_str(a.mode)));
    body(r, c, a);
  };
  if (a.single) go(a.one);
  else
    for (uint64_t c = a.start; c < a.cases; ++c)
      if (c % a.nshards == a.shard) go(c);
  rec().write();
  std::fflush(nullptr);
  std::_Exit(0);
}
}  // namespace vh
