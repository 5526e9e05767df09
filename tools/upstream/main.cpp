// Runs the repository's own gtest suites on top of the stand-ins (used to validate the stand-ins, not a check).
#include <gmock/gmock.h>
#include <yaml-cpp/yaml.h>
#include "core/lifecycle.hpp"
static rclcpp::ParameterValue conv(const YAML::Node & n)
{
  auto scalar = [](const YAML::Node & s) -> rclcpp::ParameterValue {
    std::string t = s.as<std::string>();
    if (s.Tag() == "!") return rclcpp::ParameterValue(t);
    if (t == "true" || t == "false" || t == "True" || t == "False") return rclcpp::ParameterValue(t == "true" || t == "True");
    try { size_t p; int64_t v = std::stoll(t, &p); if (p == t.size()) return rclcpp::ParameterValue(v); } catch (...) {}
    try { size_t p; double v = std::stod(t, &p); if (p == t.size()) return rclcpp::ParameterValue(v); } catch (...) {}
    if (t == ".nan" || t == ".NAN") return rclcpp::ParameterValue(std::nan(""));
    return rclcpp::ParameterValue(t);
  };
  if (n.IsSequence())
  {
    std::vector<std::string> s; std::vector<double> d; std::vector<int64_t> i; std::vector<bool> b; bool fl = false, st = false, bo = false;
    for (auto e : n) { auto v = scalar(e); s.push_back(e.as<std::string>());
      switch (v.get_type()) { case rclcpp::PARAMETER_DOUBLE: d.push_back(v.get<double>()); fl = true; break; case rclcpp::PARAMETER_INTEGER: i.push_back(v.get<int64_t>()); d.push_back(v.get<int64_t>()); break; case rclcpp::PARAMETER_BOOL: b.push_back(v.get<bool>()); bo = true; break; default: st = true; } }
    if (st) return rclcpp::ParameterValue(s);
    if (bo) return rclcpp::ParameterValue(b);
    if (fl) return rclcpp::ParameterValue(d);
    return rclcpp::ParameterValue(i);
  }
  return scalar(n);
}
static void flat(const YAML::Node & n, const std::string & p, std::map<std::string, rclcpp::ParameterValue> & o)
{
  for (auto kv : n) { std::string k = p + kv.first.as<std::string>(); if (kv.second.IsMap()) flat(kv.second, k + ".", o); else if (!kv.second.IsNull()) o[k] = conv(kv.second); }
}
int main(int argc, char ** argv)
{
  testing::InitGoogleMock(&argc, argv);
  shim::params_file_loader() = [](const std::string & file, const std::string & node, const std::string & ns)
  {
    std::vector<rclcpp::Parameter> r;
    YAML::Node y;
    try { y = YAML::LoadFile(file); } catch (...) { throw std::runtime_error("cannot read " + file); }
    auto add = [&](const YAML::Node & n) { if (!n || !n["ros__parameters"]) return; std::map<std::string, rclcpp::ParameterValue> m; flat(n["ros__parameters"], "", m); for (auto & x : m) r.emplace_back(x.first, x.second); };
    for (auto kv : y)
    {
      std::string k = kv.first.as<std::string>();
      std::string full = (ns == "/" ? "/" : ns + "/") + node;
      if (k == "/**" || k == node || k == "/" + node || k == full || k == "/**/" + node) add(kv.second);
      else if (kv.second.IsMap() && (k == ns || "/" + k == ns)) add(kv.second[node]);
    }
    return r;
  };
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--params-file")
    {
      YAML::Node y = YAML::LoadFile(argv[i + 1]);
      for (auto kv : y) { std::map<std::string, rclcpp::ParameterValue> m; flat(kv.second["ros__parameters"], "", m); std::string n = kv.first.as<std::string>(); if (n[0] == '/') n = n.substr(1); for (auto & x : m) shim::node_overrides()[n].emplace_back(x.first, x.second); }
    }
  return RUN_ALL_TESTS();
}
