// Stand-in for rclcpp parameters.
#pragma once
#include "core/time.hpp"
namespace rclcpp {
enum ParameterType : uint8_t { PARAMETER_NOT_SET = 0, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY, PARAMETER_STRING_ARRAY };
inline std::string to_string(ParameterType t)
{ static const char * n[] = {"not set", "bool", "integer", "double", "string", "byte_array", "bool_array", "integer_array", "double_array", "string_array"}; return n[t]; }

class ParameterTypeException : public std::runtime_error
{ public: ParameterTypeException(ParameterType e, ParameterType a) : std::runtime_error("expected [" + to_string(e) + "] got [" + to_string(a) + "]") {} };

namespace exceptions {
struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterAlreadyDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterImmutableException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterModifiedInCallbackException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterUninitializedException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParameterValueException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParametersException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParameterTypeException : std::runtime_error
{
  InvalidParameterTypeException(const std::string & n, const std::string & m) : std::runtime_error("parameter '" + n + "' has invalid type: " + m) {}
};
struct NameValidationError : std::invalid_argument { using std::invalid_argument::invalid_argument; };
struct InvalidNodeNameError : NameValidationError { using NameValidationError::NameValidationError; };
}  // namespace exceptions

class ParameterValue
{
public:
  using Var = std::variant<std::monostate, bool, int64_t, double, std::string, std::vector<uint8_t>, std::vector<bool>, std::vector<int64_t>, std::vector<double>, std::vector<std::string>>;
  ParameterValue() = default;
  explicit ParameterValue(bool v) : v_(v) {}
  explicit ParameterValue(int v) : v_(int64_t(v)) {}
  explicit ParameterValue(int64_t v) : v_(v) {}
  explicit ParameterValue(float v) : v_(double(v)) {}
  explicit ParameterValue(double v) : v_(v) {}
  explicit ParameterValue(const std::string & v) : v_(v) {}
  explicit ParameterValue(const char * v) : v_(std::string(v)) {}
  explicit ParameterValue(const std::vector<uint8_t> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<bool> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<int> & v) : v_(std::vector<int64_t>(v.begin(), v.end())) {}
  explicit ParameterValue(const std::vector<int64_t> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<float> & v) : v_(std::vector<double>(v.begin(), v.end())) {}
  explicit ParameterValue(const std::vector<double> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<std::string> & v) : v_(v) {}
  ParameterType get_type() const { return static_cast<ParameterType>(v_.index()); }
  bool operator==(const ParameterValue & o) const { return v_ == o.v_; }
  bool operator!=(const ParameterValue & o) const { return !(*this == o); }
  template <ParameterType T> const auto & get() const
  {
    if (v_.index() != static_cast<size_t>(T)) throw ParameterTypeException(T, get_type());
    return std::get<static_cast<size_t>(T)>(v_);
  }
  template <class T> T get() const
  {
    if constexpr (std::is_same_v<T, bool>) return get<PARAMETER_BOOL>();
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(get<PARAMETER_INTEGER>());
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(get<PARAMETER_DOUBLE>());
    else if constexpr (std::is_convertible_v<std::string, T> && !std::is_same_v<T, std::vector<std::string>>) return get<PARAMETER_STRING>();
    else if constexpr (std::is_same_v<T, std::vector<uint8_t>>) return get<PARAMETER_BYTE_ARRAY>();
    else if constexpr (std::is_same_v<T, std::vector<bool>>) return get<PARAMETER_BOOL_ARRAY>();
    else if constexpr (std::is_same_v<T, std::vector<int>>) { auto & a = get<PARAMETER_INTEGER_ARRAY>(); return T(a.begin(), a.end()); }
    else if constexpr (std::is_same_v<T, std::vector<int64_t>>) return get<PARAMETER_INTEGER_ARRAY>();
    else if constexpr (std::is_same_v<T, std::vector<float>>) { auto & a = get<PARAMETER_DOUBLE_ARRAY>(); return T(a.begin(), a.end()); }
    else if constexpr (std::is_same_v<T, std::vector<double>>) return get<PARAMETER_DOUBLE_ARRAY>();
    else return get<PARAMETER_STRING_ARRAY>();
  }
private:
  Var v_;
};
inline std::string to_string(const ParameterValue & v)
{
  switch (v.get_type()) {
    case PARAMETER_BOOL: return v.get<bool>() ? "true" : "false";
    case PARAMETER_INTEGER: return std::to_string(v.get<int64_t>());
    case PARAMETER_DOUBLE: return std::to_string(v.get<double>());
    case PARAMETER_STRING: return v.get<std::string>();
    default: return "<value>";
  }
}
class Parameter
{
  template <class F> decltype(auto) wrap(F f) const
  { try { return f(); } catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(name_, e.what()); } }
public:
  Parameter() = default;
  explicit Parameter(const std::string & n) : name_(n) {}
  Parameter(const std::string & n, const ParameterValue & v) : name_(n), value_(v) {}
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, ParameterValue>>>
  Parameter(const std::string & n, T v) : name_(n), value_(v) {}
  const std::string & get_name() const { return name_; }
  ParameterType get_type() const { return value_.get_type(); }
  std::string get_type_name() const { return to_string(get_type()); }
  const ParameterValue & get_parameter_value() const { return value_; }
  bool operator==(const Parameter & o) const { return name_ == o.name_ && value_ == o.value_; }
  bool operator!=(const Parameter & o) const { return !(*this == o); }
  template <ParameterType T> decltype(auto) get_value() const { return wrap([&]() -> decltype(auto) { return value_.get<T>(); }); }
  template <class T> T get_value() const { return wrap([&]() -> T { return value_.get<T>(); }); }
  bool as_bool() const { return get_value<bool>(); }
  int64_t as_int() const { return get_value<int64_t>(); }
  double as_double() const { return get_value<double>(); }
  const std::string & as_string() const { return get_value<PARAMETER_STRING>(); }
  const std::vector<uint8_t> & as_byte_array() const { return get_value<PARAMETER_BYTE_ARRAY>(); }
  const std::vector<bool> & as_bool_array() const { return get_value<PARAMETER_BOOL_ARRAY>(); }
  const std::vector<int64_t> & as_integer_array() const { return get_value<PARAMETER_INTEGER_ARRAY>(); }
  const std::vector<double> & as_double_array() const { return get_value<PARAMETER_DOUBLE_ARRAY>(); }
  const std::vector<std::string> & as_string_array() const { return get_value<PARAMETER_STRING_ARRAY>(); }
  std::string value_to_string() const { return to_string(value_); }
private:
  std::string name_;
  ParameterValue value_;
};
}  // namespace rclcpp

namespace rcl_interfaces { namespace msg {
struct SetParametersResult { bool successful = false; std::string reason; };
struct FloatingPointRange { double from_value = 0, to_value = 0, step = 0; };
struct IntegerRange { int64_t from_value = 0, to_value = 0; uint64_t step = 0; };
struct ParameterDescriptor { std::string name; uint8_t type = 0; std::string description, additional_constraints; bool read_only = false; bool dynamic_typing = false; std::vector<FloatingPointRange> floating_point_range; std::vector<IntegerRange> integer_range; };
struct ParameterType { enum : uint8_t { PARAMETER_NOT_SET = 0, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY, PARAMETER_STRING_ARRAY }; };
struct ListParametersResult { std::vector<std::string> names, prefixes; };
} }

namespace rclcpp { namespace node_interfaces {
struct OnSetParametersCallbackHandle
{
  using SharedPtr = std::shared_ptr<OnSetParametersCallbackHandle>;
  using OnParametersSetCallbackType = std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter> &)>;
  using OnSetParametersCallbackType = OnParametersSetCallbackType;
  OnParametersSetCallbackType callback;
};
using ParameterDescriptor_ = rcl_interfaces::msg::ParameterDescriptor;
class NodeParametersInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  using OnSetParametersCallbackType = OnSetParametersCallbackHandle::OnParametersSetCallbackType;
  std::map<std::string, ParameterValue> overrides;
  bool allow_undeclared = false;
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & def, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool ignore_override = false)
  {
    std::lock_guard<std::recursive_mutex> l(m_);
    if (n.empty()) throw exceptions::InvalidParametersException("parameter name must not be empty");
    if (p_.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
    Entry e{def, d, def.get_type()};
    auto o = overrides.find(n);
    if (!ignore_override && o != overrides.end()) {
      if (e.type != PARAMETER_NOT_SET && !d.dynamic_typing && o->second.get_type() != e.type)
        throw exceptions::InvalidParameterTypeException(n, "wrong override type");
      e.value = o->second;
      if (e.type == PARAMETER_NOT_SET) e.type = e.value.get_type();
    }
    auto r = run_callbacks({Parameter(n, e.value)});
    if (!r.successful) throw exceptions::InvalidParameterValueException("parameter '" + n + "' could not be set: " + r.reason);
    return p_.emplace(n, e).first->second.value;
  }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool ignore_override = false)
  {
    std::lock_guard<std::recursive_mutex> l(m_);
    if (n.empty()) throw exceptions::InvalidParametersException("parameter name must not be empty");
    if (p_.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
    Entry e{ParameterValue(), d, t};
    auto o = overrides.find(n);
    if (!ignore_override && o != overrides.end()) {
      if (o->second.get_type() != t) throw exceptions::InvalidParameterTypeException(n, "wrong override type");
      e.value = o->second;
    }
    return p_.emplace(n, e).first->second.value;
  }
  void undeclare_parameter(const std::string & n) { std::lock_guard<std::recursive_mutex> l(m_); if (!p_.erase(n)) throw exceptions::ParameterNotDeclaredException(n); }
  bool has_parameter(const std::string & n) const { std::lock_guard<std::recursive_mutex> l(m_); return p_.count(n) > 0; }
  Parameter get_parameter(const std::string & n) const
  {
    std::lock_guard<std::recursive_mutex> l(m_);
    auto i = p_.find(n);
    if (i == p_.end()) { if (allow_undeclared) return Parameter(n); throw exceptions::ParameterNotDeclaredException("parameter '" + n + "' is not declared"); }
    if (i->second.value.get_type() == PARAMETER_NOT_SET && !i->second.desc.dynamic_typing && i->second.type != PARAMETER_NOT_SET)
      throw exceptions::ParameterUninitializedException("parameter '" + n + "' is not initialized");
    return Parameter(n, i->second.value);
  }
  bool get_parameter(const std::string & n, Parameter & out) const
  {
    std::lock_guard<std::recursive_mutex> l(m_);
    auto i = p_.find(n);
    if (i == p_.end() || i->second.value.get_type() == PARAMETER_NOT_SET) return false;
    out = Parameter(n, i->second.value);
    return true;
  }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & ns) const { std::vector<Parameter> r; for (auto & n : ns) r.push_back(get_parameter(n)); return r; }
  bool get_parameters_by_prefix(const std::string & prefix, std::map<std::string, Parameter> & out) const
  {
    std::lock_guard<std::recursive_mutex> l(m_);
    std::string p = prefix.empty() ? prefix : prefix + ".";
    bool found = false;
    for (auto & kv : p_) if (kv.first.compare(0, p.size(), p) == 0 && kv.first.size() > p.size()) { out[kv.first.substr(p.size())] = Parameter(kv.first, kv.second.value); found = true; }
    return found;
  }
  rcl_interfaces::msg::ListParametersResult list_parameters(const std::vector<std::string> &, uint64_t) const { rcl_interfaces::msg::ListParametersResult r; for (auto & kv : p_) r.names.push_back(kv.first); return r; }
  const std::map<std::string, ParameterValue> & get_parameter_overrides() const { return overrides; }
  rcl_interfaces::msg::SetParametersResult set_parameters_atomically(const std::vector<Parameter> & ps)
  {
    std::lock_guard<std::recursive_mutex> l(m_);
    rcl_interfaces::msg::SetParametersResult r;
    r.successful = true;
    for (auto & p : ps) {
      auto i = p_.find(p.get_name());
      if (i == p_.end()) { if (allow_undeclared) continue; throw exceptions::ParameterNotDeclaredException("parameter '" + p.get_name() + "' cannot be set because it was not declared"); }
      if (i->second.desc.read_only) { r.successful = false; r.reason = "read only"; return r; }
      if (!i->second.desc.dynamic_typing && i->second.type != PARAMETER_NOT_SET && p.get_type() != i->second.type) { r.successful = false; r.reason = "wrong type"; return r; }
    }
    r = run_callbacks(ps);
    if (!r.successful) return r;
    for (auto & p : ps) { auto & e = p_[p.get_name()]; e.value = p.get_parameter_value(); if (e.type == PARAMETER_NOT_SET) e.type = p.get_type(); }
    return r;
  }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & ps)
  { std::vector<rcl_interfaces::msg::SetParametersResult> r; for (auto & p : ps) r.push_back(set_parameters_atomically({p})); return r; }
  OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(OnSetParametersCallbackType cb)
  {
    std::lock_guard<std::recursive_mutex> l(m_);
    auto h = std::make_shared<OnSetParametersCallbackHandle>();
    h->callback = cb;
    cbs_.push_front(h);
    return h;
  }
  void remove_on_set_parameters_callback(const OnSetParametersCallbackHandle * h)
  { std::lock_guard<std::recursive_mutex> l(m_); cbs_.remove_if([h](auto & w) { return w.lock().get() == h; }); }
private:
  struct Entry { ParameterValue value; rcl_interfaces::msg::ParameterDescriptor desc; ParameterType type; };
  rcl_interfaces::msg::SetParametersResult run_callbacks(const std::vector<Parameter> & ps)
  {
    rcl_interfaces::msg::SetParametersResult r;
    r.successful = true;
    for (auto it = cbs_.begin(); it != cbs_.end();) {
      if (auto h = it->lock()) { r = h->callback(ps); if (!r.successful) return r; ++it; } else it = cbs_.erase(it);
    }
    return r;
  }
  mutable std::recursive_mutex m_;
  std::map<std::string, Entry> p_;
  std::list<std::weak_ptr<OnSetParametersCallbackHandle>> cbs_;
};
} }
