#!/usr/bin/env python3
"""gen.py OUT REPO: writes the stand-in include tree (forwarding headers, messages, parameter classes) into OUT."""
import os, re, sys, glob, yaml
OUT, REPO = sys.argv[1], sys.argv[2]
HERE = os.path.dirname(os.path.abspath(__file__))

def w(path, text):
    p = os.path.join(OUT, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)

FWD = {
 "core/node.hpp": """rclcpp/rclcpp.hpp rclcpp/node.hpp rclcpp/node_options.hpp rclcpp/executor.hpp rclcpp/executors.hpp rclcpp/context.hpp rclcpp/qos.hpp
   rclcpp/publisher.hpp rclcpp/subscription.hpp rclcpp/service.hpp rclcpp/timer.hpp rclcpp/callback_group.hpp rclcpp/utilities.hpp rclcpp/init_options.hpp
   rclcpp/node_interfaces/node_base_interface.hpp rclcpp/node_interfaces/node_clock_interface.hpp rclcpp/node_interfaces/node_logging_interface.hpp
   rclcpp/node_interfaces/node_topics_interface.hpp rclcpp/node_interfaces/node_services_interface.hpp rclcpp/node_interfaces/node_timers_interface.hpp
   rclcpp/executors/multi_threaded_executor.hpp rclcpp/executors/single_threaded_executor.hpp""",
 "core/params.hpp": "rclcpp/parameter.hpp rclcpp/parameter_value.hpp rclcpp/exceptions.hpp rclcpp/exceptions/exceptions.hpp rclcpp/node_interfaces/node_parameters_interface.hpp rclcpp/parameter_map.hpp rcl_interfaces/msg/set_parameters_result.hpp rcl_interfaces/msg/parameter_descriptor.hpp rcl_interfaces/msg/parameter_type.hpp",
 "core/time.hpp": "rclcpp/time.hpp rclcpp/duration.hpp rclcpp/clock.hpp rclcpp/logger.hpp rclcpp/logging.hpp rclcpp/rate.hpp rcl/time.h rcutils/logging_macros.h builtin_interfaces/msg/time.hpp builtin_interfaces/msg/duration.hpp rclcpp/macros.hpp rclcpp/visibility_control.hpp",
 "core/lifecycle.hpp": "rclcpp_lifecycle/state.hpp rclcpp_lifecycle/lifecycle_node.hpp rclcpp_lifecycle/node_interfaces/lifecycle_node_interface.hpp rclcpp_lifecycle/rclcpp_lifecycle.hpp lifecycle_msgs/msg/state.hpp lifecycle_msgs/msg/transition.hpp",
 "core/extras.hpp": """realtime_tools/mutex.hpp realtime_tools/async_function_handler.hpp realtime_tools/realtime_buffer.hpp realtime_tools/realtime_box.hpp realtime_tools/realtime_thread_safe_box.hpp
   realtime_tools/realtime_publisher.hpp realtime_tools/realtime_helpers.hpp realtime_tools/thread_priority.hpp pal_statistics/pal_statistics.hpp pal_statistics/pal_statistics_utils.hpp pal_statistics/pal_statistics_macros.hpp
   libstatistics_collector/moving_average_statistics/types.hpp libstatistics_collector/moving_average_statistics/moving_average.hpp
   pluginlib/class_loader.hpp pluginlib/class_list_macros.hpp pluginlib/exceptions.hpp diagnostic_updater/diagnostic_updater.hpp diagnostic_msgs/msg/diagnostic_status.hpp diagnostic_updater/diagnostic_status_wrapper.hpp""",
}
for core, hs in FWD.items():
    for h in hs.split():
        w(h, f'#pragma once\n#include "{core}"\n')
w("rclcpp/version.h", """#pragma once
#define RCLCPP_VERSION_MAJOR 30
#define RCLCPP_VERSION_MINOR 0
#define RCLCPP_VERSION_PATCH 0
#define RCLCPP_VERSION_GTE(major, minor, patch) ((major) < RCLCPP_VERSION_MAJOR || ((major) == RCLCPP_VERSION_MAJOR && ((minor) < RCLCPP_VERSION_MINOR || ((minor) == RCLCPP_VERSION_MINOR && (patch) <= RCLCPP_VERSION_PATCH))))
""")
w("rcl/arguments.h", """#pragma once
#define RCL_ROS_ARGS_FLAG "--ros-args"
#define RCL_ROS_ARGS_EXPLICIT_END_TOKEN "--"
#define RCL_PARAM_FLAG "--param"
#define RCL_SHORT_PARAM_FLAG "-p"
#define RCL_PARAM_FILE_FLAG "--params-file"
#define RCL_REMAP_FLAG "--remap"
#define RCL_SHORT_REMAP_FLAG "-r"
""")
w("rcpputils/pointer_traits.hpp", """#pragma once
#include <memory>
#include <type_traits>
namespace rcpputils {
namespace details { template <class T> struct is_ptr : std::is_pointer<T> {}; template <class T> struct is_ptr<std::shared_ptr<T>> : std::true_type {}; template <class T, class D> struct is_ptr<std::unique_ptr<T, D>> : std::true_type {}; }
template <class T> struct is_pointer : std::integral_constant<bool, details::is_ptr<std::remove_cv_t<T>>::value> {};
template <class T> struct remove_pointer { using type = typename std::pointer_traits<T>::element_type; };
}
""")
w("urdf/model.h", """#pragma once
#include <memory>
#include <string>
#include <urdf_model/model.h>
#include <urdf_model/pose.h>
#include <urdf_parser/urdf_parser.h>
namespace urdf {
class Model : public ModelInterface
{
public:
  bool initString(const std::string & s)
  {
    ModelInterfaceSharedPtr m;
    try { m = parseURDF(s); } catch (const std::exception &) { return false; }
    if (!m) return false;
    links_ = m->links_; joints_ = m->joints_; materials_ = m->materials_; name_ = m->name_; root_link_ = m->root_link_;
    return true;
  }
};
}
""")
w("urdf/model.hpp", '#pragma once\n#include "urdf/model.h"\n')

# ---------------------------------------------------------------- messages
def snake(n):
    n = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", n)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n).lower()
PRIM = {"bool": "bool", "byte": "uint8_t", "char": "uint8_t", "float32": "float", "float64": "double", "string": "std::string"}
for b in (8, 16, 32, 64):
    PRIM[f"int{b}"] = f"int{b}_t"
    PRIM[f"uint{b}"] = f"uint{b}_t"
def ctype(t, pkg):
    arr = None
    m = re.match(r"(.*)\[(<=)?(\d*)\]$", t)
    if m:
        t, le, arr = m.group(1), m.group(2), m.group(3)
    if t in PRIM:
        c, inc = PRIM[t], None
    else:
        if "/" in t:
            p, n = t.split("/")[0], t.split("/")[-1]
        elif t == "Header":
            p, n = "std_msgs", "Header"
        else:
            p, n = pkg, t
        c, inc = f"{p}::msg::{n}", f"{p}/msg/{snake(n)}.hpp"
    if arr is None:
        return c, inc, True
    return (f"std::array<{c}, {arr}>" if arr and not le else f"std::vector<{c}>"), inc, False
def struct(name, body, pkg, incs):
    out = [f"struct {name}", "{", f"  using SharedPtr = std::shared_ptr<{name}>; using ConstSharedPtr = std::shared_ptr<const {name}>; using UniquePtr = std::unique_ptr<{name}>;"]
    for line in body.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"(\S+)\s+(\w+)\s*=\s*(.+)$", line)
        if m:
            c = ctype(m.group(1), pkg)[0]
            v = m.group(3).strip()
            out.append(f"  static constexpr {c} {m.group(2)} = {v};" if c != "std::string" else f"  static constexpr const char * {m.group(2)} = \"{v}\";")
            continue
        p = line.split()
        c, inc, scalar = ctype(p[0], pkg)
        if inc:
            incs.add(inc)
        d = " = " + p[2] if len(p) > 2 else "{}"
        out.append(f"  using _{p[1]}_type = {c};")
        out.append(f"  {c} {p[1]}{d};")
    out.append("};")
    return "\n".join(out)
PRE = "#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n"
def gen_msg(pkg, name, text):
    incs = set()
    s = struct(name, text, pkg, incs)
    w(f"{pkg}/msg/{snake(name)}.hpp", PRE + "".join(f'#include "{i}"\n' for i in sorted(incs)) + f"namespace {pkg} {{ namespace msg {{\n{s}\n}} }}\n")
def gen_srv(pkg, name, text):
    incs = set()
    req, res = re.split(r"(?m)^---\s*$", text, maxsplit=1)
    a = struct(name + "_Request", req, pkg, incs)
    b = struct(name + "_Response", res, pkg, incs)
    w(f"{pkg}/srv/{snake(name)}.hpp", PRE + "".join(f'#include "{i}"\n' for i in sorted(incs)) +
      f"namespace {pkg} {{ namespace srv {{\n{a}\n{b}\nstruct {name} {{ using Request = {name}_Request; using Response = {name}_Response; }};\n}} }}\n")
for f in glob.glob(REPO + "/controller_manager_msgs/msg/*.msg"):
    gen_msg("controller_manager_msgs", os.path.basename(f)[:-4], open(f).read())
for f in glob.glob(REPO + "/controller_manager_msgs/srv/*.srv"):
    gen_srv("controller_manager_msgs", os.path.basename(f)[:-4], open(f).read())
STD = {
 "std_msgs": {"Header": "builtin_interfaces/Time stamp\nstring frame_id", "String": "string data", "ColorRGBA": "float32 r\nfloat32 g\nfloat32 b\nfloat32 a", "Bool": "bool data", "Float64": "float64 data", "Float64MultiArray": "float64[] data"},
 "geometry_msgs": {"Vector3": "float64 x\nfloat64 y\nfloat64 z", "Point": "float64 x\nfloat64 y\nfloat64 z", "Quaternion": "float64 x 0\nfloat64 y 0\nfloat64 z 0\nfloat64 w 1", "Pose": "Point position\nQuaternion orientation", "Wrench": "Vector3 force\nVector3 torque", "WrenchStamped": "std_msgs/Header header\nWrench wrench"},
 "sensor_msgs": {"Range": "std_msgs/Header header\nuint8 radiation_type\nfloat32 field_of_view\nfloat32 min_range\nfloat32 max_range\nfloat32 range\nfloat32 variance",
   "Imu": "std_msgs/Header header\ngeometry_msgs/Quaternion orientation\nfloat64[9] orientation_covariance\ngeometry_msgs/Vector3 angular_velocity\nfloat64[9] angular_velocity_covariance\ngeometry_msgs/Vector3 linear_acceleration\nfloat64[9] linear_acceleration_covariance",
   "MagneticField": "std_msgs/Header header\ngeometry_msgs/Vector3 magnetic_field\nfloat64[9] magnetic_field_covariance",
   "NavSatStatus": "int8 STATUS_UNKNOWN=-2\nint8 STATUS_NO_FIX=-1\nint8 STATUS_FIX=0\nint8 STATUS_SBAS_FIX=1\nint8 STATUS_GBAS_FIX=2\nint8 status -2\nuint16 SERVICE_UNKNOWN=0\nuint16 SERVICE_GPS=1\nuint16 SERVICE_GLONASS=2\nuint16 SERVICE_COMPASS=4\nuint16 SERVICE_GALILEO=8\nuint16 service",
   "NavSatFix": "std_msgs/Header header\nNavSatStatus status\nfloat64 latitude\nfloat64 longitude\nfloat64 altitude\nfloat64[9] position_covariance\nuint8 COVARIANCE_TYPE_UNKNOWN=0\nuint8 COVARIANCE_TYPE_APPROXIMATED=1\nuint8 COVARIANCE_TYPE_DIAGONAL_KNOWN=2\nuint8 COVARIANCE_TYPE_KNOWN=3\nuint8 position_covariance_type",
   "JointState": "std_msgs/Header header\nstring[] name\nfloat64[] position\nfloat64[] velocity\nfloat64[] effort"},
 "trajectory_msgs": {"JointTrajectoryPoint": "float64[] positions\nfloat64[] velocities\nfloat64[] accelerations\nfloat64[] effort\nbuiltin_interfaces/Duration time_from_start"},
 "control_msgs": {"HardwareDeviceStatus": "string device_id\nuint8 health_status", "HardwareStatus": "std_msgs/Header header\nstring hardware_id\nHardwareDeviceStatus[] hardware_device_states"},
}
for pkg, ms in STD.items():
    for n, t in ms.items():
        gen_msg(pkg, n, t)
w("std_msgs/msg/color_rgba.hpp", open(os.path.join(OUT, "std_msgs/msg/" + snake("ColorRGBA") + ".hpp")).read())

# ---------------------------------------------------------------- generated parameter classes
CT = {"int": "int64_t", "double": "double", "bool": "bool", "string": "std::string", "string_array": "std::vector<std::string>", "double_array": "std::vector<double>", "int_array": "std::vector<int64_t>"}
def lit(t, v):
    if v is None:
        return {"int": "0", "double": "0.0", "bool": "false", "string": '""'}.get(t, "{}")
    if t == "bool":
        return "true" if v else "false"
    if t == "string":
        return '"' + str(v) + '"'
    if t.endswith("_array"):
        return "{" + ", ".join(lit(t[:-6], x) for x in v) + "}"
    return repr(float(v)) if t == "double" else str(v)
def gen_params(ns, tree, path, header):
    decl, checks = [], []
    def rec(node, prefix, acc, ind, out):
        for k, v in node.items():
            if isinstance(v, dict) and "type" in v and isinstance(v["type"], str):
                c = CT[v["type"]]
                out.append("  " * ind + f"{c} {k} = {lit(v['type'], v.get('default_value'))};")
                decl.append((prefix + k, acc + k, c, v))
            elif isinstance(v, dict):
                out.append("  " * ind + f"struct {k[0].upper() + k[1:]}_ {{")
                rec(v, prefix + k + ".", acc + k + ".", ind + 1, out)
                out.append("  " * ind + f"}} {k};")
    out = []
    rec(tree, "", "", 1, out)
    body = ["#pragma once", '#include "core/node.hpp"', f"namespace {ns} {{", "struct Params {", *out, "};", "class ParamListener {", "public:",
      "  template <class N> explicit ParamListener(std::shared_ptr<N> node, const std::string & prefix = \"\") : ParamListener(node->get_node_parameters_interface(), node->get_logger(), prefix) {}",
      "  ParamListener(rclcpp::node_interfaces::NodeParametersInterface::SharedPtr p, rclcpp::Logger lg = rclcpp::get_logger(\"p\"), const std::string & = \"\") : p_(p) { (void)lg; declare(); }",
      "  ParamListener(rclcpp::node_interfaces::NodeParametersInterface::SharedPtr p, const std::string & prefix) : ParamListener(p, rclcpp::get_logger(\"p\"), prefix) {}",
      "  Params get_params() const { return params_; }", "  bool is_old(const Params &) const { return false; }", "  void refresh_dynamic_parameters() {}", "  bool try_update_params(Params &) const { return true; }",
      "  void declare() {"]
    for name, acc, c, v in decl:
        vt = "rclcpp::ParameterValue(params_." + acc + ")"
        body.append(f'    if (!p_->has_parameter("{name}")) {{ rcl_interfaces::msg::ParameterDescriptor d; d.read_only = {lit("bool", v.get("read_only", False))}; p_->declare_parameter("{name}", {vt}, d); }}')
        body.append(f'    params_.{acc} = p_->get_parameter("{name}").template get_value<{c}>();')
        for rule, arg in (v.get("validation") or {}).items():
            cond = None
            if rule == "gt<>":
                cond = f"params_.{acc} > {arg}"
            elif rule == "one_of<>":
                cond = " || ".join(f'params_.{acc} == {lit(v["type"], x)}' for x in arg[0])
            elif rule == "not_empty<>":
                cond = f"!params_.{acc}.empty()"
            if cond:
                body.append(f'    if (!({cond})) throw rclcpp::exceptions::InvalidParameterValueException("Invalid value set during initialization for parameter {name}");')
    body += ["  }", "private:", "  rclcpp::node_interfaces::NodeParametersInterface::SharedPtr p_;", "  Params params_;", "};", "}"]
    w(header, "\n".join(body) + "\n")
y = yaml.safe_load(open(REPO + "/controller_manager/src/controller_manager_parameters.yaml"))
ns, tree = next(iter(y.items()))
gen_params(ns, tree, "", "controller_manager/controller_manager_parameters.hpp")

# ---- plugin descriptions: lookup name -> C++ type, as pluginlib reads them -----------------------------------------
import xml.etree.ElementTree as ET
names = {}
for f in sorted(glob.glob(REPO + "/**/*.xml", recursive=True)):
    try:
        txt = open(f, encoding="utf8").read()
        if "base_class_type" not in txt:
            continue
        for c in ET.fromstring("<r>" + re.sub(r"<\?xml[^>]*\?>", "", txt) + "</r>").iter("class"):
            if c.get("type"):
                names[c.get("name") or c.get("type")] = c.get("type")
    except ET.ParseError:
        continue
w("pluginlib/shim_names.hpp", "#pragma once\n#include <map>\n#include <string>\nnamespace pluginlib {\ninline const std::map<std::string, std::string> & shim_plugin_names() { static const std::map<std::string, std::string> m{"
  + ", ".join('{"%s", "%s"}' % kv for kv in sorted(names.items())) + "}; return m; }\n}\n")
