"""Stand-ins for the ROS 2 Python packages, driven by a World that records every event.

Message classes are generated from the .srv/.msg files of the repository and check names and types of fields
as the generated ROS classes do, so that a request that could not be sent is not accepted here either."""
import os
import re
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- messages
class MessageTypeError(AssertionError):
    pass


DEFAULTS = {"string": "", "bool": False, "float64": 0.0, "float32": 0.0}
RANGES = {"int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1), "uint16": (0, 65535), "uint8": (0, 255), "int8": (-128, 127),
          "int16": (-2**15, 2**15 - 1), "int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1)}
TYPES = {}


class Message:
    FIELDS = []

    def __init__(self, **kw):
        for name, typ, arr in self.FIELDS:
            object.__setattr__(self, "_" + name, [] if arr else default(typ))
        for k, v in kw.items():
            setattr(self, k, v)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        try:
            return object.__getattribute__(self, "_" + k)
        except AttributeError:
            raise AttributeError("%s has no field %s" % (type(self).__name__, k)) from None

    def __setattr__(self, k, v):
        for name, typ, arr in self.FIELDS:
            if name == k:
                if arr:
                    if isinstance(v, (str, bytes)) or not isinstance(v, (list, tuple, set)):
                        raise MessageTypeError("The '%s' field must be a sequence" % k)
                    v = list(v)
                    for x in v:
                        conv(k, typ, x)
                else:
                    conv(k, typ, v)
                object.__setattr__(self, "_" + k, v)
                return
        raise AttributeError("%s has no field %s" % (type(self).__name__, k))

    def __eq__(self, o):
        return type(self) is type(o) and all(getattr(self, f[0]) == getattr(o, f[0]) for f in self.FIELDS)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % (f[0], getattr(self, f[0])) for f in self.FIELDS))

    def as_dict(self):
        def c(v):
            if isinstance(v, Message):
                return v.as_dict()
            if isinstance(v, list):
                return [c(x) for x in v]
            return v
        return {f[0]: c(getattr(self, f[0])) for f in self.FIELDS}


def default(typ):
    if typ in DEFAULTS:
        return DEFAULTS[typ]
    if typ in RANGES:
        return 0
    return TYPES[typ]()


def conv(k, typ, v):
    ok = True
    if typ == "string":
        ok = isinstance(v, str)
    elif typ == "bool":
        ok = isinstance(v, bool)
    elif typ in ("float64", "float32"):
        ok = isinstance(v, float)
    elif typ in RANGES:
        ok = isinstance(v, int) and RANGES[typ][0] <= v <= RANGES[typ][1]
    else:
        ok = isinstance(v, TYPES[typ])
    if not ok:
        raise MessageTypeError("The '%s' field must be of type '%s', got %r" % (k, typ, v))


def parse_fields(text):
    fields, consts = [], {}
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"^(\w+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(\S+)$", line)
        if m:
            consts[m.group(2)] = int(m.group(3))
            continue
        m = re.match(r"^([\w/]+)(\[\])?\s+(\w+)$", line)
        if not m:
            raise RuntimeError("cannot parse interface line %r" % line)
        fields.append((m.group(3), m.group(1), bool(m.group(2))))
    return fields, consts


def make(name, fields, consts=None, pkg=""):
    cls = type(name, (Message,), dict(consts or {}))
    cls.FIELDS = fields
    TYPES[name] = cls
    if pkg:
        TYPES[pkg + "/" + name] = cls
    return cls


def make_srv(name, text):
    req, res = re.split(r"(?m)^---\s*$", text, maxsplit=1)
    s = types.SimpleNamespace()
    c = type(name, (), {})
    f, k = parse_fields(req)
    c.Request = make(name + "_Request", f, k)
    f, k = parse_fields(res)
    c.Response = make(name + "_Response", f, k)
    del s
    return c


def module(name, **kw):
    m = sys.modules.get(name)
    if m is None:
        m = types.ModuleType(name)
        m.__path__ = []
        sys.modules[name] = m
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(module(parent), child, m)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


# ---------------------------------------------------------------- world
class Sig(KeyboardInterrupt):
    pass


class World:
    """What the tools see: a clock, services with scripted answers, a lock file, signals."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 0.0
        self.events = []          # (kind, data)
        self.services = {}        # full name -> function(request dict) -> response or None
        self.available_at = {}    # full name -> time
        self.default_available = 0.0
        self.signal_at = None     # index of the step at which a signal arrives
        self.signal_num = 2
        self.signal_on = None     # (service type, offset): the signal comes so many steps after the next request of this type
        self.handlers = {}
        self.steps = 0
        self.signalled = 0
        self.killed = False
        self.lock_owner = None    # None | object | "other"
        self.lock_free_at = 0.0
        self.lock_time = None     # when the lock was first taken
        self.namespace = "/"
        self.nodes = []
        self.alive_nodes = 0
        self.argv_ros = []
        self.initialized = 0
        self.shutdowns = 0
        self.node_names = []
        self.logs = []
        self.max_time = 3.0e3
        self.after_last_signal = []
        self.in_finally = False
        self.double_signal = False

    def ev(self, kind, data=None):
        self.events.append((kind, data))

    def step(self, what):
        """A point at which a signal may be delivered."""
        if self.in_finally:
            return
        self.steps += 1
        hit = self.signal_at is not None and self.steps == self.signal_at
        again = self.double_signal and self.signalled and self.steps % 2 == 0
        if hit or again:
            self.deliver(what)

    def deliver(self, what):
        h = self.handlers.get(self.signal_num, "default")
        import signal as sg
        if h in ("ignore", sg.SIG_IGN):
            return
        self.signalled += 1
        self.ev("signal", what)
        if h in ("default", sg.SIG_DFL) and self.signal_num == 15:
            self.killed = True
        if callable(h) and h not in (sg.SIG_IGN, sg.SIG_DFL, sg.default_int_handler):
            h(self.signal_num, None)
        else:
            raise KeyboardInterrupt()

    def advance(self, dt):
        self.now += dt
        if self.now > self.max_time:
            raise TimeoutError("virtual time exhausted")  # pragma: no cover


W = World()


# ---------------------------------------------------------------- rclpy
class Logger:
    def __init__(self, name):
        self.name = name

    def _log(self, level, msg):
        W.logs.append((level, msg))
        W.step("log")

    def debug(self, m): self._log("debug", m)
    def info(self, m): self._log("info", m)
    def warning(self, m): self._log("warning", m)
    warn = warning
    def error(self, m): self._log("error", m)
    def fatal(self, m): self._log("fatal", m)


class Future:
    def __init__(self, value, delay):
        self._value = value
        self._delay = delay
        self._done = False

    def done(self): return self._done
    def result(self): return self._value if self._done else None


class Client:
    def __init__(self, node, srv_type, name):
        self.node, self.srv_type, self.name = node, srv_type, name
        W.ev("client", name)

    def _avail(self):
        return self.name in W.services and W.now >= W.available_at.get(self.name, W.default_available)

    def service_is_ready(self):
        return self._avail()

    def wait_for_service(self, timeout_sec=None):
        W.step("wait_for_service")
        W.ev("wait", (self.name, timeout_sec))
        t = W.available_at.get(self.name, W.default_available) if self.name in W.services else float("inf")
        if t <= W.now:
            return True
        if timeout_sec is None:
            W.advance(t - W.now)
            return True
        if t <= W.now + timeout_sec:
            W.now = t
            return True
        W.advance(timeout_sec)
        return False

    def call_async(self, request):
        if not isinstance(request, self.srv_type.Request):
            raise MessageTypeError("wrong request type for %s" % self.name)
        if not self._avail():
            W.ev("call_unavailable", self.name)
            return Future(None, float("inf"))
        W.step("before_call")
        d = request.as_dict()
        W.ev("call", (self.name, self.srv_type.__name__, d))
        if W.signal_on and W.signal_on[0] == self.srv_type.__name__:
            W.signal_at, W.signal_on = W.steps + W.signal_on[1], None
        ans = W.services[self.name](d)   # response, None (no answer) or (response, delay)
        delay = 0.01
        if isinstance(ans, tuple):
            ans, delay = ans
        if ans is None:
            delay = float("inf")
        elif not isinstance(ans, self.srv_type.Response):
            raise RuntimeError("harness: wrong answer type for %s" % self.name)
        return Future(ans, delay)


class Node:
    def __init__(self, name, **kw):
        W.step("node")
        if not W.initialized:
            raise RuntimeError("rclpy is not initialized")
        self.name = name
        self.ns = W.namespace
        W.nodes.append(self)
        W.alive_nodes += 1
        W.ev("node", name)
        self.destroyed = False
        self.subs = []

    def get_name(self): return self.name
    def get_namespace(self): return self.ns
    def get_logger(self): return Logger(self.name)
    def create_client(self, t, name): return Client(self, t, name if name.startswith("/") else ("/" if self.ns == "/" else self.ns + "/") + name)
    def get_node_names(self): return [n for n, _ in W.node_names]
    def get_node_names_and_namespaces(self): return list(W.node_names)

    def create_subscription(self, t, topic, cb, qos):
        self.subs.append((topic, cb))
        return (topic, cb)

    def destroy_node(self):
        W.in_finally = True
        if not self.destroyed:
            self.destroyed = True
            W.alive_nodes -= 1
        W.ev("destroy_node")


def spin_until_future_complete(node, future, executor=None, timeout_sec=None):
    W.ev("spin", timeout_sec)
    if timeout_sec is None or timeout_sec < 0:
        if future._delay == float("inf"):
            raise TimeoutError("harness: waiting forever for an answer")
        W.advance(future._delay)
        future._done = True
    elif future._delay <= timeout_sec:
        W.advance(future._delay)
        future._done = True
    else:
        W.advance(timeout_sec)
    W.step("after_call")


def rcl_init(args=None, signal_handler_options=None, **kw):
    W.initialized += 1
    W.ev("init")


def rcl_shutdown(*a, **kw):
    W.in_finally = True
    W.shutdowns += 1
    W.ev("shutdown")


def remove_ros_args(args=None):
    """Reference behaviour of rclpy: everything from --ros-args to -- or the next end."""
    out, ros = [], False
    for a in args if args is not None else sys.argv:
        if ros:
            if a == "--":
                ros = False
            elif a == "--ros-args":
                pass
            continue
        if a == "--ros-args":
            ros = True
            continue
        out.append(a)
    return out


class Duration:
    def __init__(self, *, seconds=0, nanoseconds=0):
        if isinstance(seconds, str):
            raise TypeError("rclpy computes int(seconds * 10**9): a text of a gigabyte")
        self.nanoseconds = int(seconds * 1000**3) + int(nanoseconds)

    def to_msg(self):
        return TYPES["builtin_interfaces/Duration"](sec=self.nanoseconds // 10**9, nanosec=self.nanoseconds % 10**9)


def get_parameter_value(string_value):
    """As rclpy.parameter.get_parameter_value (YAML rules)."""
    import yaml
    V = TYPES["rcl_interfaces/ParameterValue"]
    v = V()
    try:
        y = yaml.safe_load(string_value)
    except yaml.parser.ParserError:
        y = string_value
    if isinstance(y, bool):
        v.type, v.bool_value = 1, y
    elif isinstance(y, int):
        v.type, v.integer_value = 2, y
    elif isinstance(y, float):
        v.type, v.double_value = 3, y
    elif isinstance(y, list):
        if all(isinstance(x, bool) for x in y):
            v.type, v.bool_array_value = 6, y
        elif all(isinstance(x, int) for x in y):
            v.type, v.integer_array_value = 7, y
        elif all(isinstance(x, float) for x in y):
            v.type, v.double_array_value = 8, y
        elif all(isinstance(x, str) for x in y):
            v.type, v.string_array_value = 9, y
        else:
            v.type, v.string_value = 4, string_value
    else:
        v.type, v.string_value = 4, string_value
    return v


# ---------------------------------------------------------------- filelock, signal, time
class LockTimeout(Exception):
    pass


class FakeFileLock:
    def __init__(self, path, *a, **kw):
        self.path = path
        self._held = 0
        W.ev("lock_file", path)

    @property
    def is_locked(self):
        return self._held > 0

    def acquire(self, timeout=-1, **kw):
        W.ev("lock_try", timeout)
        W.step("lock_try")
        if not self._held:
            if W.lock_owner == "other":
                if timeout is not None and 0 <= timeout < W.lock_free_at - W.now:
                    W.advance(timeout)
                    raise LockTimeout(self.path)
                W.now = max(W.now, W.lock_free_at)
                W.lock_owner = None
            W.lock_owner = self
            if W.lock_time is None:
                W.lock_time = W.now
        self._held += 1
        W.ev("lock")
        W.step("locked")
        return self

    def release(self, force=False):
        if self._held:
            self._held = 0 if force else self._held - 1
            if not self._held:
                W.lock_owner = None
                W.ev("unlock")

    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()


class FakeSignal(types.ModuleType):
    SIGINT, SIGTERM = 2, 15
    SIG_IGN, SIG_DFL = "ignore", "default"

    def signal(self, num, handler):
        old = W.handlers.get(num, "default")
        W.handlers[num] = handler
        return old


class FakeTime(types.ModuleType):
    def sleep(self, dt):
        W.ev("sleep", dt)
        W.step("sleep")
        W.advance(dt)
        if W.now > 500.0 and not W.signalled and W.signal_at is not None:
            W.deliver("late")

    def time(self): return W.now
    monotonic = time


def patch_process():
    """Signals and sleeping of this process go to the World from now on."""
    import signal
    import time
    fs, ft = FakeSignal("signal"), FakeTime("time")
    signal.signal = fs.signal
    time.sleep, time.time, time.monotonic = ft.sleep, ft.time, ft.time


def msgfile(rel):
    return open(os.path.join(REPO, rel)).read()


def install():
    sys.dont_write_bytecode = True
    make("Duration", [("sec", "int32", False), ("nanosec", "uint32", False)], None, "builtin_interfaces")
    make("Time", [("sec", "int32", False), ("nanosec", "uint32", False)], None, "builtin_interfaces")
    make("Header", [("stamp", "builtin_interfaces/Time", False), ("frame_id", "string", False)], None, "std_msgs")
    make("State", [("id", "uint8", False), ("label", "string", False)],
         {"PRIMARY_STATE_UNKNOWN": 0, "PRIMARY_STATE_UNCONFIGURED": 1, "PRIMARY_STATE_INACTIVE": 2, "PRIMARY_STATE_ACTIVE": 3,
          "PRIMARY_STATE_FINALIZED": 4}, "lifecycle_msgs")
    make("ParameterValue", [("type", "uint8", False), ("bool_value", "bool", False), ("integer_value", "int64", False),
                            ("double_value", "float64", False), ("string_value", "string", False), ("bool_array_value", "bool", True),
                            ("integer_array_value", "int64", True), ("double_array_value", "float64", True),
                            ("string_array_value", "string", True)], None, "rcl_interfaces")
    make("Parameter", [("name", "string", False), ("value", "rcl_interfaces/ParameterValue", False)], None, "rcl_interfaces")
    make("SetParametersResult", [("successful", "bool", False), ("reason", "string", False)], None, "rcl_interfaces")
    make("ListParametersResult", [("names", "string", True), ("prefixes", "string", True)], None, "rcl_interfaces")
    set_params = make_srv("SetParameters", "Parameter[] parameters\n---\nSetParametersResult[] results\n")
    list_params = make_srv("ListParameters", "string[] prefixes\nuint64 depth\n---\nListParametersResult result\n")
    base = os.path.join(REPO, "controller_manager_msgs")
    pending = sorted(os.listdir(os.path.join(base, "msg")))
    for f in pending:
        if f.endswith(".msg"):
            fields, consts = parse_fields(msgfile("controller_manager_msgs/msg/" + f))
            make(f[:-4], fields, consts, "controller_manager_msgs")
    srvs = {}
    for f in sorted(os.listdir(os.path.join(base, "srv"))):
        if f.endswith(".srv"):
            srvs[f[:-4]] = make_srv(f[:-4], msgfile("controller_manager_msgs/srv/" + f))
    module("controller_manager_msgs.srv", **srvs)
    module("controller_manager_msgs.msg", **{f[:-4]: TYPES[f[:-4]] for f in pending if f.endswith(".msg")})
    module("lifecycle_msgs.msg", State=TYPES["State"])
    module("rcl_interfaces.msg", Parameter=TYPES["Parameter"], ParameterValue=TYPES["ParameterValue"])
    module("rcl_interfaces.srv", SetParameters=set_params, ListParameters=list_params)
    module("rclpy", init=rcl_init, shutdown=rcl_shutdown, spin_until_future_complete=spin_until_future_complete,
           spin=lambda node: W.ev("spin_forever"), ok=lambda: True)
    module("rclpy.node", Node=Node)
    module("rclpy.duration", Duration=Duration)
    module("rclpy.parameter", get_parameter_value=get_parameter_value)
    module("rclpy.logging", get_logger=lambda n: Logger(n))
    module("rclpy.utilities", remove_ros_args=remove_ros_args)
    module("rclpy.signals", SignalHandlerOptions=types.SimpleNamespace(NO=0, SIGINT=1, SIGTERM=2, ALL=3))
    module("filelock", FileLock=FakeFileLock, Timeout=LockTimeout)
    return srvs


def load_controller_manager():
    """Imports /repo's controller_manager Python package on top of the stand-ins."""
    os.environ["RCUTILS_COLORIZED_OUTPUT"] = "0"
    srvs = install()
    sys.path.insert(0, os.path.join(REPO, "controller_manager"))
    import controller_manager.controller_manager_services as svc
    return srvs, svc
