"""Stand-ins for the packages of the ros2 command line, launch and the graphical front end."""
import argparse
import os
import sys
import types

import stubs
from stubs import W, module


class NodeStrategy:
    def __init__(self, args):
        self.args = args

    @property
    def direct_node(self):
        return DirectNode(self.args)


class DirectNode(stubs.Node):
    def __init__(self, args, *, node_name=None):
        W.initialized += 1
        super().__init__("_ros2cli_node")

    def __enter__(self): return self

    def __exit__(self, *a):
        self.destroy_node()
        W.in_finally = False


class VerbExtension:
    def __init__(self): pass


class LaunchEntity:
    def __init__(self, *a, **kw):
        self.a, self.kw = a, kw


class LaunchDescription:
    def __init__(self, entities=None):
        self.entities = list(entities or [])


def resolve(x, cfg):
    """A launch substitution as the launch system resolves it."""
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return "".join(resolve(y, cfg) for y in x)
    n = type(x).__name__
    if n == "LaunchConfiguration":
        return cfg[x.a[0] if x.a else x.kw["variable_name"]]
    if n == "PythonExpression":
        return str(eval(resolve(x.a[0] if x.a else x.kw["expression"], cfg)))
    raise RuntimeError("harness: unknown substitution %s" % n)


class Graph:
    """Stand-in for pygraphviz.AGraph that keeps nodes and edges."""
    last = None

    def __init__(self, **kw):
        self.nodes_, self.edges_, self.node_attr, self.graph_attr = {}, [], {}, {}
        self.drawn = []
        Graph.last = self

    def add_node(self, n, **kw): self.nodes_[n] = kw
    def add_edge(self, a, b, **kw): self.edges_.append((a, b))
    def layout(self, **kw): pass
    def draw(self, path, **kw): self.drawn.append(path)


class AnyMeta(type):
    def __getattr__(cls, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Any()


class Any(metaclass=AnyMeta):
    """Accepts everything (widgets)."""
    def __init__(self, *a, **kw): pass

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Any()

    def __call__(self, *a, **kw): return Any()


class Menu:
    choose = None     # label chosen by the user
    shown = []

    def __init__(self, *a): self.actions = []

    def addAction(self, *a):
        act = types.SimpleNamespace(text=a[-1])
        self.actions.append(act)
        return act

    def exec(self, *a):
        Menu.shown = [x.text for x in self.actions]
        for x in self.actions:
            if x.text == Menu.choose:
                return x
        return None
    exec_ = exec


def install():
    module("ros2cli.node.direct", add_arguments=lambda p: p.add_argument("--spin-time", type=float, default=None), DirectNode=DirectNode)
    module("ros2cli.node.strategy", NodeStrategy=NodeStrategy)
    module("ros2cli.verb", VerbExtension=VerbExtension)
    module("ros2cli.command", add_subparsers_on_demand=lambda *a, **k: None, CommandExtension=object)

    class NodeNameCompleter:
        def __init__(self, **kw): pass
    module("ros2node.api", NodeNameCompleter=NodeNameCompleter)
    module("ros2topic.api", get_topic_names_and_types=lambda node, include_hidden_topics=False: list(W.topics))
    module("ros2service.api", get_service_names_and_types=lambda node, **k: list(W.service_list))
    module("rosidl_runtime_py", message_to_yaml=lambda m, flow_style=False: str(m))
    module("control_msgs.msg", HardwareStatus=type("HardwareStatus", (), {}))
    module("pygraphviz", AGraph=Graph)
    names = {}
    for n in ("DeclareLaunchArgument", "LaunchConfiguration", "PythonExpression", "Node"):
        names[n] = type(n, (LaunchEntity,), {})
    module("launch", LaunchDescription=LaunchDescription)
    module("launch.actions", DeclareLaunchArgument=names["DeclareLaunchArgument"])
    module("launch.substitutions", LaunchConfiguration=names["LaunchConfiguration"], PythonExpression=names["PythonExpression"])
    module("launch_ros.actions", Node=names["Node"])
    # graphical front end
    module("ament_index_python.packages", get_package_share_directory=lambda n: "/nonexistent")
    module("python_qt_binding", loadUi=lambda *a, **k: None)
    module("python_qt_binding.QtCore", QAbstractTableModel=type("QAbstractTableModel", (object,), {"__init__": lambda self, *a: None}),
           Qt=Any, QTimer=Any)
    module("python_qt_binding.QtGui", QCursor=Any, QFont=Any, QIcon=Any, QStandardItem=Any, QStandardItemModel=Any)
    module("python_qt_binding.QtWidgets", QHeaderView=Any, QMenu=Menu, QStyledItemDelegate=type("QStyledItemDelegate", (object,), {}), QWidget=Any)
    module("qt_gui.plugin", Plugin=type("Plugin", (object,), {"__init__": lambda self, *a: None}))
    class WaitForTopics:
        def __init__(self, topics, timeout=5.0): self.topics = topics
        def wait(self): return all(t in W.published for t, _ in self.topics)
        def received_messages(self, t): return W.published[t]
        def shutdown(self): pass
    module("launch_testing_ros", WaitForTopics=WaitForTopics)
    module("sensor_msgs.msg", JointState=type("JointState", (), {}))
    # parameters
    gp = stubs.make_srv("GetParameters", "string[] names\n---\nParameterValue[] values\n")
    module("rcl_interfaces.srv").GetParameters = gp
    sys.path.insert(0, os.path.join(stubs.REPO, "ros2controlcli"))
    sys.path.insert(0, os.path.join(stubs.REPO, "rqt_controller_manager"))
    return argparse, gp
