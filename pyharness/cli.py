#!/usr/bin/env python3
"""C30: client helpers, every command-line verb, completers, the graphical front end and the launch helpers."""
import argparse
import contextlib
import importlib
import io
import os
import re
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
import clistubs
from stubs import W
from cmworld import CM, TYPE_OF, pvalue
import vh
from vh import check, rec, run_cases

srvs, svc = stubs.load_controller_manager()
stubs.patch_process()
_, GetParameters = clistubs.install()
ListParameters = stubs.module("rcl_interfaces.srv").ListParameters
from rclpy.node import Node  # noqa: E402
import controller_manager.spawner as spawner  # noqa: E402
import controller_manager.launch_utils as launch_utils  # noqa: E402

TMP = tempfile.mkdtemp(prefix="vcli_", dir=os.environ.get("TMPDIR", "/tmp"))
NAMES = ["ctrl", "ctrl_1", "ctrl_10", "arm/joint", "broad", "x"]
HWS = ["arm", "arm_2", "gripper", "imu"]


def cleanup():
    import shutil
    os.chdir("/")
    shutil.rmtree(TMP, ignore_errors=True)


def quiet(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        try:
            return f(), None, buf
        except (RuntimeError, svc.ServiceNotFoundError, AssertionError, OSError) as e:
            return None, e, buf
        except SystemExit as e:
            return ("exit", e.code), e, buf


def place(r):
    """A namespace, a name of the manager and its full name."""
    ns = r.pick(["/", "/", "/robot", "/a/b"])
    name = r.pick(["controller_manager", "cm", "/other/cm", "/controller_manager"])
    return ns, name, name if name.startswith("/") else ("" if ns == "/" else ns) + "/" + name


def state_msg(label):
    ids = {"unconfigured": 1, "inactive": 2, "active": 3, "finalized": 4}
    return stubs.TYPES["State"](id=ids[label], label=label)


# ------------------------------------------------------------------ wrappers and the service caller
def wrapper_call(r, node, cmname, kw):
    """-> (function, service, expected request)"""
    n = r.pick(NAMES + ["", "\u00e4 b"])
    w = r.pick(["configure", "list", "types", "hw", "hwi", "load", "reload", "sethw", "switch", "unload", "cleanup"])
    if w == "configure":
        return lambda: svc.configure_controller(node, cmname, n, **kw), "configure_controller", {"name": n}
    if w == "list":
        return lambda: svc.list_controllers(node, cmname, **kw), "list_controllers", {}
    if w == "types":
        return lambda: svc.list_controller_types(node, cmname, **kw), "list_controller_types", {}
    if w == "hw":
        return lambda: svc.list_hardware_components(node, cmname, **kw), "list_hardware_components", {}
    if w == "hwi":
        return lambda: svc.list_hardware_interfaces(node, cmname, **kw), "list_hardware_interfaces", {}
    if w == "load":
        return lambda: svc.load_controller(node, cmname, n, **kw), "load_controller", {"name": n}
    if w == "reload":
        k = r.chance(0.5)
        return lambda: svc.reload_controller_libraries(node, cmname, k, **kw), "reload_controller_libraries", {"force_kill": k}
    if w == "sethw":
        s = r.pick(["unconfigured", "inactive", "active", "finalized"])
        m = state_msg(s)
        return lambda: svc.set_hardware_component_state(node, cmname, n, m, **kw), "set_hardware_component_state", {"name": n, "target_state": m.as_dict()}
    if w == "unload":
        return lambda: svc.unload_controller(node, cmname, n, **kw), "unload_controller", {"name": n}
    if w == "cleanup":
        return lambda: svc.cleanup_controller(node, cmname, n, **kw), "cleanup_controller", {"name": n}
    de, ac = r.sample(NAMES, r.randint(0, 3)), r.sample(NAMES, r.randint(0, 3))
    if r.chance(0.2):
        de, ac = tuple(de), tuple(ac)
    st, asap, t = r.randint(0, 4), r.chance(0.5), r.pick([0.0, 5.0, 0.25, 1e-3, 12, 3600.5])
    kw2 = {k: v for k, v in kw.items() if k == "call_timeout"}
    return (lambda: svc.switch_controllers(node, cmname, de, ac, st, asap, t, **kw2), "switch_controller",
            {"activate_controllers": list(ac), "deactivate_controllers": list(de), "strictness": st, "activate_asap": asap,
             "timeout": {"sec": int(t), "nanosec": int(round((t - int(t)) * 1e9))}})


def case_wrappers(r):
    W.reset()
    W.initialized = 1
    W.namespace, cmname, full = place(r)
    node = Node("n")
    W.default_available = r.pick([0.0, 0.0, 0.0, 4.0, 25.0, 61.0])
    for _ in range(r.randint(1, 5)):
        kw = {}
        if r.chance(0.5):
            kw["service_timeout"] = r.pick([0.0, 1.0, 5.0, 30.0, 100.0])
        if r.chance(0.5):
            kw["call_timeout"] = r.pick([0.5, 2.0, 10.0, 20.0])
        f, service, req = wrapper_call(r, node, cmname, kw)
        if service == "switch_controller":
            kw.pop("service_timeout", None)
        T = srvs[TYPE_OF[service]]
        silent = r.pick([0, 0, 0, 1, 2, 3, 4])
        delay = r.pick([0.01, 0.01, 1.0, 7.0])
        W.services.clear()
        got = []
        answers = []

        def serve(d):
            got.append((W.now, d))
            a = T.Response()
            if hasattr(a, "ok"):
                a.ok = r.chance(0.5)
            answers.append(a)
            if len(got) <= silent:
                return None
            return a, delay
        W.services[full + "/" + service] = serve
        # managers that must not be asked
        wrong = []
        for o in ("/controller_manager", "/cm", "/robot/cm", "/x"):
            if o != full:
                W.services[o + "/" + service] = lambda d: wrong.append(d)
        t0 = W.now
        ev0 = len(W.events)
        st = kw.get("service_timeout", 0.0)
        ct = kw.get("call_timeout", 10.0)
        res, err, _ = quiet(f)
        rec.count("helper_calls")
        tail = lambda: " %s kw %s silent %d delay %g avail %g now %g got %d" % (service, kw, silent, delay, W.default_available, t0, len(got))
        check(not wrong, "wrong_manager", "another manager was asked" + tail())
        missing = st > 0 and t0 + st < W.default_available
        rec.distinct("%s %s %s %d %g %s" % (service, ct, st, silent, delay, missing))
        if missing:
            rec.count("managers_missing")
            check(isinstance(err, svc.ServiceNotFoundError) and not got, "missing_not_reported", "result %s %r" % (res, err) + tail())
            check(abs(W.now - t0 - st) < 1e-6, "missing_wait", "waited %g" % (W.now - t0) + tail())
            continue
        slow = delay > ct
        tries = 3 if slow else min(silent + 1, 3)
        check(len(got) == tries, "attempts", "%d attempts expected %d" % (len(got), tries) + tail())
        check(all(d == req for _, d in got), "request_content", "sent %s expected %s" % ([d for _, d in got], req) + tail())
        if slow or silent >= 3:
            rec.count("silent_managers")
            check(isinstance(err, RuntimeError), "silence_not_reported", "result %s %r" % (res, err) + tail())
        else:
            check(err is None and res is answers[-1], "answer", "result %s %r expected %s" % (res, err, answers[-1]) + tail())
        waits = [e[1] for e in W.events[ev0:] if e[0] == "spin"]
        check(all(abs(x - ct) < 1e-9 for x in waits if x is not None) and None not in waits, "call_timeout", "waited %s" % waits + tail())
        avail = max(t0, W.default_available)
        check(got and abs(got[0][0] - avail) < 1e-6, "asked_when_available", "first request at %g available at %g" % (got[0][0] if got else -1, avail) + tail())
    clients = [e[1] for e in W.events if e[0] == "client"]
    check(len(clients) == len(set(clients)), "clients", "more than one client for a service: %s" % clients)


def case_parameters(r):
    W.reset()
    W.initialized = 1
    W.namespace, cmname, full = place(r)
    node = Node("n")
    cm = CM(srvs, full)
    n, p = r.pick(NAMES), r.pick(["type", "params_file", "x.y"])
    v = r.pick(["a/B", "text with spaces", 3, 2.5, True, [1, 2], ["a", "b c"], ["/x/y.yaml"], "12", "true", [], -7, 1e-9, [True, False], [0.5, 1.0]])
    fault = r.pick([None, None, "fail", "silent"])
    if fault:
        cm.fault_of[("set_parameters", n + "." + p)] = fault
    res, err, _ = quiet(lambda: svc.set_controller_parameters(node, cmname, n, p, v))
    rec.count("parameters_set")
    tail = lambda: " %s.%s = %r fault %s: %s %r %s" % (n, p, v, fault, res, err, cm.calls)
    check(len(cm.calls) == (3 if fault == "silent" else 1), "parameter_requests", "requests" + tail())
    for s, q in cm.calls:
        check(s == "set_parameters" and len(q["parameters"]) == 1 and q["parameters"][0]["name"] == n + "." + p, "parameter_name", "name" + tail())
        w = stubs.get_parameter_value(str(v)).as_dict()
        check(q["parameters"][0]["value"] == w, "parameter_value", "value" + tail())
    if fault == "silent":
        check(isinstance(err, RuntimeError), "parameter_result", "result" + tail())
    else:
        check(err is None and res is (fault is None), "parameter_result", "result" + tail())


# ------------------------------------------------------------------ verbs
def verb(name, cls):
    return getattr(importlib.import_module("ros2controlcli.verb." + name), cls)


VERBS = {n: "".join(x.capitalize() for x in n.split("_")) + "Verb" for n in
         ["cleanup_controller", "list_controller_types", "list_controllers", "list_hardware_components", "list_hardware_interfaces", "load_controller",
          "reload_controller_libraries", "set_controller_state", "set_hardware_component_state", "switch_controllers", "unload_controller",
          "view_controller_chains", "view_hardware_status"]}


def run_verb(name, argv):
    v = verb(name, VERBS[name])()
    p = argparse.ArgumentParser()
    v.add_arguments(p, "ros2 control")

    def go():
        return v.main(args=p.parse_args(argv))
    res, err, buf = quiet(go)
    if err is None:
        ok = res in (None, 0)
    else:
        ok = False
    return ok, err, buf.getvalue(), v


def strip(line):
    return re.sub(r"\033\[\d+m", "", line)


def sections(lines, titles):
    """Splits indented output into {title: [items]}; titles that are not there are missing."""
    out, cur = {}, None
    for l in lines:
        t = l.strip()
        if t.rstrip(":") in titles:
            cur = t.rstrip(":")
            out[cur] = []
        elif cur is not None and t:
            out[cur].append(t)
    return out


def case_verb(r):
    W.reset()
    W.topics, W.service_list = [], []
    W.namespace, cmname, full = place(r)
    cm = CM(srvs, full)
    for n in NAMES:
        if r.chance(0.6):
            cm.state[n] = r.pick(["unconfigured", "inactive", "active"])
    if r.chance(0.05):
        cm.state.clear()
    for n in HWS:
        if r.chance(0.7):
            cm.hw[n] = r.pick(["unconfigured", "inactive", "active"])
    st0, hw0 = dict(cm.state), dict(cm.hw)
    name = r.pick(["cleanup_controller", "unload_controller", "load_controller", "load_controller", "reload_controller_libraries", "set_controller_state",
                   "set_controller_state", "set_hardware_component_state", "switch_controllers", "switch_controllers"])
    n = r.pick(NAMES)
    argv, exp, ok = [], [], True     # exp: [(service, key, check of the request)]
    fault = None
    if r.chance(0.3):
        fault = r.pick(["fail", "fail", "silent"])

    def faulty(s, key):
        """The outcome of a request; the fault is put on the last one."""
        return fault and ("%s %s" % (s, key)) == chosen

    chosen = None
    if name in ("cleanup_controller", "unload_controller"):
        argv = [n]
        if fault:
            chosen = "%s %s" % (name, n)
        ok = n in st0 and (st0[n] != "active") and not fault
        exp = [(name, n, None)]
    elif name == "reload_controller_libraries":
        k = r.chance(0.5)
        if k:
            argv = ["--force-kill"]
        if fault:
            chosen = "reload_controller_libraries "
        exp = [(name, "", lambda q: q["force_kill"] is k)]
        ok = not fault
    elif name == "set_hardware_component_state":
        h, s = r.pick(HWS), r.pick(["unconfigured", "inactive", "active"])
        argv = [h, s]
        if fault:
            chosen = "%s %s" % (name, h)
        exp = [(name, h, lambda q: q["target_state"] == state_msg(s).as_dict())]
        ok = h in hw0 and not fault
    elif name == "switch_controllers":
        act, dea = r.sample(NAMES, r.randint(0, 3)), r.sample(NAMES, r.randint(0, 3))
        dea = [x for x in dea if x not in act]
        t = r.pick([None, 0.5, 12.0, 3])
        asap, strict = r.chance(0.4), r.pick([0, 1, 2])
        parts = []
        if act or r.chance(0.2):
            parts.append(["--activate"] + act)
        if dea or r.chance(0.2):
            parts.append(["--deactivate"] + dea)
        if t is not None:
            parts.append(["--switch-timeout", str(t)])
        if asap:
            parts.append(["--activate-asap"])
        if strict:
            parts.append(["--strict" if strict == 2 else "--best-effort"])
        r.shuffle(parts)
        argv = [x for q in parts for x in q]
        want_t = 5.0 if t is None else t
        key = ("+" + ",".join(act)) if act else ("-" + ",".join(dea))
        if fault:
            chosen = "switch_controller " + key
        exp = [("switch_controller", key, lambda q: q["activate_controllers"] == act and q["deactivate_controllers"] == dea and q["strictness"] == strict and
                q["activate_asap"] is asap and abs(q["timeout"]["sec"] + 1e-9 * q["timeout"]["nanosec"] - want_t) < 1e-6)]
        ok = not fault and (strict != 2 or all(st0.get(c) == "inactive" for c in act) and all(st0.get(c) == "active" for c in dea))
    elif name == "load_controller":
        argv = [n]
        s = r.pick([None, None, "inactive", "active"])
        f = None
        u = r.random()
        if u < 0.3:
            f = os.path.join(TMP, "p.yaml")
            ty = r.pick([None, "pkg/T"])
            text = "/**/%s:\n  ros__parameters:\n    a: 1\n%s" % (n, "    type: %s\n" % ty if ty else "")
            if r.chance(0.2):
                text, ty = "/**/stranger:\n  ros__parameters:\n    type: a/B\n", 0
            with open(f, "w") as fh:
                fh.write(text)
            argv.append(f if r.chance(0.5) else os.path.relpath(f))
        elif u < 0.38:
            f = os.path.join(TMP, "nope.yaml")
            ty = -1
            argv.append(f)
        if s:
            argv += ["--set-state", s]
        steps = []
        if n not in st0:
            if f and ty == -1:
                steps.append(("abort", "", None))
            elif f and ty != 0:
                steps.append(("set_parameters", n + ".params_file", lambda q: pvalue(q["parameters"][0]["value"]) == [f]))
                if ty:
                    steps.append(("set_parameters", n + ".type", lambda q: pvalue(q["parameters"][0]["value"]) == ty))
            steps.append(("load_controller", n, None))
        cur = st0.get(n, "unconfigured")
        if s:
            steps.append(("configure_controller", n, None))
            if s == "active":
                steps.append(("switch_controller", "+" + n, lambda q: not q["deactivate_controllers"] and q["strictness"] in (1, 2) and q["timeout"]["sec"] == 5))
        if fault and steps:
            x = r.pick(steps)
            chosen = "%s %s" % (x[0], x[1])
        for x in steps:
            if x[0] == "abort":
                ok = False
                break
            exp.append(x)
            if faulty(x[0], x[1]) or x[0] == "configure_controller" and cur == "active":
                ok = False
                break
    else:
        s = r.pick(["unconfigured", "inactive", "active"])
        argv = [n, s]
        cur = st0.get(n)
        step = {("inactive", "unconfigured"): ("cleanup_controller", n, None), ("unconfigured", "inactive"): ("configure_controller", n, None),
                ("active", "inactive"): ("switch_controller", "-" + n, lambda q: q["strictness"] in (1, 2) and q["timeout"]["sec"] == 5),
                ("inactive", "active"): ("switch_controller", "+" + n, lambda q: not q["deactivate_controllers"] and q["strictness"] in (1, 2))}.get((cur, s))
        if step:
            exp = [step]
            if fault:
                chosen = "%s %s" % (step[0], step[1])
            ok = not fault
        else:
            ok = False
    if chosen:
        a, b = chosen.split(" ", 1)
        cm.fault_of[(a, b)] = fault
    else:
        fault = None
    if cmname != "controller_manager" or r.chance(0.3):
        argv = argv + ["-c" if r.chance(0.5) else "--controller-manager", cmname]
    if r.chance(0.1):
        argv = argv + ["--ros-args", "-r", "a:=b"]
    res, err, out, _ = run_verb(name, argv)
    tail = lambda: " %s %s states %s hw %s fault %s on %s -> %s %r calls %s output %s" % (
        name, argv, st0, hw0, fault, chosen, res, err, [(c[0], CM.key(*c)) for c in cm.calls], out[:300])
    rec.count("verb_" + name)
    rec.distinct("%s %s %s %s %s" % (name, res, fault, len(cm.calls), sorted(set(argv))[:6]))
    # requests
    want = []
    for x in exp:
        sil = fault == "silent" and chosen == "%s %s" % (x[0], x[1])
        want += [x] * (3 if sil else 1)
    got = [(c[0], CM.key(*c)) for c in cm.calls]
    check(got == [(x[0], x[1]) for x in want], "verb_requests:" + name, "expected %s" % [(x[0], x[1]) for x in want] + tail())
    if got == [(x[0], x[1]) for x in want]:
        for x, c in zip(want, cm.calls):
            check(x[2] is None or x[2](c[1]), "verb_request_content:" + name, "content %s" % c[1] + tail())
    check(res == bool(ok), "verb_result:" + name, "success %s expected %s" % (res, ok) + tail())
    check(W.alive_nodes == 0, "verb_node_left", "node left" + tail())


def mk(T, **kw):
    return stubs.TYPES[T](**kw)


def case_listing(r):
    W.reset()
    W.topics, W.service_list = [], []
    W.namespace, cmname, full = place(r)
    which = r.pick(["list_controllers", "list_controllers", "list_hardware_components", "list_hardware_interfaces", "list_controller_types", "view_controller_chains"])
    argv = [] if cmname == "controller_manager" else ["-c", cmname]
    asked = []
    ifs = ["j%d/%s" % (k, t) for k in (1, 2, 10) for t in ("position", "velocity")]
    ctrls = []
    for n in r.sample(NAMES, r.randint(0, 5)):
        conns = [mk("ChainConnection", name=o, reference_interfaces=r.sample([o + "/r1", o + "/r2"], r.randint(1, 2))) for o in r.subset(NAMES, 0.2) if o != n]
        ctrls.append(mk("ControllerState", name=n, state=r.pick(["active", "inactive", "unconfigured", "finalized"]), type="pkg/" + n.upper(),
                        claimed_interfaces=r.subset(ifs, 0.3), required_command_interfaces=r.subset(ifs, 0.4), required_state_interfaces=r.subset(ifs, 0.4),
                        is_chainable=r.chance(0.5), chain_connections=conns, reference_interfaces=[n + "/" + x for x in r.subset(["r1", "r2"], 0.5)],
                        exported_state_interfaces=[n + "/" + x for x in r.subset(["s1", "s2"], 0.4)], update_rate=r.randint(0, 1000), is_async=r.chance(0.5)))

    def hwi(n):
        return mk("HardwareInterface", name=n, data_type=r.pick(["double", "bool"]), is_available=r.chance(0.6), is_claimed=r.chance(0.4))
    cifs, sifs = [hwi(n) for n in r.subset(ifs, 0.5)], [hwi(n) for n in r.subset(ifs, 0.5)]
    r.shuffle(cifs)
    comps = []
    for n in r.sample(HWS, r.randint(0, 3)):
        comps.append(mk("HardwareComponentState", name=n, type=r.pick(["system", "sensor"]), plugin_name="p/" + n, is_async=r.chance(0.5), rw_rate=r.randint(1, 999),
                        state=state_msg(r.pick(["unconfigured", "inactive", "active", "finalized"])), command_interfaces=[hwi(x) for x in r.subset(ifs, 0.4)],
                        state_interfaces=[hwi(x) for x in r.subset(ifs, 0.4)]))
    types_ = r.sample(["a/A", "b/B", "c/C"], r.randint(0, 3))
    answers = {"list_controllers": srvs["ListControllers"].Response(controller=ctrls),
               "list_hardware_components": srvs["ListHardwareComponents"].Response(component=comps),
               "list_hardware_interfaces": srvs["ListHardwareInterfaces"].Response(command_interfaces=cifs, state_interfaces=sifs),
               "list_controller_types": srvs["ListControllerTypes"].Response(types=types_, base_classes=["base" + t for t in types_])}
    for s, a in answers.items():
        W.services[full + "/" + s] = (lambda d, s=s, a=a: (asked.append(s), a)[1])
    verbose = r.chance(0.4)
    rec.count("listing_" + which)
    if which == "list_controllers":
        flags = {f: r.chance(0.3) for f in ["claimed-interfaces", "required-state-interfaces", "required-command-interfaces", "chained-interfaces", "exported-interfaces"]}
        argv += ["--" + f for f, v in flags.items() if v] + (["-v"] if verbose else [])
        ok, err, out, _ = run_verb(which, argv)
        tail = lambda: " argv %s controllers %s output %s" % (argv, ctrls, out)
        check(ok and err is None and asked == [which], "listing_result", "%r asked %s" % (err, asked) + tail())
        lines = [strip(x) for x in out.splitlines()]
        if not ctrls:
            check(len(lines) == 1 and lines[0].startswith("No controllers"), "listing_empty", "empty" + tail())
            return
        heads = [i for i, x in enumerate(lines) if x and not x.startswith("\t")]
        check([sorted(lines[i].split()) for i in heads] == [sorted([c.name, c.type, c.state]) for c in ctrls], "listing_controllers", "lines" + tail())
        T = {"claimed interfaces": ("claimed-interfaces", lambda c: c.claimed_interfaces),
             "required command interfaces": ("required-command-interfaces", lambda c: c.required_command_interfaces),
             "required state interfaces": ("required-state-interfaces", lambda c: c.required_state_interfaces),
             "chained to interfaces": ("chained-interfaces", lambda c: [x for k in c.chain_connections for x in k.reference_interfaces]),
             "exported reference interfaces": ("exported-interfaces", lambda c: c.reference_interfaces),
             "exported state interfaces": ("exported-interfaces", lambda c: c.exported_state_interfaces)}
        if len(heads) == len(ctrls):
            for c, i, j in zip(ctrls, heads, heads[1:] + [len(lines)]):
                sec = sections(lines[i + 1:j], set(T))
                want = {t: list(g(c)) for t, (f, g) in T.items() if verbose or flags[f]}
                check(sec == want, "listing_sections", "sections %s expected %s" % (sec, want) + tail())
                blk = "\n".join(lines[i + 1:j])
                if verbose:
                    check("update_rate: %d Hz" % c.update_rate in blk and "is_async: %s" % c.is_async in blk, "listing_rate", "rate" + tail())
    elif which == "list_hardware_components":
        ok, err, out, _ = run_verb(which, argv + (["-v"] if verbose else []))
        tail = lambda: " components %s output %s" % (comps, out)
        check(ok and err is None and asked == [which], "listing_result", "%r" % err + tail())
        blocks = re.split(r"(?m)^Hardware Component ", strip(out))[1:]
        check(len(blocks) == len(comps), "listing_components", "blocks" + tail())
        for b, c in zip(blocks, comps):
            want = ["name: " + c.name, "type: " + c.type, "plugin name: " + c.plugin_name, "state: id=%d label=%s" % (c.state.id, c.state.label),
                    "read/write rate: %d Hz" % c.rw_rate, "is_async: %s" % c.is_async]
            got = [x.strip() for x in b.splitlines()]
            check(all(x in got for x in want), "listing_component", "component %s" % c + tail())
            sec = sections(b.splitlines(), {"command interfaces", "state interfaces"})
            av = lambda i: "[available]" if i.is_available else "[unavailable]"
            wc = [[i.name] + (["[%s]" % i.data_type] if verbose else []) + [av(i), "[claimed]" if i.is_claimed else "[unclaimed]"] for i in c.command_interfaces]
            ws = [[i.name, "[%s]" % i.data_type, av(i)] for i in c.state_interfaces]
            check([x.split() for x in sec.get("command interfaces", [])] == wc, "listing_command_interfaces", "interfaces" + tail())
            check([x.split() for x in sec.get("state interfaces", [])] == (ws if verbose else []), "listing_state_interfaces", "interfaces" + tail())
    elif which == "list_hardware_interfaces":
        ok, err, out, _ = run_verb(which, argv + (["-v"] if verbose else []))
        tail = lambda: " command %s state %s output %s" % (cifs, sifs, out)
        check(ok and err is None and asked == [which], "listing_result", "%r" % err + tail())
        sec = sections([strip(x) for x in out.splitlines()], {"command interfaces", "state interfaces"})
        wc = sorted([i.name] + (["[%s]" % i.data_type] if verbose else []) + (["[available]", "[claimed]" if i.is_claimed else "[unclaimed]"] if i.is_available else
                                                                              ["[unavailable]", "[unclaimed]"]) for i in cifs)
        ws = sorted([i.name] + (["[%s]" % i.data_type] if verbose else []) for i in sifs)
        check([x.split() for x in sec.get("command interfaces", [])] == wc, "listing_command_interfaces", "interfaces" + tail())
        check([x.split() for x in sec.get("state interfaces", [])] == ws, "listing_state_interfaces", "interfaces" + tail())
    elif which == "list_controller_types":
        ok, err, out, _ = run_verb(which, argv)
        check(ok and err is None and [x.split() for x in out.splitlines()] == [[t, "base" + t] for t in types_], "listing_types", "types %s output %s" % (types_, out))
    else:
        # only connections to controllers that export the interface can be drawn
        exported = {}
        for c in ctrls:
            c.state = "active"
            for x in c.reference_interfaces:
                exported[x] = c.name
        for c in ctrls:
            for k in c.chain_connections:
                k.reference_interfaces = [x for x in k.reference_interfaces if x in exported]
        import copy
        before = copy.deepcopy([c.as_dict() for c in ctrls])
        ok, err, out, _ = run_verb(which, argv)
        g = clistubs.Graph.last
        tail = lambda: " controllers %s edges %s nodes %s" % (before, g.edges_ if g else None, g.nodes_ if g else None)
        check(ok and err is None and sorted(asked) == ["list_controllers", "list_hardware_interfaces"], "listing_result", "%r" % err + tail())
        if not ok:
            return
        want = set()
        for c in ctrls:
            for k in c.chain_connections:
                for x in k.reference_interfaces:
                    want.add((c.name, exported[x], x))
            for x in set(c.required_state_interfaces):
                want.add(("state_interfaces", c.name, x))
            for x in set(c.required_command_interfaces):
                want.add((c.name, "command_interfaces", x))
        got = set()
        for a, b in g.edges_:
            an, ap = a.split(":", 1)
            bn, bp = b.split(":", 1)
            ai, bi = re.sub(r"^(controller|state|command)_(start|end)_", "", ap), re.sub(r"^(controller|state|command)_(start|end)_", "", bp)
            check(ai == bi, "chain_edge_ports", "edge %s %s" % (a, b) + tail())
            got.add((an, bn, ai))
            for nn, pp in ((an, ap), (bn, bp)):
                lab = g.nodes_.get(nn, {}).get("label", "")
                check(nn in ("command_interfaces", "state_interfaces") or "<%s>" % pp in lab, "chain_edge_port_missing", "port %s of %s: %s" % (pp, nn, lab) + tail())
        check(got == want, "chain_edges", "edges %s expected %s" % (sorted(got), sorted(want)) + tail())
        check(set(g.nodes_) == {c.name for c in ctrls} | {"command_interfaces", "state_interfaces"}, "chain_nodes", "nodes" + tail())
        for c in ctrls:
            lab = g.nodes_[c.name]["label"]
            parts = [x for x in re.split(r"[|{}]", lab.split("|", 1)[1]) if x.strip()]
            ports = {re.search(r"<([^>]*)>", x).group(1) for x in parts if "<" in x}
            wantp = {"state_end_" + x for x in c.required_state_interfaces} | {"command_start_" + x for x in c.required_command_interfaces} | \
                {"controller_end_" + x for x in c.reference_interfaces} | {"controller_start_" + x for k in c.chain_connections for x in k.reference_interfaces}
            check(ports == wantp, "chain_ports", "ports of %s %s expected %s" % (c.name, ports, wantp) + tail())
    rec.distinct("%s %s %d %d" % (which, verbose, len(ctrls), len(comps)))


class Obj:
    def __init__(self, **kw): self.__dict__.update(kw)


def case_status(r):
    """view_hardware_status: which messages are shown, and when an unknown filter is reported."""
    W.reset()
    W.initialized = 1
    W.topics = []
    want_topics = []
    for n in ["/a/hardware_status", "/b/hardware_status", "/hardware_status", "/c/other", "/hardware_status/x"]:
        if r.chance(0.4):
            t = r.pick([["control_msgs/msg/HardwareStatus"], ["std_msgs/msg/String"], ["std_msgs/msg/String", "control_msgs/msg/HardwareStatus"]])
            W.topics.append((n, t))
            if n.endswith("/hardware_status") and "control_msgs/msg/HardwareStatus" in t:
                want_topics.append(n)
    ids, devs = ["hw1", "hw2", "hw10"], ["d1", "d2", "d10"]
    fh, fd = r.pick([None, None, "hw1", "zzz"]), r.pick([None, None, "d1", "zzz"])
    argv = (["-i", fh] if fh else []) + (["--device-id", fd] if fd else [])
    import rclpy
    msgs = []
    for _ in range(r.randint(1, 25)):
        ds = []
        for d in r.subset(devs, 0.5):
            ds.append(Obj(device_id=d, hardware_status=["G-%s" % d] if r.chance(0.6) else [], canopen_states=["C-%s" % d] if r.chance(0.3) else [],
                          ethercat_states=["E-%s" % d] if r.chance(0.3) else [], vda5050_states=[]))
        msgs.append(Obj(hardware_id=r.pick(ids), header=Obj(stamp=Obj(sec=r.randint(0, 10**9), nanosec=r.randint(0, 999999999))), hardware_device_states=ds))
    shown = []
    stopped = []
    buf_marks = []

    def spin(node):
        cbs = [cb for _, cb in node.subs]
        check(sorted(t for t, _ in node.subs) == sorted(want_topics), "status_topics", "subscribed %s expected %s" % ([t for t, _ in node.subs], want_topics))
        for m in msgs:
            s0 = W.shutdowns
            at = sys.stdout.tell()
            r.pick(cbs)(m)
            sys.stdout.seek(at)
            shown.append(sys.stdout.read())
            if W.shutdowns > s0:
                stopped.append(len(shown) - 1)
                break
    old = rclpy.spin
    rclpy.spin = spin
    try:
        ok, err, out, _ = run_verb("view_hardware_status", argv)
    finally:
        rclpy.spin = old
    tail = lambda: " argv %s topics %s output %s" % (argv, W.topics, out[:1500])
    rec.count("status_views")
    rec.distinct("status %s %s %d" % (fh, fd, len(shown)))
    if not want_topics:
        check(not ok and not shown, "status_no_topic", "no topic" + tail())
        return
    check(ok and err is None, "status_result", "%r" % err + tail())
    seen_h, seen_d = set(), set()
    for k, (m, o) in enumerate(zip(msgs, shown)):
        seen_h.add(m.hardware_id)
        seen_d |= {d.device_id for d in m.hardware_device_states}
        o = strip(o)
        if k == 9:
            bad = (fh and fh not in seen_h) or (fd and fd not in seen_d)
            check((k in stopped) == bool(bad), "status_discovery", "unknown filter" + tail())
            if bad:
                wrong = fh if (fh and fh not in seen_h) else fd
                check("'%s' not found" % wrong in o, "status_discovery_text", "text %s" % o + tail())
                avail = [x.strip() for x in o.splitlines() if x.startswith("\t")]
                check(avail == sorted(seen_h if wrong == fh and fh not in seen_h else seen_d), "status_available", "listed %s" % avail + tail())
                break
        match = (not fh or m.hardware_id == fh) and (not fd or any(d.device_id == fd for d in m.hardware_device_states))
        if not match:
            check(o.strip() == "", "status_filtered", "shown although filtered: %s" % o + tail())
            continue
        hs = re.findall(r"Hardware ID: (\S+)", o)
        dsh = re.findall(r"Device ID: (\S+)", o)
        wantd = [d.device_id for d in m.hardware_device_states if not fd or d.device_id == fd]
        check(hs == [m.hardware_id] and dsh == wantd, "status_shown", "shown %s %s expected %s %s" % (hs, dsh, m.hardware_id, wantd) + tail())
        want = sorted(x for d in m.hardware_device_states if not fd or d.device_id == fd for x in d.hardware_status + d.canopen_states + d.ethercat_states + d.vda5050_states)
        got = sorted(x.strip() for x in o.splitlines() if re.match(r"^\s+[GCE]-", x))
        check(got == want, "status_states", "states %s expected %s" % (got, want) + tail())
    check(not (stopped and stopped[0] != 9), "status_discovery", "stopped at %s" % stopped + tail())


def case_completers(r):
    W.reset()
    W.namespace, cmname, full = place(r)
    api = importlib.import_module("ros2controlcli.api")
    cm = CM(srvs, full)
    for n in NAMES:
        if r.chance(0.6):
            cm.state[n] = r.pick(["unconfigured", "inactive", "active", "finalized"])
    for n in HWS:
        if r.chance(0.6):
            cm.hw[n] = r.pick(["unconfigured", "inactive", "active", "finalized"])
    names = []
    for n in NAMES:
        if r.chance(0.5):
            names += [n + ".type", n + ".params_file"]
    names += r.subset(["update_rate", "type", "x.types", "a.typeb"], 0.4)
    r.shuffle(names)
    W.services[full + "/list_parameters"] = lambda d: ListParameters.Response(result=stubs.TYPES["rcl_interfaces/ListParametersResult"](names=names))
    args = Obj(controller_manager=cmname)
    valid = r.pick([None, ["active"], ["inactive"], ["unconfigured", "active"]])
    v = valid or ["active", "inactive", "configured", "unconfigured"]
    a, e1, _ = quiet(lambda: (api.LoadedControllerNameCompleter(valid) if valid else api.LoadedControllerNameCompleter())("", args))
    check(a == [n for n, s in cm.state.items() if s in v], "completer_controllers", "%s %r of %s" % (a, e1, cm.state))
    b, e2, _ = quiet(lambda: (api.LoadedHardwareComponentNameCompleter(valid) if valid else api.LoadedHardwareComponentNameCompleter())("", args))
    check(b == [n for n, s in cm.hw.items() if s in v], "completer_hardware", "%s %r of %s" % (b, e2, cm.hw))
    c, e3, _ = quiet(lambda: api.ControllerNameCompleter()("", args))
    check(c == [n[:-5] for n in names if n.endswith(".type")], "completer_parameters", "%s %r of %s" % (c, e3, names))
    check(not cm.calls, "completer_requests", "requests %s" % cm.calls)
    rec.count("completions")
    rec.distinct("completer %s %d %d" % (valid, len(a or []), len(b or [])))


def case_gui(r):
    """The context menus of the graphical front end."""
    W.reset()
    W.initialized = 1
    W.namespace = "/"
    gui = importlib.import_module("rqt_controller_manager.controller_manager")
    full = r.pick(["/controller_manager", "/robot/cm", "/my_list/controllers"])
    cm = CM(srvs, full)
    other = [x for x in ("/controller_manager", "/second/cm") if x != full]
    cm2 = CM(srvs, other[0])
    for n in NAMES:
        if r.chance(0.6):
            cm.state[n] = r.pick(["unconfigured", "inactive", "active"])
    for n in HWS:
        if r.chance(0.7):
            cm.hw[n] = r.pick(["unconfigured", "inactive", "active"])
    configured = [n for n in NAMES if r.chance(0.7)]
    ptypes = {n + ".type": "pkg/" + n for n in configured}
    W.services[full + "/list_parameters"] = lambda d: ListParameters.Response(result=stubs.TYPES["rcl_interfaces/ListParametersResult"](
        names=list(ptypes) + ["update_rate"] + [n + ".params_file" for n in configured]))
    PV = stubs.TYPES["rcl_interfaces/ParameterValue"]
    W.services[full + "/get_parameters"] = lambda d: GetParameters.Response(
        values=[PV(type=4, string_value=ptypes[x]) if x in ptypes else PV() for x in d["names"]])
    g = gui.ControllerManager.__new__(gui.ControllerManager)
    g._node = Node("rqt")
    g._cm_name = full
    g._icons = {k: None for k in ("active", "inactive", "unconfigured", "unloaded")}
    g._controllers, g._hw_components = [], []
    row = [0]
    table = clistubs.Any()
    g._widget = Obj(ctrl_table_view=Obj(rowAt=lambda y: row[0], mapToGlobal=lambda p: p, setModel=lambda m: None),
                    hw_table_view=Obj(rowAt=lambda y: row[0], mapToGlobal=lambda p: p, setModel=lambda m: None))
    g._popup_widget = table
    _, err, _ = quiet(lambda: (g._update_controllers(), g._update_hw_components()))
    check(err is None, "gui_update", "%r" % err)
    loaded = list(cm.state.items())
    got = [(c.name, c.state, c.type) for c in g._controllers]
    want = [(n, s, "t/" + n) for n, s in loaded] + [(n, "", "pkg/" + n) for n in configured if n not in cm.state]
    check(got == want, "gui_controllers", "shown %s expected %s" % (got, want))
    check([(c.name, c.state.label) for c in g._hw_components] == list(cm.hw.items()), "gui_hardware", "shown %s" % g._hw_components)
    for k in range(3):
        if r.chance(0.6) and g._controllers:
            row[0] = r.randint(-1, len(g._controllers) - 1)
            if row[0] < 0:
                n, s, pick = None, None, None
            else:
                n, s = g._controllers[row[0]].name, g._controllers[row[0]].state
                pick = r.pick({"active": ["Deactivate (inactive)", "Deactivate and Unload (unloaded)"],
                               "inactive": ["Activate (active)", "Cleanup (unconfigured)", "Unload (unloaded)"],
                               "unconfigured": ["Configure and Activate (active)", "Configure (inactive)", "Unload (unloaded)"],
                               "": ["Load (unconfigured)"]}[s] + [None])
            clistubs.Menu.choose = pick
            del cm.calls[:]
            _, err, _ = quiet(lambda: g._on_ctrl_menu(Obj(y=lambda: 0)))
            seq = {("active", "Deactivate (inactive)"): ["-"], ("active", "Deactivate and Unload (unloaded)"): ["-", "unload_controller"],
                   ("inactive", "Activate (active)"): ["+"], ("inactive", "Cleanup (unconfigured)"): ["cleanup_controller"], ("inactive", "Unload (unloaded)"): ["unload_controller"],
                   ("unconfigured", "Configure and Activate (active)"): ["configure_controller", "+"], ("unconfigured", "Configure (inactive)"): ["configure_controller"],
                   ("unconfigured", "Unload (unloaded)"): ["unload_controller"], ("", "Load (unconfigured)"): ["load_controller"]}.get((s, pick), [])
            exp = [("switch_controller", x + n) if x in "+-" else (x, n) for x in seq]
            calls = [(a, CM.key(a, d)) for a, d in cm.calls]
            check(calls == exp and err is None, "gui_controller_menu", "%s: %s on %s -> %s expected %s %r" % (n, pick, s, calls, exp, err))
            for a, d in cm.calls:
                if a == "switch_controller":
                    check(d["strictness"] == 2 and len(d["activate_controllers"]) + len(d["deactivate_controllers"]) == 1, "gui_switch", "%s" % d)
            rec.count("gui_controller_actions", len(exp))
            rec.distinct("gui %s %s" % (s, pick))
        elif g._hw_components:
            row[0] = r.randint(0, len(g._hw_components) - 1)
            n, s = g._hw_components[row[0]].name, g._hw_components[row[0]].state.label
            pick = r.pick({"active": ["Deactivate", "Deactivate and Cleanup"], "inactive": ["Activate", "Cleanup"],
                           "unconfigured": ["Configure", "Configure and Activate"]}[s] + [None])
            clistubs.Menu.choose = pick
            del cm.calls[:]
            _, err, _ = quiet(lambda: g._on_hw_menu(Obj(y=lambda: 0)))
            t = {"Deactivate": "inactive", "Deactivate and Cleanup": "unconfigured", "Activate": "active", "Cleanup": "unconfigured", "Configure": "inactive",
                 "Configure and Activate": "active"}.get(pick)
            exp = [("set_hardware_component_state", {"name": n, "target_state": state_msg(t).as_dict()})] if t else []
            check(cm.calls == exp and err is None, "gui_hardware_menu", "%s: %s on %s -> %s %r" % (n, pick, s, cm.calls, err))
            rec.count("gui_hardware_actions", len(exp))
            rec.distinct("guihw %s %s" % (s, pick))
        quiet(lambda: (g._update_controllers(), g._update_hw_components()))
    check(not cm2.calls, "gui_wrong_manager", "requests to another manager")
    cms = r.subset(["/controller_manager", "/robot/cm", "/list", "/a/controllers", "/x/_list", "/cm_list_controllers"], 0.5)
    W.service_list = [(c + "/list_controllers", ["t"]) for c in cms] + [("/x/list_controller_types", ["t"]), ("/y", ["t"])]
    r.shuffle(W.service_list)
    got = gui._list_controller_managers(g._node)
    check(sorted(got) == sorted(cms), "gui_managers", "%s of %s" % (got, cms))


def parse_spawner(args):
    args = [a for a in args if a != ""]
    if "--controller" in args:
        g, c = spawner.parse_args_advanced(args)
    else:
        g, c = spawner.parse_native_args(args)
    return g, c


def case_launch(r):
    W.reset()
    cfg_cm, cfg_unload = r.pick(["controller_manager", "/robot/cm"]), r.pick(["true", "false"])
    extra = r.pick([[], ["--inactive"], ["--load-only"], ["--activate-as-group", "--switch-asap"], ["--switch-timeout", "7"]])
    names = r.sample(NAMES, r.randint(1, 4))
    files = ["/p/a.yaml", "/p/b.yaml", "/p/c.yaml"]
    kind = r.pick(["list", "dict", "single", "spawner"])
    extra_in = list(extra)
    per = {}
    if kind == "list":
        fs = r.pick([None, [], r.subset(files, 0.6), [files[0], None, files[1]]])
        nm = list(names)
        ld, err, _ = quiet(lambda: launch_utils.generate_controllers_spawner_launch_description(nm, fs, extra_in) if extra or r.chance(0.5) else
                           launch_utils.generate_controllers_spawner_launch_description(nm, controller_params_files=fs))
        check(nm == names, "launch_argument_changed", "list changed %s -> %s" % (names, nm))
        allf = [f for f in (fs or []) if f]
    elif kind == "dict":
        d = {n: r.pick([None, files[0], files[:2], files[2], []]) for n in names}
        bad = r.chance(0.1)
        if bad:
            d[names[0]] = r.pick([7, ("x",), {"a": 1}])
        ld, err, _ = quiet(lambda: launch_utils.generate_controllers_spawner_launch_description_from_dict(d, extra_in)) if not bad else (None, None, None)
        if bad:
            try:
                launch_utils.generate_controllers_spawner_launch_description_from_dict(d, extra_in)
                check(False, "launch_bad_type", "accepted %s" % d)
            except ValueError:
                rec.count("launch_bad")
            return
        allf = []
        for n in names:
            allf += d[n] if isinstance(d[n], list) else [d[n]] if d[n] else []
    elif kind == "single":
        names = names[:1]
        f = r.pick([None, files[1]])
        ld, err, _ = quiet(lambda: launch_utils.generate_load_controller_launch_description(names[0], f, extra_in))
        allf = [f] if f else []
    else:
        extra = r.pick([[], ["--activate-as-group"], ["-c", "/robot/cm"], ["--unload-on-kill"]])
        extra_in = list(extra)
        d = {}
        for n in names:
            e = {}
            if r.chance(0.6):
                e["param_file"] = r.pick([None, files[0], files[:2], files[1:]])
            if r.chance(0.4):
                e["load_only"] = r.chance(0.5)
            if r.chance(0.4):
                e["inactive"] = r.chance(0.5)
            if r.chance(0.3):
                e["ros_args"] = r.pick(["x", "a b"])
            d[n] = e
        bad = r.chance(0.12)
        if bad:
            d[names[0]][r.pick(["param_file", "load_only", "inactive", "ros_args"])] = r.pick([7, 1.5, ("x",)])
            try:
                launch_utils.generate_spawner_launch_description(d, extra_in)
                check(False, "launch_bad_type", "accepted %s" % d)
            except ValueError:
                rec.count("launch_bad")
            return
        ld, err, _ = quiet(lambda: launch_utils.generate_spawner_launch_description(d, extra_in))
        per = d
    check(extra_in == extra, "launch_argument_changed", "extra arguments changed")
    check(err is None and ld is not None, "launch_error", "%r" % err)
    if ld is None:
        return
    nodes = [e for e in ld.entities if type(e).__name__ == "Node"]
    check(len(nodes) == 1 and nodes[0].kw.get("package") == "controller_manager" and nodes[0].kw.get("executable") == "spawner", "launch_node", "%s" % [n.kw for n in nodes])
    cfg = {}
    for e in ld.entities:
        if type(e).__name__ == "DeclareLaunchArgument":
            cfg[e.a[0]] = e.kw.get("default_value")
    if kind != "spawner":
        check(cfg == {"controller_manager_name": "controller_manager", "unload_on_kill": "false"}, "launch_defaults", "%s" % cfg)
        cfg = {"controller_manager_name": cfg_cm, "unload_on_kill": cfg_unload}
    argv = [clistubs.resolve(a, cfg) for a in nodes[0].kw["arguments"]]
    (res, err, _) = quiet(lambda: parse_spawner(argv))
    tail = lambda: " kind %s names %s extra %s -> %s" % (kind, names, extra, argv)
    rec.count("launches")
    rec.distinct("launch %s %s" % (kind, [re.sub(r"\d", "", a) for a in argv]))
    check(err is None and res is not None, "launch_unparsable", "%r" % err + tail())
    if err is not None:
        return
    g, cs = res
    check([c["name"] for c in cs] == names, "launch_names", "names" + tail())
    wcm = "/robot/cm" if kind == "spawner" and "-c" in extra else "controller_manager" if kind == "spawner" else cfg_cm
    check(g.controller_manager == wcm, "launch_manager", "manager %s" % g.controller_manager + tail())
    wu = ("--unload-on-kill" in extra) if kind == "spawner" else cfg_unload == "true"
    check(g.unload_on_kill == wu, "launch_unload", "unload %s" % g.unload_on_kill + tail())
    check(g.activate_as_group == ("--activate-as-group" in extra) and g.switch_asap == ("--switch-asap" in extra) and
          g.switch_timeout == (7.0 if "--switch-timeout" in extra else 5.0), "launch_extra", "extra" + tail())
    for c in cs:
        if kind == "spawner":
            e = per[c["name"]]
            pf = e.get("param_file")
            wf = pf if isinstance(pf, list) else [pf] if pf else []
            want = (wf, e.get("load_only", False), e.get("inactive", False), [e["ros_args"]] if "ros_args" in e else [])
        else:
            want = (allf, "--load-only" in extra, "--inactive" in extra, [])
        got = (c["param_files"] or [], c["load_only"], c["inactive"], c["controller_ros_args"] or [])
        check(got == want, "launch_controller", "controller %s %s expected %s" % (c["name"], got, want) + tail())


def case_test_utils(r):
    """The checks that users' launch tests rely on: they pass exactly when what they check is true in time."""
    W.reset()
    W.initialized = 1
    W.namespace = "/"
    tu = importlib.import_module("controller_manager.test_utils")
    node = Node("t")
    u = r.random()
    if u < 0.35:
        at, timeout = r.pick([0.0, 1.0, 4.0, 30.0]), r.pick([None, 2.0, 10.0])
        names = r.subset(["a", "ab", "b"], 0.5)
        node.get_node_names = lambda: names + (["cm"] if W.now >= at else [])
        n = r.pick(["cm", "a", "c"])
        _, err, _ = quiet(lambda: tu.check_node_running(node, n, timeout) if timeout else tu.check_node_running(node, n))
        lim = timeout or 5.0
        want = n in names or (n == "cm" and at < lim - 0.2)
        if not (n == "cm" and abs(at - lim) < 0.3):
            check((err is None) == want, "test_node_running", "%s in %s at %g within %g: %r" % (n, names, at, lim, err))
        rec.count("test_checks")
    elif u < 0.8:
        ns = r.pick(["", "", "/robot", "robot"])
        api = "/" + ns.lstrip("/")
        cm = CM(srvs, ("/" + ns.strip("/") if ns else "") + "/controller_manager")
        cnames = r.sample(NAMES, r.randint(1, 3))
        for n in NAMES:
            if n in cnames and r.chance(0.9) or r.chance(0.4):
                cm.state[n] = r.pick(["active", "active", "active", "inactive", "unconfigured"])
        there = [(n, api if r.chance(0.95) else "/elsewhere") for n in NAMES if r.chance(0.95)]
        node.get_node_names_and_namespaces = lambda: there
        state = r.pick([None, "active", "inactive"])
        kw = {"namespace": ns}
        if state:
            kw["state"] = state
        _, err, _ = quiet(lambda: tu.check_controllers_running(node, cnames, timeout=2.0, **kw))
        want = all((n, api) in there and cm.state.get(n) == (state or "active") for n in cnames)
        check((err is None) == want, "test_controllers_running", "%s %s nodes %s states %s: %r" % (cnames, kw, there, cm.state, err))
        check(not cm.calls, "test_requests", "%s" % cm.calls)
        rec.count("test_checks")
    else:
        joints = r.sample(["j1", "j2", "j10"], r.randint(1, 3))
        pub = joints[:] if r.chance(0.6) else r.sample(["j1", "j2", "j10", "j3"], r.randint(1, 3))
        r.shuffle(pub)
        W.published = {"/joint_states": [Obj(name=pub)]} if r.chance(0.9) else {}
        _, err, _ = quiet(lambda: tu.check_if_js_published("/joint_states", joints))
        check((err is None) == (bool(W.published) and sorted(pub) == sorted(joints)), "test_joint_states", "%s expected %s: %r" % (pub, joints, err))
        rec.count("test_checks")
    rec.distinct("tu %g %s" % (round(u, 1), err is None))


def body(r, c):
    k = c % 20
    if k < 5:
        case_wrappers(r)
    elif k < 6:
        case_parameters(r)
    elif k < 12:
        case_verb(r)
    elif k < 15:
        case_listing(r)
    elif k < 16:
        case_status(r)
    elif k < 17:
        case_completers(r)
    elif k < 19:
        case_gui(r)
    elif c % 40 < 20:
        case_launch(r)
    else:
        case_test_utils(r) if r.chance(0.5) else case_launch(r)


vh.at_end.append(cleanup)
os.chdir(TMP)
run_cases(body)
