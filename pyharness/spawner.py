#!/usr/bin/env python3
"""C28: spawner, unspawner and hardware_spawner against a reference model, with faults and signals at every point."""
import contextlib
import io
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
from stubs import W
from cmworld import CM, pvalue
import vh
from vh import check, rec, run_cases

srvs, svc = stubs.load_controller_manager()
import controller_manager.spawner as spawner      # noqa: E402
import controller_manager.unspawner as unspawner  # noqa: E402
import controller_manager.hardware_spawner as hws  # noqa: E402

stubs.patch_process()
TMP = tempfile.mkdtemp(prefix="vspawn_", dir=os.environ.get("TMPDIR", "/tmp"))
os.environ["ROS_HOME"] = os.path.join(TMP, "ros")
FILES = {}


def yaml_file(name, text):
    p = os.path.join(TMP, name)
    if FILES.get(p) != text:
        with open(p, "w") as f:
            f.write(text)
        FILES[p] = text
    return p


def cleanup():
    import shutil
    shutil.rmtree(TMP, ignore_errors=True)


def run(mod, argv):
    """-> (returncode, exception) as the process would end."""
    sys.argv = ["prog"] + argv
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            rc = mod.main()
        return (0 if rc is None else rc), None
    except SystemExit as e:
        return (0 if e.code is None else e.code), None
    except KeyboardInterrupt as e:
        return 130, e
    except (RuntimeError, svc.ServiceNotFoundError, FileNotFoundError, AssertionError) as e:
        return 1, e


CTRLS = ["ctrl", "ctrl_1", "ctrl_10", "arm/joint", "broad"]


def expected(plan, cm0, o):
    """The reference: the sequence of mutating requests until the end and whether it is a success.

    Requests are (service, key) pairs; parameters are grouped in one entry per controller, their order is free."""
    st = dict(cm0)
    seq, group, up = [], [], []
    for c in plan:
        n = c["name"]
        if n not in st:
            params = {}
            if c["ros_args"]:
                params[n + ".node_options_args"] = [a for x in c["ros_args"] for a in x.split()]
            app = [f for f in c["files"] if n in f["for"]]
            if app:
                params[n + ".params_file"] = [f["path"] for f in app]
                typ = [f["for"][n] for f in app if f["for"][n]]
                if typ:
                    params[n + ".type"] = typ[0]
            if params:
                bad = [k for k in params if o["fault"].get(("set_parameters", k))]
                seq.append(("params", params, bool(bad)))
                if bad:
                    return seq, False, st, up
            seq.append(("load_controller", n))
            if o["fault"].get(("load_controller", n)):
                return seq, False, st, up
            st[n] = "unconfigured"
        if c["load_only"]:
            continue
        seq.append(("configure_controller", n))
        if o["fault"].get(("configure_controller", n)) or st[n] == "active":
            return seq, False, st, up
        st[n] = "inactive"
        if c["inactive"]:
            continue
        if o["group"]:
            group.append(n)
            continue
        seq.append(("switch_controller", "+" + n))
        if o["fault"].get(("switch_controller", "+" + n)):
            return seq, False, st, up
        st[n] = "active"
        up.append(n)
    if group:
        k = "+" + ",".join(group)
        seq.append(("switch_controller", k))
        if o["fault"].get(("switch_controller", k)) or len(set(group)) != len(group):
            return seq, False, st, up
        for n in group:
            st[n] = "active"
        up += group
    return seq, True, st, up


def match(calls, seq, prefix=False):
    """calls (as recorded) against the expected sequence; returns '' or a description."""
    i = 0
    for e in seq:
        if e[0] == "params":
            got = {}
            while i < len(calls) and calls[i][0] == "set_parameters":
                for p in calls[i][1]["parameters"]:
                    if p["name"] in got:
                        return "parameter %s set twice" % p["name"]
                    got[p["name"]] = pvalue(p["value"])
                i += 1
            ended = i == len(calls)
            for k, v in got.items():
                if k not in e[1] or e[1][k] != v:
                    return "parameter %s = %r, expected %r" % (k, v, e[1].get(k, "nothing"))
            if not (e[2] or (prefix and ended)) and set(got) != set(e[1]):
                return "parameters %s, expected %s" % (sorted(got), sorted(e[1]))
            continue
        if i >= len(calls):
            return "" if prefix else "no request %s %s" % e
        s, d = calls[i]
        if (s, CM.key(s, d)) != e:
            return "request %s %s, expected %s %s" % (s, CM.key(s, d), e[0], e[1])
        i += 1
    if i != len(calls):
        return "unexpected request %s %s" % (calls[i][0], CM.key(*calls[i]))
    return ""


def spawner_case(r):
    W.reset()
    names = r.sample(CTRLS, r.randint(1, 4))
    advanced = r.chance(0.5)
    W.namespace = r.pick(["/", "/", "/robot", "/a/b"])
    ns = "" if W.namespace == "/" else W.namespace
    cmname = r.pick([None, "controller_manager", "cm", "/other/cm"])
    short = cmname or "controller_manager"
    full = short if short.startswith("/") else ns + "/" + short
    o = {"group": r.chance(0.4), "fault": {}}
    if not o["group"] and r.chance(0.1):
        names.append(names[0])
    unload = r.chance(0.45)
    asap = r.pick([None, True, False])
    sw_timeout = r.pick([None, 0.5, 7.25, 0.0])
    call_timeout = r.pick([None, 2.0, 33.0])
    cm_timeout = r.pick([None, 5.0])
    files = []
    for k in range(r.randint(0, 3)):
        owner = {}
        text = ""
        for n in names + ["stranger"]:
            if r.chance(0.5) and n not in owner:
                t = r.pick([None, "pkg/Type%d" % k])
                text += "/**/%s:\n  ros__parameters:\n    a: 1\n%s" % (n, "    type: %s\n" % t if t else "")
                owner[n] = t
        if not text:
            text = "/**/stranger:\n  ros__parameters:\n    a: 1\n"
        files.append({"path": yaml_file("p%d.yaml" % k, text), "for": owner})
    plan = []
    glob = []
    if cmname:
        glob += [r.pick(["-c", "--controller-manager"]), cmname]
    if o["group"]:
        glob.append("--activate-as-group")
    if unload:
        glob.append(r.pick(["-u", "--unload-on-kill"]))
    if asap is not None:
        glob.append("--switch-asap" if asap else "--no-switch-asap")
    if sw_timeout is not None:
        glob += ["--switch-timeout", str(sw_timeout)]
    if call_timeout is not None:
        glob += ["--service-call-timeout", str(call_timeout)]
    if cm_timeout is not None:
        glob += ["--controller-manager-timeout", str(cm_timeout)]
    argv = []
    rosargs_pool = ["--ros-args -r /a:=/b", "-r x:=y", "--log-level debug"]
    if advanced:
        chunks = []
        for n in names:
            c = {"name": n, "load_only": r.chance(0.15), "inactive": r.chance(0.25), "files": r.subset(files, 0.4), "ros_args": r.subset(rosargs_pool, 0.25)}
            opts = []
            if c["load_only"]:
                opts.append(["--load-only"])
            if c["inactive"]:
                opts.append(["--inactive"])
            for f in c["files"]:
                opts.append([r.pick(["-p", "--param-file"]), f["path"]])
            for a in c["ros_args"]:
                opts.append(["--controller-ros-args=" + a] if not a.startswith("--ros") or r.chance(0.5) else ["--controller-ros-args", a])
            plan.append(c)
            keep = opts[:]
            r.shuffle(keep)
            # the order of the files is the order given
            forder = [x for x in keep if x[0] in ("-p", "--param-file")]
            c["files"] = [f for x in forder for f in files if f["path"] == x[1]]
            aorder = [x[-1].replace("--controller-ros-args=", "", 1) for x in keep if "ros-args" in x[0]]
            c["ros_args"] = aorder
            chunks.append(["--controller", n] + [y for x in keep for y in x])
        if r.chance(0.5):
            argv = glob + [x for c in chunks for x in c]
        else:
            argv = [x for c in chunks for x in c] + glob
    else:
        lo, ina = r.chance(0.12), r.chance(0.2)
        fs, ra = r.subset(files, 0.5), r.subset(rosargs_pool, 0.2)
        for n in names:
            plan.append({"name": n, "load_only": lo, "inactive": ina, "files": fs, "ros_args": ra})
        argv = list(names) + glob
        if lo:
            argv.append("--load-only")
        if ina:
            argv.append("--inactive")
        for f in fs:
            argv += ["-p", f["path"]]
        for a in ra:
            argv.append("--controller-ros-args=" + a)
    if files and r.chance(0.25):
        extra = r.sample(files, r.randint(1, len(files)))
        argv += ["--ros-args"] + [y for f in extra for y in ("--params-file", f["path"])]
        for c in plan:
            c["files"] = c["files"] + [f for f in extra if f not in c["files"]]
    missing = None
    if r.chance(0.04):
        missing = os.path.join(TMP, "missing.yaml")
        argv = argv[:]
        if advanced:
            at = argv.index("--controller")
            argv[at + 2:at + 2] = ["-p", missing]
        else:
            argv[len(names):len(names)] = ["-p", missing]
    cm = CM(srvs, full)
    for n in r.subset(CTRLS, 0.15):
        cm.state[n] = r.pick(["unconfigured", "inactive", "active"])
    cm0 = dict(cm.state)
    # faults
    silent_ok = False
    for n in names:
        for s in ("load_controller", "configure_controller"):
            if r.chance(0.06):
                o["fault"][(s, n)] = r.pick(["fail", "fail", "silent"])
        if r.chance(0.06):
            o["fault"][("switch_controller", "+" + n)] = r.pick(["fail", "silent"])
        if r.chance(0.05):
            o["fault"][("set_parameters", n + r.pick([".type", ".params_file", ".node_options_args"]))] = "fail"
    if o["group"] and r.chance(0.2):
        g = [c["name"] for c in plan if not c["load_only"] and not c["inactive"]]
        o["fault"][("switch_controller", "+" + ",".join(g))] = r.pick(["fail", "silent"])
    # faults of the clean-up after an interrupt
    unload_fails = set(r.subset(names, 0.3)) if unload and r.chance(0.35) else set()
    for n in unload_fails:
        o["fault"][("unload_controller", n)] = "fail"
    cm.refuse_deactivation = unload and r.chance(0.1)
    cm.fault_of = dict(o["fault"])
    # answers that get lost on the first attempts but are repeated (requests are retried)
    if r.chance(0.25):
        cm.faults[("list_controllers", 0)] = "silent"
        silent_ok = True
    W.default_available = r.pick([0.0, 0.0, 3.0, 17.0, 65.0])
    if r.chance(0.15):
        W.lock_owner = "other"
        W.lock_free_at = r.pick([5.0, 30.0, 70.0, 1e6])
    lock_never = W.lock_owner == "other" and W.lock_free_at > 1e5
    interrupt = r.chance(0.35)
    if interrupt:
        if r.chance(0.4):
            W.signal_on = (r.pick(["SwitchController", "SwitchController", "LoadController", "ConfigureController"]), r.randint(1, 3))
        else:
            W.signal_at = r.randint(1, 90)
        W.signal_num = r.pick([2, 15])
        W.double_signal = r.chance(0.3)
    ctx = lambda: "argv %s ns %s state %s faults %s signal %s lock %s avail %s" % (
        " ".join(a.replace(TMP + "/", "") for a in argv), W.namespace, cm0, o["fault"], W.signal_at, W.lock_free_at, W.default_available)
    if unload and W.signal_at is None:
        W.signal_at = 10**6   # only to end the waiting
    try:
        rc, exc = run(spawner, argv)
    except TimeoutError:
        rc, exc = "hang", None
    calls = cm.calls
    # the manager is missing when it is not there cm_timeout after the lock was taken
    cm_missing = cm_timeout is not None and W.lock_time is not None and W.default_available > W.lock_time + cm_timeout
    rec.count("spawner_runs")
    rec.distinct("s%d g%d a%d u%d i%d rc%s n%d m%s" % (len(names), o["group"], advanced, unload, W.signalled, rc, len(calls), [c[0] for c in calls][-3:]))
    tail = lambda: " calls %s rc %s exc %r %s" % ([(c[0], CM.key(*c)) for c in calls], rc, exc, ctx())
    if rc == "hang":
        waiting = not W.available_at and W.default_available > 2e3
        check(waiting, "spawner_hangs", "the spawner never ends" + tail())
        return
    check(not W.killed, "sigterm_unhandled", "SIGTERM kills the spawner" + tail())
    # whatever happens: lock and node released, rclpy shut down
    check(W.lock_owner in (None, "other"), "lock_left", "the lock is still held at the end" + tail())
    if missing:
        check(rc != 0 and not calls, "missing_file", "a missing parameter file" + tail())
        return
    check(W.shutdowns == 1 and W.alive_nodes == 0, "not_shut_down", "nodes %d shutdowns %d" % (W.alive_nodes, W.shutdowns) + tail())
    if lock_never and not W.signalled:
        check(rc != 0 and not calls, "lock_ignored", "another spawner holds the lock" + tail())
        rec.count("lock_timeouts")
        return
    sigs = [i for i, e in enumerate(W.events) if e[0] == "signal"]
    waited = sum(1 for e in W.events if e[0] == "sleep" and e[1] == 1)
    # split the requests at the signal
    ncalls_before = len(calls)
    if sigs:
        ncalls_before = sum(1 for e in W.events[:sigs[0]] if e[0] == "call" and e[1][1] not in ("ListControllers",))
    before, after = calls[:ncalls_before], calls[ncalls_before:]
    if any(v == "silent" for v in o["fault"].values()):
        # a request without answer is repeated; collapse identical neighbours (their effects are in the model's faults)
        col = []
        for c in before:
            f = cm.fault_of.get((c[0], CM.key(*c)))
            if not (f == "silent" and col and col[-1] == c):
                col.append(c)
        before = col
    seq, ok, st, up = expected(plan, cm0, o)
    d = match(before, seq, prefix=bool(sigs) or cm_missing)
    check(d == "", "spawner_requests", d + tail())
    # lock while the requests of the bring-up are made
    check(all(cm.lock_seen[:ncalls_before]), "lock_not_held", "a request was made without the lock" + tail())
    for s, q in calls:
        if s == "switch_controller":
            want = 5.0 if sw_timeout is None else sw_timeout
            got = q["timeout"]["sec"] + 1e-9 * q["timeout"]["nanosec"]
            check(q["strictness"] == 2 and q["activate_asap"] == bool(asap) and abs(got - want) < 1e-6,
                  "switch_options", "strictness %s asap %s timeout %s" % (q["strictness"], q["activate_asap"], got) + tail())
    want_call = 10.0 if call_timeout is None else call_timeout
    spins = {e[1] for e in W.events if e[0] == "spin"}
    check(spins <= {want_call, 10.0}, "call_timeouts", "answers awaited for %s s" % spins + tail())
    if not sigs:
        rec.count("spawner_uninterrupted")
        good = ok and not cm_missing
        check((rc == 0) == good, "spawner_exit_code", "exit code %s for %s" % (rc, "success" if good else "failure") + tail())
        if good:
            check({k: v for k, v in cm.state.items()} == st, "spawner_final_state", "controllers %s expected %s" % (cm.state, st) + tail())
        return
    # interrupted
    rec.count("spawner_interrupted")
    allreq = d == "" and len(before) > 0 and match(before, seq) == "" and ok
    inactive = {c["name"] for c in plan if c["inactive"]}
    if not unload:
        check(not after, "requests_after_interrupt", "requests after the interrupt" + tail())
        return
    activated = set()
    probe = dict(cm0)
    for s, q in before:
        if s == "switch_controller" and not cm.fault_of.get((s, CM.key(s, q))):
            activated |= set(q["activate_controllers"])
    for n in activated:
        probe[n] = "active"
    want = [n for n in names if n in activated]
    want = list(dict.fromkeys(want))
    if want:
        rec.count("unloads_on_kill")
    if W.now > 400 and waited > 5:
        rec.count("waited_for_signal")
        check(not any(cm.lock_seen[ncalls_before:]) and W.lock_owner is None, "lock_while_waiting", "the lock is held while waiting for the interrupt" + tail())
    if not want:
        check(not after, "unload_nothing", "requests although nothing was activated" + tail())
    else:
        sw = [q for s, q in after if s == "switch_controller"]
        un = [q["name"] for s, q in after if s == "unload_controller"]
        deact = [n for q in sw for n in q["deactivate_controllers"]]
        check(sorted(deact) == sorted(want) and not any(q["activate_controllers"] for q in sw), "deactivate_on_kill",
              "deactivated %s, activated before %s" % (deact, want) + tail())
        if cm.refuse_deactivation:
            rec.count("deactivations_refused_on_kill")
            check(not un and rc == 1, "refused_on_kill", "the deactivation was refused, unloaded %s exit code %s" % (un, rc) + tail())
            return
        if unload_fails & set(want):
            rec.count("unloads_refused_on_kill")
        check(sorted(un) == sorted(want), "unload_on_kill", "unloaded %s, activated before %s" % (un, want) + tail())
        gone = all(n not in cm.state for n in want)
        check((rc == 0) == gone, "kill_exit_code", "exit code %s, unloaded: %s" % (rc, gone) + tail())


def unspawner_case(r):
    W.reset()
    names = r.sample(CTRLS, r.randint(1, 3))
    W.namespace = r.pick(["/", "/robot"])
    ns = "" if W.namespace == "/" else W.namespace
    cmname = r.pick([None, "cm", "/x/cm"])
    full = cmname or "/controller_manager"
    if not full.startswith("/"):
        full = ns + "/" + full
    cm = CM(srvs, full)
    for n in CTRLS:
        if n in names and r.chance(0.85) or r.chance(0.3):
            cm.state[n] = r.pick(["active", "active", "inactive", "unconfigured"])
    for n in names:
        if r.chance(0.1):
            cm.fault_of[("unload_controller", n)] = r.pick(["fail", "silent"])
    if r.chance(0.1):
        cm.fault_of[("switch_controller", "-" + ",".join(names))] = "fail"
    st = dict(cm.state)
    argv = list(names)
    if cmname:
        argv += ["-c", cmname]
    t = r.pick([None, 2.5])
    if t:
        argv += ["--switch-timeout", str(t)]
    rc, exc = run(unspawner, argv)
    tail = lambda: " argv %s calls %s rc %s state %s faults %s" % (argv, [(c[0], CM.key(*c)) for c in cm.calls], rc, st, cm.fault_of)
    rec.count("unspawner_runs")
    rec.distinct("u%d %s %s" % (len(names), rc, len(cm.calls)))
    calls = cm.calls
    check(calls and calls[0][0] == "switch_controller" and calls[0][1]["deactivate_controllers"] == names and not calls[0][1]["activate_controllers"]
          and calls[0][1]["strictness"] == 2, "unspawner_switch", "first request" + tail())
    if calls and calls[0][0] == "switch_controller":
        q = calls[0][1]["timeout"]
        check(abs(q["sec"] + 1e-9 * q["nanosec"] - (t or 5.0)) < 1e-6, "unspawner_timeout", "timeout %s" % q + tail())
    # expected: unload in order, stop at the first failure
    st2 = dict(st)
    if all(st.get(n) == "active" for n in names) and not cm.fault_of.get(("switch_controller", "-" + ",".join(names))):
        for n in names:
            st2[n] = "inactive"
    exp, ok = [], True
    for n in names:
        f = cm.fault_of.get(("unload_controller", n))
        exp += [n] * (3 if f == "silent" else 1)
        if f or n not in st2 or st2[n] == "active":
            ok = False
            break
    got = [c[1]["name"] for c in calls if c[0] == "unload_controller"]
    check(got == exp, "unspawner_unloads", "unloads %s expected %s" % (got, exp) + tail())
    check((rc == 0) == ok, "unspawner_exit_code", "exit code" + tail())
    check(W.shutdowns == 1, "not_shut_down", "rclpy" + tail())


def hardware_case(r):
    W.reset()
    pool = ["arm", "arm_2", "gripper", "imu"]
    names = r.sample(pool, r.randint(1, 3))
    W.namespace = r.pick(["/", "/robot"])
    ns = "" if W.namespace == "/" else W.namespace
    cmname = r.pick([None, "cm", "/x/cm"])
    short = cmname or "controller_manager"
    full = short if short.startswith("/") else ns + "/" + short
    cm = CM(srvs, full)
    for n in pool:
        if r.chance(0.85):
            cm.hw[n] = r.pick(["unconfigured", "inactive", "active"])
    for n in names:
        if r.chance(0.15):
            cm.fault_of[("set_hardware_component_state", n)] = r.pick(["fail", "wrong_state"])
    act = r.chance(0.5)
    target = "active" if act else "inactive"
    hw0 = dict(cm.hw)
    argv = list(names) + ["--activate" if act else "--configure"]
    if cmname:
        argv += ["-c", cmname]
    tmo = r.pick([None, 1.0])
    if tmo:
        argv += ["--controller-manager-timeout", str(tmo)]
    if r.chance(0.1):
        W.default_available = 25.0
    rc, exc = run(hws, argv)
    tail = lambda: " argv %s calls %s rc %s hw %s faults %s" % (argv, [(c[0], c[1]) for c in cm.calls], rc, hw0, cm.fault_of)
    rec.count("hardware_spawner_runs")
    rec.distinct("h%d %s %s" % (len(names), rc, len(cm.calls)))
    if tmo and W.default_available:
        check(rc != 0 and not cm.calls, "hardware_no_manager", "no controller manager" + tail())
        return
    exp = [n for n in names if n in hw0]
    got = [(c[1]["name"], c[1]["target_state"]["label"], c[1]["target_state"]["id"]) for c in cm.calls]
    check(got == [(n, target, 3 if act else 2) for n in exp], "hardware_requests", "requests" + tail())
    ok = all(n in hw0 and not cm.fault_of.get(("set_hardware_component_state", n)) or
             (cm.fault_of.get(("set_hardware_component_state", n)) == "wrong_state" and hw0.get(n) == target) for n in names)
    check((rc == 0) == ok, "hardware_exit_code", "exit code" + tail())
    check(W.shutdowns == 1, "not_shut_down", "rclpy" + tail())


def body(r, c):
    k = c % 10
    if k < 7:
        spawner_case(r)
    elif k < 8:
        unspawner_case(r)
    else:
        hardware_case(r)


vh.at_end.append(cleanup)
run_cases(body)
