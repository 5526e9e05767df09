#!/usr/bin/env python3
"""C29: which parameter files apply to a controller and what is taken from them."""
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
import yaml
from stubs import W
from cmworld import CM, pvalue
import vh
from vh import check, rec, run_cases

srvs, svc = stubs.load_controller_manager()
stubs.patch_process()
import rclpy  # noqa: E402
from rclpy.node import Node  # noqa: E402

TMP = tempfile.mkdtemp(prefix="vparam_", dir=os.environ.get("TMPDIR", "/tmp"))


def cleanup():
    import shutil
    shutil.rmtree(TMP, ignore_errors=True)


CTRLS = ["ctrl", "ctrl_1", "ctrl_10", "arm/ctrl", "ctr", "broad"]
NSS = ["/", "/", "/robot", "/robot2", "/a/b", "/a"]
FILENAMES = ["p0.yaml", "p1.yaml", "with space.yaml", "a,b.yaml", "o'hara.yaml", "x#y.yaml", "k: v.yaml", "[l].yaml", "1.yaml", "\u00fcml.yaml"]
WILD = "/**"
RP = "ros__parameters"


def entry(r, tag, allow_bad=True):
    """One node entry; -> (object, kind)"""
    p = {"a": 1}
    if r.chance(0.5):
        p["type"] = "pkg%d/T_%s" % (r.randint(0, 3), tag)
    if r.chance(0.35):
        p["fallback_controllers"] = r.pick([["fb_" + tag], ["fb1_" + tag, "fb2_" + tag], ["x", "y", "fb_" + tag]])
    if r.chance(0.1):
        p = {}
    if allow_bad and r.chance(0.05):
        return p if p else {"a": 2}, "bad"
    if allow_bad and r.chance(0.02):
        return r.pick(["text", ["list"], 7]), "bad"
    return {RP: p}, "ok"


OPTIONAL = []


def applicable(data, n, ns):
    """-> (True/False/None for either, [candidate entries])"""
    full = "/" + n if ns == "/" else ns + "/" + n
    keys = [full, WILD + "/" + n, WILD + full]
    if ns == "/":
        keys.append(n)
    cands = [data[k] for k in dict.fromkeys(keys) if k in data]
    w = data.get(WILD)
    if isinstance(w, dict):
        # a name given both at the top and under the wildcard: either section may be read
        OPTIONAL.extend(id(w[k]) for k in dict.fromkeys([n] + keys) if k in w and k in data)
        cands += [w[k] for k in dict.fromkeys([n] + keys) if k in w]
        if RP in w:
            # with many sections of the controller's own in the file, whether the wildcard's general section is read too is left open
            if len(cands) >= 3 or len({id(x) for x in cands}) >= 3:
                OPTIONAL.append(id(w))
            cands.append(w)
    if ns != "/" and n in data:
        # an entry without namespace does not apply and is reported; together with applicable entries either reading is accepted
        return (None, cands) if cands else (False, [])
    return bool(cands), cands


def gen_file(r, names, n, ns, k):
    full = "/" + n if ns == "/" else ns + "/" + n
    data = {}
    bad = False
    pool = [n, full, WILD + "/" + n, WILD + full]
    other = [x for x in names if x != n]
    foreign_ns = [x for x in ("/robot", "/robot2", "/a/b", "/a", "/z") if x != ns]
    for j in range(r.pick([0, 1, 1, 2])):
        key = r.pick(pool)
        data[key], kind = entry(r, "%d%s" % (k, "abc"[j]))
    for j in range(r.randint(0, 3)):
        o = r.pick(other)
        f = r.pick(foreign_ns)
        key = r.pick([o, "/" + o, f + "/" + n, f + "/" + o, WILD + "/" + o, WILD + f + "/" + n, (ns if ns != "/" else "") + "/" + o, n + "/sub", full + "_x", n + "_x"])
        if key in pool:
            continue
        e, _ = entry(r, "X%d" % k)
        if isinstance(e, dict) and RP in e and r.chance(0.7):
            e[RP]["type"] = "foreign/T%d" % k
        data.setdefault(key, e)
    if r.chance(0.35):
        w = {}
        if r.chance(0.5):
            w[n], _ = entry(r, "%dn" % k)
        if r.chance(0.1):
            w[full], _ = entry(r, "%df" % k)
        if r.chance(0.4):
            w[r.pick(other)], _ = entry(r, "Y%d" % k)
        if r.chance(0.3):
            e, _ = entry(r, "%dw" % k, allow_bad=False)
            w.update(e)
        if w:
            data[WILD] = w
    if not data:
        data["/zzz"] = {RP: {"a": 1}}
    items = list(data.items())
    r.shuffle(items)
    return dict(items)


def is_bad(c):
    return bool(c) and (not isinstance(c, dict) or RP not in c)


def lookup(datas, n, ns, param):
    """Possible outcomes of looking a parameter up in files in order: list of ('value', v) / ('none',) / ('error',)."""
    out = []
    for d in datas:
        OPTIONAL.clear()
        app, cands = applicable(d, n, ns)
        if app is False:
            continue
        opt = [c for c in cands if id(c) in OPTIONAL]
        cands = [c for c in cands if id(c) not in OPTIONAL]
        for c in opt:
            if is_bad(c):
                out.append(("error",))
            elif c and param in c[RP]:
                out.append(("value", c[RP][param]))
        have = [c[RP][param] for c in cands if isinstance(c, dict) and RP in c and isinstance(c[RP], dict) and param in c[RP]]
        anybad = any(is_bad(c) for c in cands)
        if anybad:
            out.append(("error",))
        for v in have:
            out.append(("value", v))
        if have and app is True and not anybad:
            return out
        if have and app is True and anybad:
            return out
        if anybad and app is True:
            return out
    out.append(("none",))
    return out


def body(r, c):
    W.reset()
    W.initialized = 1
    W.namespace = ns = r.pick(NSS)
    node = Node("tester")
    n = r.pick(CTRLS)
    files, datas = [], []
    fnames = r.sample(FILENAMES, r.randint(1, 4))
    sub = r.pick(["", "d1/"])
    os.makedirs(os.path.join(TMP, "d1"), exist_ok=True)
    for k, f in enumerate(fnames):
        d = gen_file(r, CTRLS, n, ns, k)
        p = os.path.join(TMP, sub + f)
        with open(p, "w") as fh:
            yaml.safe_dump(d, fh, sort_keys=False)
        files.append(p)
        datas.append(d)
    given = list(range(len(files)))
    if r.chance(0.25):
        given.append(r.pick(given))
        r.shuffle(given)
    plist = [files[i] for i in given]
    uniq = list(dict.fromkeys(given))
    ctx = lambda: " controller %s ns %s files %s" % (n, ns, [(os.path.basename(files[i]), datas[i]) for i in given])
    tri = [applicable(datas[i], n, ns)[0] for i in uniq]
    before = list(plist)
    got = svc.get_params_files_with_controller_parameters(node, n, ns, plist)
    check(plist == before, "list_changed", "the given list was changed" + ctx())
    must = [files[i] for i, t in zip(uniq, tri) if t is True]
    may = [files[i] for i, t in zip(uniq, tri) if t is not False]
    check(list(got) == [f for f in may if f in must or f in got], "attributed_files",
          "files %s, expected %s" % ([os.path.basename(x) for x in got], [os.path.basename(x) for x in must]) + ctx())
    rec.count("attributed" if must else "not_attributed")
    rec.count("ambiguous", sum(t is None for t in tri))
    rec.distinct("%s %s %s %s" % (n, ns, tri, [sorted(map(str, datas[i])) for i in uniq]))
    if any(t is False for t in tri) and got:
        rec.count("mixed")
    # without parameters in any file
    for param in ("type", "fallback_controllers", "a"):
        exp = lookup([datas[i] for i in given], n, ns, param)
        try:
            v = svc.get_parameter_from_param_files(node, n, ns, plist, param)
            res = ("none",) if v is None else ("value", v)
        except (RuntimeError, TypeError) as e:
            res = ("error",)
        check(res in exp, "looked_up:" + param, "%s = %s, expected one of %s" % (param, res, exp) + ctx())
        rec.count("lookup_" + res[0])
    # a file that is not there
    if r.chance(0.1):
        for call in (lambda: svc.get_params_files_with_controller_parameters(node, n, ns, plist + [os.path.join(TMP, "nope.yaml")]),):
            try:
                call()
                check(False, "missing_file_ignored", "no error for a missing file" + ctx())
            except OSError:
                rec.count("missing_file")
    # the whole: parameters sent to the controller manager
    full = r.pick(["/controller_manager", "cm"])
    cm = CM(srvs, full if full.startswith("/") else ("" if ns == "/" else ns) + "/" + full)
    fault = {}
    if r.chance(0.15):
        fault[n + "." + r.pick(["params_file", "type", "fallback_controllers"])] = r.pick(["fail", "silent"])
    cm.fault_of = {("set_parameters", k): v for k, v in fault.items()}
    explicit = r.chance(0.5)
    if explicit:
        W.namespace = "/"
        # a manager given by relative name is looked up in the namespace of the node
        pass
    try:
        res = svc.set_controller_parameters_from_param_files(node, full, n, plist, ns if explicit else None)
        err = None
    except (RuntimeError, TypeError) as e:
        res, err = None, e
    sent = []
    for s, q in cm.calls:
        check(s == "set_parameters", "unexpected_request", "request %s" % s + ctx())
        for p in q["parameters"]:
            x = (p["name"], pvalue(p["value"]))
            if not (sent and sent[-1] == x and fault.get(x[0]) == "silent"):
                sent.append(x)
    d = dict(sent)
    tail = lambda: " sent %s result %s %r faults %s" % (sent, res, err, fault) + ctx()
    check(len(d) == len(sent) and set(d) <= {n + ".params_file", n + ".type", n + ".fallback_controllers"}, "sent_names", "parameters" + tail())
    used = [files.index(f) for f in got]
    types = lookup([datas[i] for i in used], n, ns, "type") if used else [("none",)]
    fbs = lookup([datas[i] for i in used], n, ns, "fallback_controllers") if used else [("none",)]
    pf = d.get(n + ".params_file")
    if got:
        check(pf == list(got), "sent_files", "params_file %s expected %s" % (pf, got) + tail())
    else:
        check(not sent and res is True, "nothing_to_send", "no file applies" + tail())
    failed = [k for k in fault if k in d]
    t, fb = d.get(n + ".type"), d.get(n + ".fallback_controllers")
    if t is not None:
        check(("value", t) in types, "sent_type", "type %s expected %s" % (t, types) + tail())
    if fb is not None:
        check(("value", fb) in fbs, "sent_fallbacks", "fallback %s expected %s" % (fb, fbs) + tail())
    if failed:
        check(res is False or isinstance(err, RuntimeError), "failure_hidden", "a refused parameter" + tail())
        check(sent and sent[-1][0] == failed[0], "goes_on_after_failure", "sent after a failure" + tail())
        rec.count("refused_parameters")
    elif err is not None:
        check(("error",) in types or ("error",) in fbs, "error_for_valid", "error for valid files" + tail())
        rec.count("invalid_files")
    else:
        check(res is True, "false_failure", "no failure" + tail())
        if types == [("error",)] and got:
            check(False, "invalid_accepted", "a file without the required structure was accepted" + tail())
        check(t is not None or ("none",) in types, "type_not_sent", "type expected %s" % types + tail())
        check(fb is not None or ("none",) in fbs, "fallbacks_not_sent", "fallbacks expected %s" % fbs + tail())
        rec.count("sent_ok" if got else "sent_nothing")
    for f in files:
        os.unlink(f)


vh.at_end.append(cleanup)
run_cases(body)
