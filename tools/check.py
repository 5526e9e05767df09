#!/usr/bin/env python3
"""Driver: builds the monitors of one property from /repo's working tree, runs them, judges, writes evidence.

usage: check.py <ID> [--tier quick|thorough] [--replay FILE] [--keep]
exit 0: held on everything observed; 1: VIOLATION line(s) printed; 2: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import targets as T  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class HarnessError(Exception):
    pass


def build(prop, scratch):
    """Compile every binary of a check. Returns {target name: path}."""
    inc = os.path.join(scratch, "inc")
    r = subprocess.run([sys.executable, os.path.join(VERIF, "shim", "gen.py"), inc, REPO],
                       capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("gen.py failed: " + r.stderr[-2000:])
    incs = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "shim"), "-I" + inc]
    for p in T.PACKAGES:
        incs.append("-I%s/%s/include" % (REPO, p))
    incs += ["-I" + REPO, "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/urdfdom_headers",
             "-isystem", "/usr/include/urdfdom"]
    jobs = {}
    links = []
    for t in T.CHECKS[prop]["targets"]:
        if t.get("kind", "cpp") != "cpp":
            continue
        objs = []
        for src, is_repo in [(s, True) for s in T.expand(t["sources"], REPO)] + \
                            [(os.path.join(VERIF, "harness", s), False) for s in t["harness"]]:
            san = t.get("san", "asan")
            opt = t.get("opt", "-O1") if not is_repo else t.get("repo_opt", t.get("opt", "-O1"))
            key = (src, san, opt, tuple(t.get("defs", [])))
            if key not in jobs:
                jobs[key] = os.path.join(scratch, "o%d.o" % len(jobs))
            objs.append(jobs[key])
        links.append((t, objs))
    cc = ["clang++"]
    if os.environ.get("VERIF_CCACHE"):
        cc = ["ccache", "clang++"]

    def comp(kv):
        (src, san, opt, defs), out = kv
        cmd = cc + ["-std=c++20", opt, "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"] + \
            T.SAN[san] + list(defs) + incs + ["-c", src, "-o", out]
        if os.environ.get("VERIF_CCACHE"):
            cmd.insert(2, "-fdebug-prefix-map=%s=/s" % scratch)
        r = subprocess.run(cmd, capture_output=True, text=True)
        return src, r.returncode, r.stderr

    # biggest sources first
    order = sorted(jobs.items(), key=lambda kv: -(os.path.getsize(kv[0][0]) if os.path.exists(kv[0][0]) else 0))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for src, rc, err in ex.map(comp, order):
            if rc:
                raise HarnessError("compile failed: %s\n%s" % (src, err[:6000]))
    bins = {}

    def link(x):
        t, objs = x
        out = os.path.join(scratch, "bin_" + t["name"])
        cmd = ["clang++"] + T.SAN[t.get("san", "asan")] + objs + ["-o", out, "-rdynamic"] + T.LIBS
        r = subprocess.run(cmd, capture_output=True, text=True)
        return t["name"], out, r.returncode, r.stderr

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for name, out, rc, err in ex.map(link, links):
            if rc:
                raise HarnessError("link failed: %s\n%s" % (name, err[:6000]))
            bins[name] = out
    return bins


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=0:handle_abort=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=5:second_deadlock_stack=1:report_signal_unsafe=0:"
                    "suppressions=%s" % os.path.join(HERE, "tsan.supp"),
}


def norm_func(s):
    s = re.sub(r"\[abi:[^\]]*\]", "", s)
    s = re.sub(r"\(.*", "", s)
    s = re.sub(r"<.*", "", s)
    return s.strip()


def crash_keys(text, rc):
    """Derive stable keys from a sanitizer report / abnormal end."""
    keys = []
    blocks = re.split(r"(?m)^={18,}$", text)
    for b in blocks:
        kind = None
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z \-]+)", b)
        if m:
            kind = "tsan:" + m.group(1).strip()
        m2 = re.search(r"ERROR: AddressSanitizer: ([A-Za-z\-]+)", b)
        if not kind and m2:
            kind = "asan:" + m2.group(1)
        m3 = re.search(r"runtime error: ([^\n]{0,90})", b)
        if not kind and m3:
            kind = "ubsan:" + re.sub(r"[-+]?\d[\d.e+\-]*|0x[0-9a-f]+|'[^']*'|\b(?:nan|inf)\b", "#", m3.group(1)).strip()
        if not kind and "Assertion" in b and "failed" in b:
            kind = "assert"
        if not kind and "terminate called" in b:
            m4 = re.search(r"instance of '([^']*)'", b)
            kind = "terminate:" + (m4.group(1) if m4 else "?")
        if not kind:
            continue
        fn = ""
        for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S[^\n]*?) (/\S+?):(\d+)", b):
            if fm.group(2).startswith(REPO + "/"):
                fn = norm_func(fm.group(1))
                break
        if not fn:
            for fm in re.finditer(r"(?m)^\s+#\d+ (\S[^\n]*?) (/\S+?):(\d+)", b):
                if fm.group(2).startswith(REPO + "/"):
                    fn = norm_func(fm.group(1))
                    break
        if not fn:
            m5 = re.search(r"(?m)^(/\S+?):\d+:\d+: runtime error", b)
            if m5:
                fn = os.path.basename(m5.group(1))
        keys.append((kind + ":" + (fn or "?"), b[:5000]))
    if not keys:
        keys.append(("abnormal-exit:%s" % rc, text[-3000:]))
    seen, out = set(), []
    for k, b in keys:
        if k not in seen:
            seen.add(k)
            out.append((k, b))
    return out


STOP = threading.Event()  # set once a hang is confirmed: the other shards have nothing to add


def run_proc(cmd, env, timeout, errpath, cur=None, stall=None):
    """cur/stall: the run counts as stuck when the file `cur` (current case) has not changed for `stall` seconds."""
    with open(errpath, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env, cwd=os.path.dirname(errpath),
                             start_new_session=True)
        t0 = time.time()
        while True:
            try:
                rc = p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            last = t0
            if cur:
                try:
                    last = max(t0, os.stat(cur).st_mtime)
                except OSError:
                    pass
            if now - t0 > timeout or (stall and now - last > stall):
                rc = "timeout"
                break
            if STOP.is_set():
                rc = "stopped"
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    with open(errpath, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 400000))
        return rc, f.read().decode("utf8", "replace")


def target_cmd(t, binpath):
    if t.get("kind", "cpp") == "cpp":
        return [binpath]
    return [sys.executable, "-B", os.path.join(VERIF, "pyharness", t["script"])]


def run_shard(t, binpath, seed, cases, shard, nshards, tier, scratch):
    """Runs one shard to the end, restarting behind crashes. Returns merged result dict."""
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update({k: v.replace("{scratch}", scratch) for k, v in t.get("env", {}).items()})
    env["VERIF_REPO"] = REPO
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.setdefault("LC_ALL", "C.UTF-8")
    merged = {"evaluations": 0, "distinct": set(), "samples": [], "counters": {}, "violations": []}
    start = 0
    tmo = t.get("timeout", 400) * (12 if tier == "thorough" else 1)
    stall = t.get("case_timeout", 60) * (2 if tier == "thorough" else 1)
    for attempt in range(12):
        out = os.path.join(scratch, "%s_%d_%d.json" % (t["name"], shard, attempt))
        cmd = target_cmd(t, binpath) + ["--seed", str(seed), "--cases", str(cases), "--shard", str(shard),
                                        "--nshards", str(nshards), "--start", str(start), "--out", out]
        if t.get("mode"):
            cmd += ["--mode", t["mode"]]
        if tier == "thorough":
            cmd.append("--thorough")
        rc, text = run_proc(cmd, env, tmo, out + ".err", out + ".cur", stall)
        if rc == "stopped":
            return merged
        cur = -1
        try:
            cur = int(open(out + ".cur").read().strip() or "-1")
        except (OSError, ValueError):
            pass
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        if res is not None:
            merged["evaluations"] += res["evaluations"]
            merged["distinct"].update(res["distinct"])
            merged["samples"] += res["samples"]
            for k, v in res["counters"].items():
                merged["counters"][k] = merged["counters"].get(k, 0) + v
            merged["violations"] += res["violations"]
        if rc == 0 and res is not None:
            return merged
        if rc == 66 and res is not None and "ThreadSanitizer" in text:
            for k, b in crash_keys(text, rc):
                merged["violations"].append({"key": k, "msg": b, "case": cur})
            return merged
        if rc == 3:
            raise HarnessError("%s: harness reported its own failure: %s" % (t["name"], text[-3000:]))
        if cur < 0:
            raise HarnessError("%s shard %d ended with %s before its first case: %s" % (t["name"], shard, rc, text[-3000:]))
        if rc == "timeout":
            # re-run that one case alone, generously, before calling it a hang
            out1 = out + ".one"
            cmd1 = target_cmd(t, binpath) + ["--seed", str(seed), "--case", str(cur), "--out", out1]
            if t.get("mode"):
                cmd1 += ["--mode", t["mode"]]
            rc1, text1 = run_proc(cmd1, env, t.get("hang_timeout", stall), out1 + ".err")
            if rc1 == "stopped":
                return merged
            if rc1 == "timeout":
                STOP.set()
                merged["violations"].append({"key": "hang", "case": cur,
                                             "msg": "case %d does not end (twice); last output: %s" % (cur, text1[-1500:])})
            elif rc1 != 0:
                for k, b in crash_keys(text1, rc1):
                    merged["violations"].append({"key": k, "msg": b, "case": cur})
            else:
                log("inconclusive: %s shard %d timed out at case %d but the case alone ends" % (t["name"], shard, cur))
                merged["counters"]["inconclusive_timeouts"] = merged["counters"].get("inconclusive_timeouts", 0) + 1
                return merged
        else:
            for k, b in crash_keys(text, rc):
                merged["violations"].append({"key": k, "msg": b, "case": cur})
            merged["evaluations"] += 1
        start = cur + 1
        if start >= cases:
            return merged
        if STOP.is_set():
            return merged
    return merged


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    keep = "--keep" in args
    replay = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
    scale = float(args[args.index("--scale") + 1]) if "--scale" in args else 1.0
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = T.CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
    try:
        os.chmod(scratch, 0o755)
        bins = build(prop, scratch)
        tb = time.time()
        if replay:
            t = [x for x in spec["targets"] if x["name"] == replay["target"]][0]
            env = dict(os.environ)
            env.update(SAN_ENV)
            env.update({k: v.replace("{scratch}", scratch) for k, v in t.get("env", {}).items()})
            env["VERIF_REPO"] = REPO
            cmd = target_cmd(t, bins.get(t["name"])) + ["--seed", str(replay["seed"]), "--case", str(replay["case"]),
                                                        "--out", os.path.join(scratch, "r.json"), "-v"]
            if t.get("mode"):
                cmd += ["--mode", t["mode"]]
            r = subprocess.run(cmd, env=env, cwd=scratch)
            return r.returncode
        agg = {"evaluations": 0, "distinct": set(), "samples": [], "counters": {}}
        viol = []
        tasks = []
        for t in spec["targets"]:
            n = t["cases"] if tier == "quick" else t.get("thorough_cases", t["cases"] * 20)
            n = max(1, int(n * scale))
            nsh = min(t.get("shards", NCPU), n)
            for s in range(nsh):
                tasks.append((t, n, s, nsh))
        with cf.ThreadPoolExecutor(spec.get("parallel", NCPU)) as ex:
            futs = [(t, ex.submit(run_shard, t, bins.get(t["name"]), seed, n, s, nsh, tier, scratch))
                    for (t, n, s, nsh) in tasks]
            per = {}
            for t, f in futs:
                r = f.result()
                agg["evaluations"] += r["evaluations"]
                agg["distinct"].update(r["distinct"])
                agg["samples"] += r["samples"][:2]
                pt = per.setdefault(t["name"], {"evaluations": 0, "counters": {}})
                pt["evaluations"] += r["evaluations"]
                for k, v in r["counters"].items():
                    pt["counters"][k] = pt["counters"].get(k, 0) + v
                for v in r["violations"]:
                    v["target"] = t["name"]
                    viol.append(v)
        known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
        new, hit = [], {}
        for v in viol:
            for k in known:
                if re.fullmatch(k["key"], v["key"]) and re.search(k.get("msg", ""), v["msg"], re.S):
                    hit.setdefault(k["id"], v)
                    break
            else:
                new.append(v)
        for k in known:
            # a listed finding is announced on every run, whether or not this run's inputs hit it
            print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["id"] in hit else " (not hit in this run)"))
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = {}
        for v in new:
            seen.setdefault(v["key"], []).append(v)
        for k, vs in sorted(seen.items()):
            v = vs[0]
            p = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:80]))
            json.dump({"property": prop, "target": v["target"], "seed": seed, "case": v["case"], "key": k,
                       "message": v["msg"]}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  %s: %s" % (k, v["msg"][:1500].replace("\n", "\n    ")))
        for name, pt in per.items():
            for need in [t for t in spec["targets"] if t["name"] == name][0].get("require", []):
                if pt["counters"].get(need, 0) == 0 and not new:
                    raise HarnessError("target %s observed no '%s' events" % (name, need))
        if agg["evaluations"] == 0 and not new:
            raise HarnessError("nothing was observed")
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": agg["evaluations"], "distinct_nontrivial": len(agg["distinct"]),
                "rule": spec["rule"], "samples": agg["samples"][:12] or ["(none)"],
                "per_target": per, "build_s": round(tb - t0, 1),
            },
            "assumptions": spec.get("assumptions", []) + T.COMMON_ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2), "violations": len(seen),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
        print("%s %s: %d oracle decisions, %d distinct observations, %d violation kind(s), build %.0fs, total %.0fs" % (
            prop, tier, agg["evaluations"], len(agg["distinct"]), len(seen), tb - t0, time.time() - t0))
        return 1 if new else 0
    except HarnessError as e:
        log("CHECK ERROR %s: %s" % (prop, e))
        return 2
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            log("scratch kept:", scratch)


if __name__ == "__main__":
    sys.exit(main())
