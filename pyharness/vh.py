"""Case runner and recorder of the Python harnesses (same protocol as harness/common.hpp)."""
import json
import os
import random
import sys
import traceback


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.distinct_ = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.perkey = {}
        self.case = 0
        self.verbose = False

    def distinct(self, s):
        if len(self.distinct_) < 60000:
            self.distinct_.add("%x" % (hash_str(s)))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s[:600])

    def violation(self, key, msg):
        self.perkey[key] = self.perkey.get(key, 0) + 1
        if self.perkey[key] <= 2 and len(self.violations) < 60:
            self.violations.append({"key": key, "msg": msg[:2000], "case": self.case})
        if self.verbose:
            sys.__stderr__.write("VIOL %s: %s\n" % (key, msg))

    def check(self, cond, key, msg):
        self.evaluations += 1
        if not cond:
            self.violation(key, msg() if callable(msg) else msg)
        return bool(cond)


def hash_str(s):
    h = 1469598103934665603
    for b in s.encode("utf8", "replace"):
        h = ((h ^ b) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h


rec = Recorder()
at_end = []
check = rec.check


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def pick(self, xs):
        return xs[self.randrange(len(xs))]

    def subset(self, xs, p=0.5):
        return [x for x in xs if self.random() < p]


def run_cases(body):
    a = {"seed": 1, "start": 0, "cases": 100, "shard": 0, "nshards": 1, "out": "/dev/null", "mode": ""}
    one = None
    argv = sys.argv[1:]
    i = 0
    while i < len(argv):
        k = argv[i]
        if k == "-v":
            rec.verbose = True
        elif k == "--thorough":
            a["thorough"] = True
        elif k == "--case":
            i += 1
            one = int(argv[i])
        elif k.startswith("--"):
            i += 1
            a[k[2:]] = argv[i] if k in ("--out", "--mode") else int(argv[i])
        i += 1
    cur = open(a["out"] + ".cur", "w") if a["out"] != "/dev/null" else None

    def go(c):
        rec.case = c
        if cur:
            cur.seek(0)
            cur.write("%020d" % c)
            cur.flush()
        rng = Rng("%d/%d/%s" % (a["seed"], c, a["mode"]))
        try:
            body(rng, c)
        except Exception as e:  # an exception the harness did not expect from the code under test
            tb = traceback.format_exc()
            repo = os.environ.get("VERIF_REPO", "/repo")
            frames = traceback.extract_tb(e.__traceback__)
            if not isinstance(e, (OSError, MemoryError)) or frames[-1].filename.startswith(repo + "/"):
                rec.violation("exception:%s:%s" % (type(e).__name__, frames[-1].name), tb[-1800:])
            else:
                sys.__stderr__.write(tb)
                sys.__stderr__.flush()
                for f in at_end:
                    f()
                os._exit(3)

    if one is not None:
        go(one)
    else:
        for c in range(a["start"], a["cases"]):
            if c % a["nshards"] == a["shard"]:
                go(c)
    json.dump({"evaluations": rec.evaluations, "nviol": sum(rec.perkey.values()), "distinct": sorted(rec.distinct_),
               "samples": rec.samples, "counters": rec.counters, "violations": rec.violations}, open(a["out"], "w"))
    for f in at_end:
        f()
    sys.__stderr__.flush()
    os._exit(0)
