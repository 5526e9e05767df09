"""Writes DESIGN.md from design_head.md, design_parts.py, properties.jsonl, targets.py, known_findings.json, seeded results."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import targets
from design_parts import PARTS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
K = json.load(open(V + "/known_findings.json"))["findings"]
o = [open(V + "/tools/design_head.md").read().rstrip() + "\n\n## Per property\n"]
SAN = {None: "ASan+UBSan", "asan": "ASan+UBSan", "tsan": "TSan", "plain": "no sanitizer"}
for p in P:
    i = p["id"]
    how, why, lim = PARTS[i]
    o.append(f"### {i} — {p['title']}\n")
    ts = []
    for t in targets.CHECKS[i]["targets"]:
        if t.get("kind") == "python":
            ts.append(f"`{t['name']}`: pyharness/{t['script']}, {t['cases']} cases (thorough {t.get('thorough_cases')})")
        else:
            m = f" mode {t['mode']}" if t.get("mode") else ""
            ts.append(f"`{t['name']}`: {', '.join(t['harness'])}{m}, {SAN.get(t.get('san'), t.get('san'))}, {t['cases']} cases (thorough {t.get('thorough_cases')})")
    o.append("- *Decided by:* " + how)
    o.append("- *Runs:* " + "; ".join(ts) + ".")
    o.append("- *Beyond tests:* " + why)
    o.append("- *Bounds and corrections:* " + lim)
    f = [k for k in K if k["property"] == i]
    if f:
        fx = [k for k in f if k["status"] == "fixed"]
        kn = [k for k in f if k["status"] != "fixed"]
        if fx: o.append(f"- *Defects found and repaired ({len(fx)}):* " + "; ".join(f"{k['what']} ({k['commit']})" for k in fx) + ".")
        for k in kn: o.append("- *Known finding (not repaired):* " + k["what"] + ".")
    s = [d for d in sorted(os.listdir(V + "/seeded")) if json.load(open(f"{V}/seeded/{d}/meta.json"))["property"] == i]
    if s: o.append("- *Planted changes:* " + ", ".join(s) + " (see the table).")
    o.append("")
o.append(open(V + "/tools/design_tail.md").read().rstrip())
o.append("\n## Planted changes (seeded/)\n\n| change | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    res = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
    o.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {res.get(d, '?')} |")
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
