#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written part (tools/design.md) with the tables filled in from the harnesses, the known-findings file and the planted changes."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from targets import RUNS, HARNESSES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
rows = {}
for f in sorted(glob.glob(V + "/harness/p_*.cc")):
    for m in re.finditer(r'\{"(C\d+)", "([^"]+)", \w+, (\d+), (\d+), "([^"]*)"', open(f).read()):
        rows.setdefault(m[1], []).append((m[2], os.path.basename(f), int(m[3]), int(m[4]), m[5]))
checks = ""
for p in props:
    i = p["id"]
    checks += "\n### %s %s\n" % (i, p["title"])
    for n, f, q, t, d in rows.get(i, []):
        checks += "* `%s` (%s; %s cases quick, %s thorough): %s\n" % (n, f, f"{q:,}", f"{t:,}", d)
    if i == "C30":
        for r in RUNS["C30"]:
            h = r["harness"]
            if not h.startswith("s_"): continue
            src = "p_" + h[2:] + ".cc"; f = int(re.search(r"=(\d+)", HARNESSES[h]["defs"])[1])
            all_ = [x for k in rows for x in rows[k] if x[1] == src and k != "C30"]
            checks += "* `safe-*` (%s; %s cases quick, %s thorough): the %d checks of `%s` built with the address and undefined-behaviour sanitizers, container and view bounds checks and patterned stack variables; only what these report counts, any other outcome belongs to the property the check was written for; non-trivial: as there\n" % (h, f"{sum(x[2] for x in all_) // f:,}", f"{sum(x[3] for x in all_) // f:,}", len(all_), src)
    if i not in rows:
        checks += "* no check yet: listed under `not_applicable` in MANIFEST.json with the reason\n"
fixed = [l.strip() for l in open(V + "/known-findings.txt") if l.startswith(("fixed:", "finding:"))]
ft = "| property | commit | what failed |\n|---|---|---|\n"
for l in fixed:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: ft += "| %s | %s | %s |\n" % (m[1], m[2], m[3])
kt = ""
for l in fixed:
    m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
    if m: kt += "* %s `%s`: %s\n" % (m[1], m[2], m[3])
res = json.load(open(V + "/tools/planted.json"))
st = "| change | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    st += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, "not run yet"))
s = open(V + "/tools/design.md").read()
for k, v in (("CHECKS", checks), ("FIXED", ft), ("FINDINGS", kt), ("PLANTED", st)):
    s = s.replace("@@" + k + "@@", v.strip("\n"))
open(V + "/DESIGN.md", "w").write(s)
