#!/usr/bin/env python3
"""check.py ID quick|thorough   - build from /repo's tree, search, write evidence/ID.json.
   check.py --replay FILE       - run one replay file again.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build or set-up failed)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "harness"))
import build as B
from targets import RUNS, LEVEL_NOTES
KNOWN = os.path.join(V, "known-findings.txt")
REPLAYS = os.path.join(V, "replay")

def env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.setdefault("HOME", "/root")
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMPI_ALLOW_RUN_AS_ROOT"] = e["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    e["OMPI_MCA_btl_vader_single_copy_mechanism"] = "none"
    e["OMPI_MCA_btl"] = "self,vader"
    e["OMPI_MCA_mpi_yield_when_idle"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:handle_segv=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    e["VP_KNOWN"] = KNOWN
    e["VP_NIMBLE"] = os.path.join(B.BUILD, "bin", "NimbleSM")
    e["VP_BUILD"] = B.BUILD
    return e

def main():
    if sys.argv[1] == "--replay":
        lines = open(sys.argv[2]).read().split("\n")
        h = [l.split()[1] for l in lines if l.startswith("harness ")][0]
        prop = [l.split()[1] for l in lines if l.startswith("property ")][0]
        names = [h] + [x for r in RUNS[prop] if r["harness"] == h for x in r.get("also", [])]
        ok, out = B.build(names)
        if not ok:
            print(out); return 2
        return subprocess.run([os.path.join(B.BUILD, "bin", h), "--replay", os.path.abspath(sys.argv[2])], env=env()).returncode
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    scale = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VP_SCALE", "1")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    runs = RUNS[pid]
    names = sorted({r["harness"] for r in runs} | {x for r in runs for x in r.get("also", [])})
    ok, out = B.build(names)
    if not ok:
        print("BUILD FAILED for", pid); print("\n".join([l[:300] for l in out.splitlines() if "error" in l.lower() or "undefined" in l][:25])); return 2
    t_build = time.time() - t0
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    parts, bad = [], []
    for k, r in enumerate(runs):
        part = os.path.join(B.BUILD, "%s.%d.part.json" % (pid, k))
        if os.path.exists(part): os.remove(part)
        cmd = [os.path.join(B.BUILD, "bin", r["harness"]), "--property", pid, "--tier", tier, "--seed", str(seed), "--scale", scale,
               "--outdir", REPLAYS, "--partial", part] + r.get("args", [])
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode not in (0, 1) or not os.path.exists(part):
            bad.append("%s exited %d: %s" % (r["harness"], p.returncode, p.stdout[-2000:])); continue
        parts.append(json.load(open(part)))
    checks = [c for p in parts for c in p["checks"]]
    viol = [v for p in parts for v in p["violations"]]
    known = [k for p in parts for k in p["known"]]
    infra = [k for p in parts for k in p["infra"]]
    samples = [{"check": c["name"], "case": s} for c in checks for s in c["samples"][:2]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(c["evaluations"] for c in checks),
              "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in checks),
              "rule": " || ".join("%s: %s" % (c["name"], c["rule"]) for c in checks),
              "samples": samples,
              "per_check": [{k: v for k, v in c.items() if k not in ("samples", "rule")} for c in checks],
              "known_findings": known, "notes": infra,
              "build_s": round(t_build, 1)},
          "assumptions": LEVEL_NOTES.get(pid, {}).get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in known: print(k)
    for i in infra: print("note:", i)
    for c in checks:
        print("%s %-34s cases=%d discarded=%d nontrivial=%d" % (pid, c["name"], c["evaluations"], c["discarded"], c["distinct_nontrivial"]))
    print("%s %s build %.1fs total %.1fs" % (pid, tier, t_build, time.time() - t0))
    if viol:
        for v in viol:
            print("---- %s/%s\n%s\n  case: %s" % (v["property"], v["check"], v["msg"], v["case"]))
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if bad:
        print("\n".join(bad)); return 2
    # a search that did not run is no answer
    if not checks or any(c["evaluations"] == 0 for c in checks) or sum(c["distinct_nontrivial"] for c in checks) < 2:
        print("no cases were evaluated"); return 2
    return 0
sys.exit(main())
