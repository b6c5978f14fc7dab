#!/usr/bin/env python3
"""Runs the check of one property: run.py <property id> [--replay FILE] (tier and seed from VERIF_TIER and VERIF_SEED)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build, checks

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")

def known_findings(pid):
    """Entries 'finding: property=<id> key=<regex on the failing case> <description>'."""
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid: res.append((m.group(2), m.group(3).strip()))
    return res

def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    chk = checks.CHECKS[pid]
    b = build.Builder()
    work = tempfile.mkdtemp(prefix="heffte-verif-")
    evid = os.path.join(VERIF, "evidence"); os.makedirs(evid, exist_ok=True)
    env = dict(os.environ); env["ASAN_OPTIONS"] = "max_malloc_fill_size=1000000000:malloc_fill_byte=255:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4000:quarantine_size_mb=64:abort_on_error=0:detect_stack_use_after_return=0"
    env["OMP_NUM_THREADS"] = "1"; env["MKL_NUM_THREADS"] = "1"; env["LC_ALL"] = "C.UTF-8"
    code = 0; parts = []; violation = None; inconclusive = []
    try:
        runs = chk["runs"]() if callable(chk["runs"]) else chk["runs"]
        # schedule all compilations first, then link and run one after the other
        plans = [(r, checks.compile_objects(b, r)) for r in runs if "objects" in r]
        for k, r in enumerate(runs):
            if violation: break
            budget = r["time"][0 if tier == "quick" else 1]
            out = os.path.join(work, "out%d.json" % k); rp = os.path.join(evid, "%s.replay" % pid)
            if "objects" in r:
                objs = [o for (q, o) in plans if q is r][0]
                try: exe = b.link(r["objects"] + "-" + r.get("variant", "avx"), objs, libs=r.get("libs", build.LIBS), san=r.get("san", True))
                except build.BuildError as e:
                    if not r.get("optional") or (k == len(runs) - 1 and not parts): raise
                    inconclusive.append("%s does not build: %s" % (r["name"], str(e)[-1500:])); continue
                cmd = [exe]
            else:
                cmd = r["command"](b, work)
            if replay:
                head = open(replay).read()
                if ("\nvariant %s\n" % r["name"]) not in "\n" + head: continue
                body = head.split("\n", 1)[1]; tmp = os.path.join(work, "replay.txt"); open(tmp, "w").write(body)
                p = subprocess.run(cmd + ["--replay", tmp, "--work", work], env=env, cwd=work)
                return p.returncode
            tr = time.time()
            cmd = cmd + ["--seed", str(seed), "--tier", tier, "--time", str(budget), "--out", out, "--work", work, "--replay-out", rp + ".tmp"]
            if r.get("only"): cmd += ["--only", r["only"]]
            p = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not os.path.exists(out): raise build.BuildError("harness %s gave no result (exit %d):\n%s" % (r["name"], p.returncode, p.stdout[-3000:]))
            d = json.load(open(out)); d["name"] = r["name"]; d["wall_s"] = round(time.time() - tr, 1); parts.append(d)
            if d.get("inconclusive"): inconclusive.append(d["inconclusive"])
            if d["violation"]:
                matched = [f for f in known_findings(pid) if re.search(f[0], d["case"])]
                text = open(rp + ".tmp").read(); open(rp, "w").write("variant %s\n" % r["name"] + text); os.remove(rp + ".tmp")
                violation = (d, rp)
        if replay: print("the replay file names no part of this check"); return 3
        for key, what in known_findings(pid): print("KNOWN-FINDING: property=%s %s" % (pid, what))
        cov = {
            "evaluations": sum(d["evaluations"] for d in parts), "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in parts),
            "rule": chk["rule"], "samples": [s for d in parts for s in d["samples"]][:12],
            "planned_cases": sum(d["planned"] for d in parts), "executed_cases": sum(d["cases"] for d in parts),
            "parts": {d["name"]: {"cases": d["cases"], "planned": d["planned"], "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "seconds": d["wall_s"], "per_property": d["per_property"], "labels": d["labels"]} for d in parts},
        }
        if inconclusive: cov["inconclusive"] = inconclusive
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": chk.get("assumptions", checks.ASSUMPTIONS), "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
        json.dump(ev, open(os.path.join(evid, "%s.json" % pid), "w"), indent=1)
        for i in inconclusive: print("INCONCLUSIVE:", i[:2000])
        if violation:
            d, rp = violation
            print("failing case (%s/%s): %s\n%s" % (d["name"], d["failed_property"], d["case"][:3000], d["message"][:3000]))
            print("VIOLATION property=%s replay=%s" % (pid, rp)); code = 1
        else:
            print("%s held on %d cases (%d distinct and non-trivial) in %.1f s" % (pid, cov["executed_cases"], cov["distinct_nontrivial"], time.time() - t0))
            if cov["executed_cases"] < chk.get("minimum", 20): print("too few cases were executed"); code = 2
        return code
    except build.BuildError as e:
        print(str(e)); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
