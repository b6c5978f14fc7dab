"""Runs generated cases of the Python interface in MPI jobs, confirms and shrinks a failure, writes the result file."""
import argparse, json, os, signal, subprocess, sys, time
ap = argparse.ArgumentParser()
ap.add_argument("--module"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--time", type=float, default=45)
ap.add_argument("--out"); ap.add_argument("--work"); ap.add_argument("--replay-out"); ap.add_argument("--replay"); ap.add_argument("--only")
a = ap.parse_args(); here = os.path.dirname(os.path.abspath(__file__)); driver = os.path.join(here, "py_driver.py")
env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
    OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl_base_warn_component_unused="0", OMPI_MCA_plm="isolated", OMPI_MCA_oob_tcp_if_include="lo",
    OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
for k in ("ASAN_OPTIONS", "PYTHONPATH"): env.pop(k, None)
# MKL loads its kernels by name and needs its own libraries in the global scope, a library opened by ctypes is in a local one
PRELOAD = ["-x", "LD_PRELOAD=libmkl_intel_lp64.so:libmkl_sequential.so:libmkl_core.so"]
STALL = 90 # seconds without progress
counter = 0
class Job:
    def __init__(self, np, extra):
        global counter; counter += 1
        self.np = np; self.status = os.path.join(a.work, "py%d.json" % counter); self.err = open(os.path.join(a.work, "py%d.err" % counter), "w+"); self.t0 = self.moved = time.time(); self.seen = None; self.result = None; self.stalled = False
        self.p = subprocess.Popen(["mpirun", "-np", str(np)] + PRELOAD + [sys.executable, driver, "--module", a.module, "--status", self.status] + extra, env=env, cwd=a.work, stdout=self.err, stderr=self.err, start_new_session=True)
    def load(self):
        best = None
        for s in [self.status] + [self.status + ".%d" % r for r in range(1, self.np)]:
            try: d = json.load(open(s))
            except (OSError, ValueError): continue
            if best is None or d.get("state") == "failed": best = d
        return best
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGTERM)
        except OSError: pass
        try: self.p.wait(10)
        except subprocess.TimeoutExpired:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except OSError: pass
            self.p.wait()
    def poll(self, stall=STALL):
        """None while running, otherwise ("ok"|"failed"|"crashed"|"stalled"|"broken", status, text)."""
        rc = self.p.poll(); d = self.load(); now = time.time()
        if rc is None:
            mark = (d or {}).get("tape"), (d or {}).get("done")
            if mark != self.seen: self.seen = mark; self.moved = now
            failed = d and d.get("state") == "failed"
            if failed and now - self.moved > 5: self.kill(); return self.done("failed", d)
            if now - self.moved > stall: self.kill(); return self.done("stalled", self.load())
            return None
        if d is None: return self.done("broken", None)
        if d["state"] == "finished" and rc == 0: return self.done("ok", d)
        if d["state"] == "failed": return self.done("failed", d)
        if d["state"] == "finished": return self.done("crashed", d)
        return self.done("crashed", d)
    def done(self, kind, d):
        self.err.seek(0); t = self.err.read()[-3000:]; self.err.close(); return kind, d, t
def single(np, tape, stall=STALL):
    f = os.path.join(a.work, "tape%d.json" % counter); json.dump(tape, open(f, "w")); j = Job(np, ["--tape", f])
    while True:
        r = j.poll(stall)
        if r is not None: return r
        time.sleep(0.02)
def message(r): return r[1]["message"] if r[0] == "failed" else ("the processes stopped making progress" if r[0] == "stalled" else "a process ended abnormally: " + r[2][-1500:])

if a.replay:
    lines = open(a.replay).read().split("\n"); d = json.loads(next(l for l in lines if l.startswith("{"))); r = single(d["np"], d["tape"])
    print(r[1]["desc"] if r[1] else ""); print("replay: " + ("no failure" if r[0] == "ok" else message(r))); sys.exit(0 if r[0] == "ok" else 1)

start = time.time(); quick = a.tier == "quick"
order = [2, 3, 1, 2, 4, 3, 1, 5, 3, 6, 2, 8, 4, 7, 1] ; per = 150
njobs = 30 if quick else 600; queue = [(order[i % len(order)], i) for i in range(njobs)]
running = []; finished = []; bad = None; inconclusive = None; used = 0
while (queue or running) and bad is None:
    while queue and time.time() - start < a.time and (used == 0 or used + queue[0][0] <= 9):
        np, i = queue.pop(0); used += np
        running.append((Job(np, ["--seed", str(a.seed), "--first", str(i * per), "--count", str(per), "--deadline", str(max(1.0, min(20.0, a.time - (time.time() - start))))]), np))
    if time.time() - start >= a.time: queue = []
    for j, np in list(running):
        r = j.poll()
        if r is None: continue
        running.remove((j, np)); used -= np
        if r[0] == "broken": inconclusive = "an MPI job did not start: " + r[2][-800:]; continue
        finished.append(r[1])
        if r[0] != "ok" and bad is None: bad = (np, r)
    time.sleep(0.02)
for j, np in running: j.kill()
explored = time.time() - start; res = {"violation": False}
if bad:
    np, r = bad; tape = r[1]["tape"]; best = None
    for _ in range(2):
        q = single(np, tape) if r[1]["state"] != "finished" else ("ok", None, "")
        if q[0] not in ("ok", "broken"): best = q; break
    if best is None: inconclusive = "a failure was not confirmed by running the case alone (%s): %s" % (r[1]["desc"], message(r))
    else:
        stall = STALL if best[0] != "stalled" else 25; tries = 0; limit = time.time() + 90; np0 = np
        for n2 in range(1, np0): # fewer processes first
            q = single(n2, tape, stall); tries += 1
            if q[0] in ("failed", "crashed"): np, best, tape = n2, q, q[1]["tape"]; break
        changed = True
        while changed and time.time() < limit:
            changed = False; size = max(1, len(tape) // 2)
            while size >= 1 and time.time() < limit:
                i = 0
                while i < len(tape) and time.time() < limit:
                    for cand in ((tape[:i] + tape[i+size:]), (tape[:i] + [0] * min(size, len(tape) - i) + tape[i+size:]), (tape[:i] + [tape[i] // 2] + tape[i+1:] if size == 1 else None)):
                        if cand is None or cand == tape: continue
                        q = single(np, cand, stall); tries += 1
                        if q[0] in ("failed", "crashed") or (q[0] == "stalled" and best[0] == "stalled"):
                            t2 = q[1]["tape"]
                            if len(t2) < len(tape) or (len(t2) == len(tape) and t2 < tape): tape, best, changed = t2, q, True; break
                        if time.time() > limit: break
                    i += size
                size //= 2
        res = {"violation": True, "failed_property": "c17", "case": best[1]["desc"], "message": message(best) + "\n(shrunk in %d attempts)" % tries}
        with open(a.replay_out, "w") as f: f.write("property c17\n" + json.dumps({"np": np, "tape": tape}) + "\n# " + best[1]["desc"] + "\n# " + message(best).replace("\n", "\n# ") + "\n")
labels = {}
for d in finished:
    for k, v in d["labels"].items(): labels[k] = labels.get(k, 0) + v
tot = lambda k: sum(d[k] for d in finished)
res.update(planned=njobs * per, cases=tot("done"), evaluations=tot("evaluations"), distinct_nontrivial=tot("nontrivial"), seconds=explored, per_property={"c17": tot("done")}, labels=labels, samples=[s for d in finished for s in d["samples"]][:8])
if inconclusive: res["inconclusive"] = inconclusive
json.dump(res, open(a.out, "w"))
sys.exit(1 if res["violation"] else 0)
