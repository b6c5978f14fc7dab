"""C17: generated problems for the Python interface, executed by every process of an MPI job.

py_driver.py --module DIR --status FILE (--seed S --first K --count N --deadline T | --tape FILE)
"""
import contextlib, io, json, os, sys, time
args = dict(zip(sys.argv[1::2], sys.argv[2::2]))
sys.dont_write_bytecode = True
for d in args["--module"].split(":"): sys.path.insert(0, d)
import numpy as np
from mpi4py import MPI
import heffte

class Gen:
    """Recorded random choices; 0 is the simplest one."""
    def __init__(self, seed=None, tape=None): self.s = (seed or 0) & (2**64 - 1); self.src = tape; self.tape = []; self.pos = 0
    def below(self, n):
        if self.src is not None: v = min(self.src[self.pos], n - 1) if self.pos < len(self.src) else 0; self.pos += 1
        else:
            self.s = (self.s + 0x9E3779B97F4A7C15) & (2**64 - 1); z = self.s
            z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1); z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1); v = (z ^ (z >> 31)) % n
        self.tape.append(int(v)); return int(v)
    def range(self, a, b): return a if b <= a else a + self.below(b - a + 1)
    def chance(self, a, b): return self.below(b) >= b - a
    def pick(self, l): return l[self.below(len(l))]

ORDERS = [(0,1,2), (0,2,1), (1,0,2), (1,2,0), (2,0,1), (2,1,0)]
def bisect(g, lo, hi, p, out):
    if p == 1: out.append((tuple(lo), tuple(hi))); return
    n = [hi[d] - lo[d] + 1 for d in range(3)]; d = g.pick([d for d in range(3) if n[d] > 1]); rest = n[(d+1)%3] * n[(d+2)%3]
    fits = [(c, l) for c in range(1, n[d]) for l in range(1, p) if c * rest >= l and (n[d] - c) * rest >= p - l]
    c, l = g.pick(fits); h2 = list(hi); h2[d] = lo[d] + c - 1; l2 = list(lo); l2[d] = lo[d] + c
    bisect(g, lo, h2, l, out); bisect(g, l2, hi, p - l, out)
def partition(g, n, p):
    r = []
    if g.chance(1, 2):
        grids = [(a, b, p // a // b) for a in range(1, p + 1) if p % a == 0 for b in range(1, p // a + 1) if (p // a) % b == 0 and a <= n[0] and b <= n[1] and p // a // b <= n[2]]
        if grids:
            q = g.pick(grids); cut = [[i * (n[d] // q[d]) + min(i, n[d] % q[d]) for i in range(q[d] + 1)] for d in range(3)]
            r = [((cut[0][i], cut[1][j], cut[2][k]), (cut[0][i+1] - 1, cut[1][j+1] - 1, cut[2][k+1] - 1)) for k in range(q[2]) for j in range(q[1]) for i in range(q[0])]
    if not r: bisect(g, [0, 0, 0], [n[d] - 1 for d in range(3)], p, r)
    if g.chance(1, 3): 
        for i in range(len(r) - 1, 0, -1): j = g.below(i + 1); r[i], r[j] = r[j], r[i]
    return r, (g.pick(ORDERS) if g.chance(2, 3) else (0, 1, 2))

BAD_CALLS = ["in-size", "out-size", "in-dtype", "out-dtype", "scaling", "ws-size", "ws-dtype", "r2c-complex", "pair"]
def gen_case(g, np_):
    c = {"np": np_, "what": "plan"}
    if g.chance(1, 6):
        c["what"] = "helpers"; c["lo"] = [g.range(0, 9) for _ in range(3)]; c["n"] = [g.range(1, 40) for _ in range(3)]; c["order"] = g.pick(ORDERS); c["procs"] = g.range(1, 64)
        c["grid"] = [g.range(1, c["n"][d]) for d in range(3)]; return c
    c["r2c"] = g.chance(2, 5); c["backend"] = g.below(3); c["dir"] = g.below(3)
    while True:
        c["n"] = [g.range(1, 12) for _ in range(3)]
        c["nout"] = list(c["n"])
        if c["r2c"]: c["nout"][c["dir"]] = c["n"][c["dir"]] // 2 + 1
        if c["nout"][0] * c["nout"][1] * c["nout"][2] >= np_: break
        if g.src is not None: c["n"] = [max(np_, 2) if not c["r2c"] else 2 * np_] * 3; c["nout"] = list(c["n"]); 
        if g.src is not None and c["r2c"]: c["nout"][c["dir"]] = c["n"][c["dir"]] // 2 + 1
        if g.src is not None: break
    c["in"], c["oin"] = partition(g, c["n"], np_)
    if not c["r2c"] and g.chance(1, 4): c["out"], c["oout"] = c["in"], (c["oin"] if g.chance(1, 2) else g.pick(ORDERS))
    else: c["out"], c["oout"] = partition(g, c["nout"], np_)
    c["comm"] = g.below(3); c["keep"] = g.chance(1, 3); c["default_order"] = c["oin"] == (0, 1, 2) and g.chance(1, 2)
    c["plan_bad"] = g.pick(["backend:5", "backend:-1", "backend:10", "backend:11", "direction:3", "direction:-1", "backend:3", "backend:12"]) if g.chance(1, 6) else ""
    ops = []
    for _ in range(g.range(1, 4)):
        o = {"fwd": not g.chance(2, 5), "dbl": not g.chance(2, 5), "real": c["r2c"] or g.chance(1, 4), "buffered": g.chance(1, 2), "scale": g.below(4), "shape": g.chance(1, 4), "extra": g.below(3), "seed": g.below(1 << 16), "bad": "", "inplace": False}
        if g.chance(1, 4): o["bad"] = g.pick(BAD_CALLS); o["badk"] = g.below(4)
        elif not o["real"] and g.chance(1, 5): o["inplace"] = True
        ops.append(o)
    c["ops"] = ops
    return c
def describe(c):
    if c["what"] == "helpers": return "helpers world low=%s size=%s order=%s procs=%d grid=%s" % (c["lo"], c["n"], c["order"], c["procs"], c["grid"])
    s = "%s backend=%d grid=%s ranks=%d in=%s order=%s out=%s order=%s comm=%d %s calls:" % ("r2c(%d)" % c["dir"] if c["r2c"] else "c2c", c["backend"], c["n"], c["np"], c["in"], c["oin"], c["out"], c["oout"], c["comm"], c["plan_bad"])
    for o in c["ops"]: s += " %s/%s/%s/%s/scale=%s%s%s%s" % ("fwd" if o["fwd"] else "bwd", "double" if o["dbl"] else "float", "real" if o["real"] else "complex", "buffered" if o["buffered"] else "plain", ["default", "none", "full", "symmetric"][o["scale"]], "/3d" if o["shape"] else "", "/inplace" if o["inplace"] else "", "/bad:" + o["bad"] if o["bad"] else "")
    return s

class Failure(Exception): pass
def local(G, box, order):
    (a, b, c), (x, y, z) = box
    return np.ascontiguousarray(G[a:x+1, b:y+1, c:z+1].transpose(order[2], order[1], order[0])).ravel()
def guarded(n, dtype, shift):
    """A contiguous array with guard zones around it."""
    base = np.zeros(n + 16 + shift, dtype=dtype); base.view(np.uint8)[:] = 0xAB
    return base, base[8 + shift:8 + shift + n]
def guards_ok(base, n, shift):
    raw = base.view(np.uint8); s = base.itemsize
    return (raw[:(8 + shift) * s] == 0xAB).all() and (raw[(8 + shift + n) * s:] == 0xAB).all()
def rejected(f, what):
    try: f()
    except heffte.heffte_input_error as e:
        out = io.StringIO()
        with contextlib.redirect_stdout(out): e.print_what()
        if not str(e.message).strip() or out.getvalue().strip() != str(e.message).strip(): raise Failure("the exception for %s has no printable message" % what)
        return
    raise Failure("%s was accepted" % what)

def helpers(c):
    lo = np.array(c["lo"]); n = np.array(c["n"]); world = heffte.box3d(lo, lo + n - 1, c["order"]); p = c["procs"]
    grid = [int(x) for x in heffte.proc_setup(world, p)]
    if len(grid) != 3 or grid[0] * grid[1] * grid[2] != p: raise Failure("proc_setup gives %s for %d processes" % (grid, p))
    surf = lambda q: sum(n[d] / q[d] * n[(d+1) % 3] / q[(d+1) % 3] for d in range(3))
    best = min(surf((a, b, p // a // b)) for a in range(1, p + 1) if p % a == 0 for b in range(1, p // a + 1) if (p // a) % b == 0)
    if surf(grid) > best * (1 + 1e-9): raise Failure("proc_setup gives %s with surface %g, the minimum is %g" % (grid, surf(grid), best))
    boxes = heffte.split_world(world, np.array(c["grid"])); seen = np.zeros(n, dtype=int)
    if len(boxes) != c["grid"][0] * c["grid"][1] * c["grid"][2]: raise Failure("split_world gives %d boxes" % len(boxes))
    k = 0
    for z in range(c["grid"][2]):
        for y in range(c["grid"][1]):
            for x in range(c["grid"][0]):
                b = boxes[k]; k += 1
                if tuple(b.order) != tuple(c["order"]): raise Failure("split_world lost the order")
                if (b.low < lo).any() or (b.high > lo + n - 1).any() or (b.low > b.high).any(): raise Failure("split_world gives the box %s %s" % (b.low, b.high))
                a = b.low - lo; e = b.high - lo + 1; seen[a[0]:e[0], a[1]:e[1], a[2]:e[2]] += 1
                if b.count() != int(np.prod(e - a)): raise Failure("count() is wrong")
    if not (seen == 1).all(): raise Failure("split_world is not a partition")

kept = []
def plan_case(c, world):
    comm, own = world, None
    if c["comm"] == 1: comm = own = world.Dup()
    if c["comm"] == 2: comm = own = world.Split(0, -world.Get_rank())
    me = comm.Get_rank(); n = c["n"]; bi, bo = c["in"][me], c["out"][me]; ri, ro = c["oin"], c["oout"]; N = n[0] * n[1] * n[2]
    inbox = heffte.box3d(list(bi[0]), list(bi[1])) if c["default_order"] else heffte.box3d(bi[0], np.array(bi[1]), list(ri)); outbox = heffte.box3d(bo[0], bo[1], np.array(ro))
    make = (lambda b=c["backend"], d=c["dir"]: heffte.fft3d_r2c(b, inbox, outbox, d, comm)) if c["r2c"] else (lambda b=c["backend"], d=0: heffte.fft3d(b, inbox, outbox, comm))
    if c["plan_bad"]:
        k, v = c["plan_bad"].split(":")
        if k == "backend": rejected(lambda: make(b=int(v)), "backend " + v)
        elif c["r2c"]: rejected(lambda: make(d=int(v)), "r2c direction " + v)
    err = None
    try: plan = make()
    except heffte.heffte_input_error as e: err = e
    refused = comm.allreduce(1 if err is not None else 0)
    if refused:
        if refused != comm.Get_size(): raise Failure("plan creation refused on some processes only")
        if min(c["nout"]) >= comm.Get_size(): raise Failure("plan creation refused a valid problem: %s" % err.message)
        if own: own.Free()
        return False
    cnt = lambda b: (b[1][0] - b[0][0] + 1) * (b[1][1] - b[0][1] + 1) * (b[1][2] - b[0][2] + 1)
    ni, no = cnt(bi), cnt(bo)
    if plan.size_inbox() != ni or plan.size_outbox() != no: raise Failure("sizes %d %d reported for boxes of %d and %d" % (plan.size_inbox(), plan.size_outbox(), ni, no))
    nw = plan.size_workspace(); smallest = comm.allreduce(nw, MPI.MIN); same = comm.allreduce(1 if ni == no else 0, MPI.MIN)
    for o in c["ops"]:
        fwd = o["fwd"]; R = np.float64 if o["dbl"] else np.float32; C = np.complex128 if o["dbl"] else np.complex64
        rs = np.random.RandomState(o["seed"]); what = "forward" if fwd else "backward"
        if fwd:
            X = rs.uniform(-1, 1, n) if o["real"] else rs.uniform(-1, 1, n) + 1j * rs.uniform(-1, 1, n); X = X.astype(R if o["real"] else C)
            Y = np.fft.fftn(X.astype(np.complex128))
            if c["r2c"]: Y = np.take(Y, range(c["nout"][c["dir"]]), axis=c["dir"])
            src, sbox, sord, dbox, dord = X, bi, ri, bo, ro; dt_in, dt_out = (R if o["real"] else C), C
        else:
            if c["r2c"]:
                Y = rs.uniform(-1, 1, n); src = np.take(np.fft.fftn(Y), range(c["nout"][c["dir"]]), axis=c["dir"]).astype(C); Y = Y * N
            else: src = (rs.uniform(-1, 1, n) + 1j * rs.uniform(-1, 1, n)).astype(C); Y = np.fft.ifftn(src.astype(np.complex128)) * N
            sbox, sord, dbox, dord = bo, ro, bi, ri; dt_in, dt_out = C, (R if o["real"] else C)
        norm = np.linalg.norm(Y)
        a = local(src, sbox, sord).astype(dt_in); nd = cnt(dbox); ns = a.size; sh = o["seed"] % 3
        base, out = guarded(nd, dt_out, sh)
        wsn = nw + o["extra"]; wbase, ws = guarded(wsn, C, o["extra"])
        fun = getattr(plan, what + ("_buffered" if o["buffered"] else ""))
        scaling = [0, heffte.scale.none, heffte.scale.full, heffte.scale.symmetric][o["scale"]]; factor = [1.0, 1.0, 1.0 / N, 1.0 / np.sqrt(float(N))][o["scale"]]
        def call(x, y, w, s=None):
            l = [x, y] + ([w] if o["buffered"] else []) + ([s] if s is not None else ([] if o["scale"] == 0 else [scaling])); fun(*l)
        if o["bad"]:
            b, k = o["bad"], o["badk"]; x, y, w, s = a, out, ws, None
            if b == "in-size": x = np.zeros(ns + (1 if k % 2 else -1), dtype=dt_in)
            elif b == "out-size": y = np.zeros(nd + (1 if k % 2 else -1), dtype=dt_out)
            elif b == "in-dtype": x = a.real.astype([np.int32, np.int64, np.float16, np.int16][k])
            elif b == "out-dtype": y = np.zeros(nd, dtype=[np.int32, np.int64, np.float16, np.int16][k])
            elif b == "scaling": s = [3, -1, 7, 100][k]
            elif b == "ws-size":
                if not o["buffered"] or smallest < 1: continue
                w = np.zeros(nw - 1, dtype=C)
            elif b == "ws-dtype":
                if not o["buffered"]: continue
                w = np.zeros(wsn, dtype=[R, np.complex64 if o["dbl"] else np.complex128, np.int32, np.float64][k])
            elif b == "r2c-complex":
                if not c["r2c"]: continue
                if fwd: x = a.astype(C)
                else: y = np.zeros(nd, dtype=C)
            elif b == "pair":
                other = np.complex64 if o["dbl"] else np.complex128 # the complex side in the other precision
                if fwd: y = np.zeros(nd, dtype=other)
                else: x = a.astype(other)
            before = y.copy(); rejected(lambda: call(x, y, w, s), "%s with a bad argument (%s)" % (what, b))
            if y.tobytes() != before.tobytes() or not guards_ok(base, nd, sh): raise Failure("a rejected %s modified its output" % what)
            continue
        keep = a.copy()
        if o["inplace"] and same: out = a; base = None
        x = a; y = out
        if o["shape"] and base is not None: x = a.reshape([sbox[1][sord[i]] - sbox[0][sord[i]] + 1 for i in (2, 1, 0)]); y = out.reshape([dbox[1][dord[i]] - dbox[0][dord[i]] + 1 for i in (2, 1, 0)])
        call(x, y, ws)
        ref = local(Y, dbox, dord) * factor
        if dt_out == R: ref = ref.real
        err = np.linalg.norm(out.astype(np.complex128) - ref); tol = (2e-12 if o["dbl"] else 2e-4) * norm * factor + 1e-300
        if not err <= tol: raise Failure("wrong %s result on rank %d: error %g, allowed %g" % (what, me, err, tol))
        if base is not None:
            if a.tobytes() != keep.tobytes(): raise Failure("%s modified its input" % what)
            if not guards_ok(base, nd, sh): raise Failure("%s wrote outside of the output array" % what)
        if o["buffered"] and not guards_ok(wbase, wsn, o["extra"]): raise Failure("%s wrote outside of the workspace" % what)
    if plan.size_inbox() != ni or plan.size_outbox() != no or plan.size_workspace() != nw: raise Failure("the sizes changed")
    if c["keep"] and own is None: kept.append(plan)
    while len(kept) > 2: kept.pop(0)
    del plan
    if own: own.Free()
    return True

def main():
    world = MPI.COMM_WORLD; me = world.Get_rank(); status = args["--status"]
    def write(d):
        if me == 0:
            with open(status + ".tmp", "w") as f: json.dump(d, f)
            os.replace(status + ".tmp", status)
    if "--tape" in args: todo = [None]
    else: todo = range(int(args["--first"]), int(args["--first"]) + int(args["--count"]))
    deadline = time.time() + float(args.get("--deadline", "1e9")); done = 0; ev = 0; nontrivial = 0; labels = {}; samples = []
    for k in todo:
        stop = world.bcast(time.time() > deadline if me == 0 else None)
        if stop: break
        g = Gen(tape=json.load(open(args["--tape"]))) if k is None else Gen(seed=int(args["--seed"]) * 1000003 + k * 7919 + world.Get_size() * 104729)
        c = gen_case(g, world.Get_size()); desc = describe(c)
        head = {"state": "running", "desc": desc, "tape": g.tape, "done": done, "evaluations": ev, "nontrivial": nontrivial, "labels": labels, "samples": samples}
        write(head); msg = None; ok = True
        try:
            if c["what"] == "helpers": helpers(c)
            else: ok = plan_case(c, world)
        except Exception as e:
            msg = "%s%s" % ("" if isinstance(e, Failure) else type(e).__name__ + ": ", e)
            write(dict(head, state="failed", message=msg)) # the other processes may be waiting in a transform
            if me != 0: json.dump(dict(head, state="failed", message=msg), open(status + ".%d" % me, "w"))
        msgs = [m for m in world.allgather(msg) if m]
        if msgs:
            write(dict(head, state="failed", message=msgs[0])); world.Barrier(); os._exit(1)
        done += 1; ev += len(c["ops"]) if c["what"] == "plan" else 2
        for l in ([c["what"]] if c["what"] == "helpers" else ["ranks:%d" % c["np"], "r2c" if c["r2c"] else "c2c", "backend:%d" % c["backend"]] + ["bad:" + o["bad"] for o in c["ops"] if o["bad"]] + ([] if ok else ["refused"])): labels[l] = labels.get(l, 0) + 1
        if ok and (c["what"] == "helpers" or c["n"][0] * c["n"][1] * c["n"][2] > 1): nontrivial += 1
        if len(samples) < 2 and done % 5 == 3: samples.append(desc)
    kept.clear()
    write({"state": "finished", "done": done, "evaluations": ev, "nontrivial": nontrivial, "labels": labels, "samples": samples, "desc": "", "tape": []})
main()
