"""Development aid: creates /verif/seeded/<id> from textual edits of the tree (edits: list of (file, old, new))."""
import json, os, shutil, subprocess, tempfile
L = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")
def bug(id, prop, edits, needs, breaks, main, nprocs, script=None, files=()):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    patch = ""
    by = {}
    for f, old, new in edits:
        t = by.get(f) or open("/repo/" + f).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        by[f] = t.replace(old, new)
    for f, t in by.items():
        p = os.path.join(tmp, "new"); open(p, "w").write(t)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, p], stdout=subprocess.PIPE, text=True)
        patch += r.stdout
    open(d + "/patch.diff", "w").write(patch); shutil.rmtree(tmp)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if main is not None:
        open(d + "/demo.cpp", "w").write('#include "demo_common.h"\n' + main); shutil.copy(L + "/demo_common.h", d)
    open(d + "/demo.sh", "w").write(script or open(L + "/demo.sh").read().replace("NPROCS", str(nprocs))); os.chmod(d + "/demo.sh", 0o755)
    for n, t in dict(files).items(): open(os.path.join(d, n), "w").write(t)
