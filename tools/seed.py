#!/usr/bin/env python3
"""Development aid: confirms planted bugs in private copies of /repo and /verif (own mount and process namespace).

seed.py ID... [--no-test] [--no-check] [--checks C01,C02] [-j N]
Steps per bug: demo on the clean tree (exit 0), patch, build, stable tests, demo (nonzero), the property's quick check (exit 1).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"

INNER = r'''
set -u
mount --bind "$1/repo" /repo; mount --bind "$1/verif" /verif; mount -t tmpfs none /dev/shm; mount --bind "$1/tmp" /tmp
D=/bug; mkdir -p $D; cd /repo
git checkout -q -- . ; git status --short | grep -v '^??' 
touch /tmp/log
if [ "$DO_CLEAN" = 1 ]; then (cd /repo; bash "$BUG/demo.sh") >/tmp/demo0.log 2>&1; echo "RESULT clean-demo $?"; fi
git apply "$BUG/patch.diff" || { echo "RESULT apply 1"; exit 0; }
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo "RESULT build 1"; tail -30 /tmp/build.log; exit 0; }
if [ "$DO_TEST" = 1 ]; then bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1; python3 - <<'PY'
import json
d=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def flat(x):
    if isinstance(x, dict):
        for k in ('passed','tests','stable','results'):
            if k in x: return x[k]
    return x
base=flat(b); got=d.get('passed', d)
missing=[t for t in base if t not in set(got)]
print("RESULT stable-tests-missing", len(missing), missing[:5])
PY
fi
(cd /repo; bash "$BUG/demo.sh") >/tmp/demo1.log 2>&1; echo "RESULT patched-demo $?"; tail -3 /tmp/demo1.log
for c in $CHECKS; do cd /verif; S=$(date +%s); VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py $c >/tmp/check.log 2>&1; echo "RESULT check $c $? ($(( $(date +%s) - S )) s)"; grep -v '^$' /tmp/check.log | tail -8 | cut -c1-600; done
'''

def one(bug, a):
    d = os.path.join(V, "seeded", bug); meta = json.load(open(os.path.join(d, "meta.json")))
    top = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", top + "/repo"], check=True)
        os.mkdir(top + "/verif"); os.mkdir(top + "/tmp")
        for f in os.listdir(V):
            if f in (".git", "evidence"): continue
            subprocess.run(["cp", "-a", os.path.join(V, f), top + "/verif/"], check=True)
        bugdir = os.path.join(top, "tmp", "bug"); shutil.copytree(d, bugdir)
        checks = (a.checks.split(",") if a.checks else [meta["property"]]) if not a.no_check else []
        env = dict(os.environ, BUG="/tmp/bug", DO_TEST="0" if a.no_test else "1", DO_CLEAN="0" if a.no_clean else "1", CHECKS=" ".join(checks))
        p = subprocess.run(["unshare", "-m", "-p", "-f", "--mount-proc", "bash", "-c", INNER, "inner", top], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return bug, p.stdout
    finally:
        shutil.rmtree(top, ignore_errors=True)

ap = argparse.ArgumentParser(); ap.add_argument("bugs", nargs="*"); ap.add_argument("--no-test", action="store_true"); ap.add_argument("--no-check", action="store_true"); ap.add_argument("--no-clean", action="store_true")
ap.add_argument("--checks"); ap.add_argument("-j", type=int, default=2)
a = ap.parse_args()
bugs = a.bugs or sorted(os.listdir(os.path.join(V, "seeded")))
with ThreadPoolExecutor(a.j) as ex:
    for bug, out in ex.map(lambda b: one(b, a), bugs): print("=====", bug); print(out, flush=True)
