#!/usr/bin/env python3
"""seed.py ID: development helper (no check uses it). In a scratch copy of /repo, confirm that seeded/ID is a
planted bug: applies, builds, stable tests pass, demo passes before and fails after; then run the property's check."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = sys.argv[1]
notest = "notest" in sys.argv
nocheck = "nocheck" in sys.argv
d = os.path.join(V, "seeded", ID)
meta = json.load(open(d + "/meta.json"))
w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
R = w + "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    shutil.copytree(d, w + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    env = dict(os.environ)
    # the demo runs with cwd = the copy
    a = sh("bash %s/demo/demo.sh" % w, cwd=R)
    print("demo unpatched rc", a.returncode)
    if a.returncode: print(a.stdout[-2000:])
    p = sh("git apply %s/patch.diff" % d, cwd=R)
    if p.returncode: print("patch does not apply", p.stdout); sys.exit(1)
    b = sh("bash %s/demo/demo.sh" % w, cwd=R)
    print("demo patched rc", b.returncode, b.stdout[-600:])
    if not notest:
        sh("sed 's#cd /repo#cd %s#' /opt/vp/env.sh > %s/env.sh; sed 's#/opt/vp/env.sh#%s/env.sh#;s#/repo#%s#g' /opt/vp/test.sh > %s/test.sh; sed 's#/opt/vp/env.sh#%s/env.sh#;s#/repo#%s#g' /opt/vp/build.sh > %s/build.sh" % (R, w, w, R, w, w, R, w))
        bb = sh("bash %s/build.sh" % w, cwd=R)
        print("build rc", bb.returncode, bb.stdout[-500:] if bb.returncode else "")
        t = sh("bash %s/test.sh %s/out.json" % (w, w), cwd=R)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        try:
            got = set(json.load(open(w + "/out.json"))["passed"])
            miss = [x for x in base if x not in got]
            print("stable tests missing:", len(miss), miss[:5])
        except Exception as e:
            print("tests:", e, t.stdout[-1000:])
    if not nocheck:
        c = sh("python3 %s/bin/check.py %s quick" % (V, meta["property"]), env=dict(env, VERIF_REPO=R, VERIF_EVIDENCE=w + "/ev"))
        print("CHECK rc", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED", "\n", c.stdout[:1500])
finally:
    shutil.rmtree(w, ignore_errors=True)
