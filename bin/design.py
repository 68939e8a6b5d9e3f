#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, a section per property (scenario bounds as the harness lists them), design_tail.md."""
import json, os, subprocess, tempfile, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
K = json.load(open(V + "/known_findings.json"))
sys.path.insert(0, V + "/bin")
import check
t = tempfile.mkdtemp(prefix="verif-design-")
try:
    env = check.sh_env()
    subprocess.run([sys.executable, V + "/bin/mkoverlay.py", t + "/ov.json"], check=True, env=env)
    b = {}
    for p in P:
        i = p["id"]
        subprocess.run(["go", "build", "-overlay", t + "/ov.json", "-o", t + "/h", "./zz_verif/" + i.lower()], cwd="/repo", env=env, check=True)
        b[i] = [subprocess.run([t + "/h", "-list", "-tier", x], capture_output=True, text=True, env=dict(env, VERIF_SCRATCH=t)).stdout.strip().split("\n") for x in ("quick", "thorough")]
finally:
    shutil.rmtree(t, ignore_errors=True)
o = [open(V + "/bin/design_head.md").read().rstrip(), "", "## The properties", ""]
for p in P:
    i = p["id"]
    m = M[i]
    o += ["### %s. %s" % (i, p["title"]), "", p["statement"], "",
          "*Decided by* %s. *Over* %s." % (m["technique"], p["quantifier"]["text"]), "",
          "*Why tests cannot settle it:* %s." % p["why_tests_cant"].rstrip("."), "",
          "*Strength and assumptions:* %s" % m["level_note"], "", "Scenarios (quick):", ""]
    q, th = b[i]
    o += ["* `%s` %s" % tuple((l + " - ").split(" - ")[:1] + [" - ".join(l.split(" - ")[1:])]) for l in q]
    d = [l for l in th if l not in q]
    if d:
        o += ["", "Thorough instead:", ""]
        o += ["* `%s` %s" % tuple((l + " - ").split(" - ")[:1] + [" - ".join(l.split(" - ")[1:])]) for l in d]
    e = V + "/evidence/%s.json" % i
    c = None
    cf = V + "/bin/design_counts.json"
    C = json.load(open(cf)) if os.path.exists(cf) else {}
    if os.path.exists(e):
        x = json.load(open(e))
        if x["tier"] == "quick":
            v = x["coverage"]
            C[i] = [v["traces_validated_against_impl"], v["states"], v["transitions"], v["exhaustive"], round(x.get("duration_s", x.get("wall_s", 0)))]
            json.dump(C, open(cf, "w"), indent=0, sort_keys=True)
    if i in C:
        n = C[i]
        o += ["", "Measured (quick, 8 cores): %d executions, %d states, %d transitions%s." % (n[0], n[1], n[2], ", complete within the bounds" if n[3] else ", stopped by the time budget")]
    o += [""]
o += ["## Defects found and repaired", ""]
o += ["* %s (%s) `%s`" % (k["text"].split(k["commit"], 1)[1].strip(), k["property"], k["commit"]) for k in K if k["status"] == "fixed"]
o += ["", "## Known findings (not repaired)", ""]
o += ["* %s" % (k.get("text") or k["key"]) for k in K if k["status"] == "known"]
o += ["", open(V + "/bin/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(o))
