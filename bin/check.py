#!/usr/bin/env python3
"""check.py ID TIER: build the harness of property ID from /repo's working tree, explore, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")

def sh_env():
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GO111MODULE="on",
               GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
               PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env.pop("GOROOT", None)
    return env

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    extra = sys.argv[3:]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch_base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (2 << 30) else None
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=scratch_base)
    build = tempfile.mkdtemp(prefix="verif-build-%s-" % pid)
    try:
        return run(pid, tier, extra, t0, seed, scratch, build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(build, ignore_errors=True)

def run(pid, tier, extra, t0, seed, scratch, build):
    env = sh_env()
    ov = os.path.join(build, "overlay.json")
    gen = os.path.join(V, "harness", pid.lower(), "gen.py")
    ovextra = []
    if os.path.exists(gen):
        # harness-specific source rewriting of the current tree into the overlay
        subprocess.run([sys.executable, gen, R, build], check=True, env=env)
        ovextra = [os.path.join(build, "extra.json")]
    subprocess.run([sys.executable, os.path.join(V, "bin/mkoverlay.py"), ov] + ovextra, check=True, env=dict(env, VERIF_REPO=R))
    binary = os.path.join(build, "harness")
    b = subprocess.run(["go", "build", "-overlay", ov, "-o", binary, "./zz_verif/" + pid.lower()], cwd=R, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print("build failed:\n" + b.stdout)
        return 2
    tb = time.time() - t0
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    kfile = os.path.join(build, "known")
    open(kfile, "w").write("\n".join(k["key"] for k in known) + "\n")
    out = os.path.join(build, "result.json")
    env2 = dict(env, VERIF_SCRATCH=scratch, TMPDIR=scratch, VERIF_SEED=str(seed))
    p = subprocess.run([binary, "-tier", tier, "-out", out, "-known", kfile] + extra, cwd=scratch, env=env2)
    if not os.path.exists(out):
        print("harness gave no result (exit %d)" % p.returncode)
        return 2
    r = json.load(open(out))
    ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(V, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    man = {}
    try:
        m = json.load(open(os.path.join(V, "MANIFEST.json")))
        man = {c["property"]: c for c in m["checks"]}.get(pid, {})
    except Exception:
        pass
    viol = []
    for i, v in enumerate(r.get("violations") or []):
        rp = os.path.join(ev_dir, "replay", "%s-%d.json" % (pid, i))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(v, open(rp, "w"), indent=1)
        viol.append((v, rp))
    st = r["stats"]
    cov = {"states": st["states"], "transitions": st["transitions"],
           "traces_validated_against_impl": st["execs"], "exhaustive": bool(r["exhaustive"]),
           "counters": st.get("counters") or {}, "scenarios": r["scenarios"],
           "samples": r.get("samples") or [], "build_s": round(tb, 1)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": man.get("level", "model_checking"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": r.get("assumptions") or [],
          "known_findings": [k["what"] for k in known],
          "unreproduced": [u["key"] for u in (r.get("unreproduced") or [])]}
    json.dump(ev, open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d executions, %d states, %d transitions, exhaustive=%s, %.1fs (build %.1fs)" % (
        pid, tier, st["execs"], st["states"], st["transitions"], r["exhaustive"], time.time() - t0, tb))
    if r.get("fatal"):
        print("harness error: " + r["fatal"][:4000])
        if not viol:
            return 2
    if viol:
        for v, rp in viol:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  scenario %s, history %s" % (v["scenario"], v.get("ops")))
            print("  " + v["msg"][:1500])
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
