"""Development helper: mk(id, prop, needs, what, edits=[(file, old, new)], main=go source, kit=bool) writes seeded/id."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, needs, what, edits, main, kit=False):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["bash", V + "/bin/newseed.sh", id] + (["kit"] if kit else []), check=True)
    w = tempfile.mkdtemp(prefix="mk-", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True, check=True).stdout
        g = subprocess.run(["/opt/veriftools/go1.23.12/bin/gofmt", "-l"] + [os.path.join(w, f) for f, _, _ in edits], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    open(d + "/main.go", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
