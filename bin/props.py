#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing: python3 bin/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
NA = []  # not claimed

def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
               "why_tests_cant": why, "anchors": a}, technique, note))

exec(open(os.path.join(V, "bin", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
    for p, _ in NA:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: harnesses enter the build through a go build -overlay (bin/mkoverlay.py); nothing is added to /repo", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                 "technique": t, "level": "model_checking", "level_note": n} for p, t, n in P],
     "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
     "notes": "Every check is a stateless exhaustive exploration of the real code (see DESIGN.md). Known and fixed defects: known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "claimed,", len(NA), "not claimed")
