#!/usr/bin/env python3
"""Writes the go build overlay: the kit, every harness main, and the missing mainnet genesis constant."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
def add(rep, src, dst):
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(root, f)
                rep[os.path.join(dst, os.path.relpath(p, src))] = p
rep = {R + "/common/config/zz_verif_genesis.go": V + "/overlay/genesis_const.go"}
for d in sorted(os.listdir(V)):
    if d.endswith("kit") or d in ("explore", "ref"):
        add(rep, os.path.join(V, d), R + "/zz_verif/" + d)
add(rep, V + "/harness", R + "/zz_verif")
for extra in sys.argv[2:]:
    rep.update(json.load(open(extra)))
json.dump({"Replace": rep}, open(sys.argv[1], "w"), indent=1)
