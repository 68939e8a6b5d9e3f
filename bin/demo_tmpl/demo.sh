#!/bin/bash
# Builds main.go (beside this script) against the tree in the current directory and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOROOT
S=$(mktemp -d /tmp/demo-XXXXXX) || exit 99
trap 'rm -rf "$S"' EXIT
python3 - "$D" "$R" > "$S/ov.json" <<'P'
import json, os, sys
D, R = sys.argv[1:]
rep = {}
for root, _, files in os.walk(D):
    for f in files:
        if not f.endswith(".go"):
            continue
        p = os.path.join(root, f)
        q = os.path.relpath(p, D)
        if q == "genesis_const.go":
            rep[R + "/common/config/zz_demo_genesis.go"] = p
        elif q.startswith(("kit/", "explore/")):
            rep[R + "/zz_verif/" + q] = p
        else:
            rep[R + "/zz_demo/" + q] = p
print(json.dumps({"Replace": rep}))
P
go build -overlay "$S/ov.json" -o "$S/demo" ./zz_demo || exit 98
cd "$S" && VERIF_SCRATCH="$S" timeout 240 "$S/demo"
