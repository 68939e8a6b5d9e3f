#!/bin/bash
# Builds every harness once from /repo's working tree (warms the build cache); checks build again themselves.
cd "$(dirname "$0")/.." || exit 1
ov=$(mktemp /tmp/verif-setup-XXXXXX.json)
trap 'rm -f "$ov"' EXIT
python3 bin/mkoverlay.py "$ov" || exit 1
. /opt/vp/env.sh
go build -overlay "$ov" -o /dev/null ./zz_verif/... || exit 1
