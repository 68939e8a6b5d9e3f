#!/bin/bash
# newseed.sh ID [kit]: development helper: lays out seeded/ID from the template (with the ledger kit when asked)
V=$(cd "$(dirname "$0")/.." && pwd)
d=$V/seeded/$1; mkdir -p $d
cp $V/bin/demo_tmpl/demo.sh $d/
if [ "$2" = kit ]; then mkdir -p $d/kit $d/explore; cp $V/kit/*.go $d/kit/; cp $V/explore/*.go $d/explore/; cp $V/overlay/genesis_const.go $d/; fi
