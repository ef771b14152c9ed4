#!/bin/bash
# mut.sh NAME SCEN FIRST COUNT < python: edits a copy of /repo (cwd) and sweeps a scenario with it.
W=/tmp/mut/$1; rm -rf $W; mkdir -p /tmp/mut; cp -a ${BASE:-/repo} $W
(cd $W && python3 -) || { echo "$1: edit failed"; exit 1; }
. /opt/vp/env.sh
O=/verif/.build
export GOCACHE=$O/gocache-$(cat /verif/sim/build.py /verif/sim/rt/* | sha256sum | head -c 12)
B=/tmp/mut/$1.b; mkdir -p $B
python3 /verif/sim/build.py $B $W && (cd $W && CGO_ENABLED=0 go build -overlay $B/overlay.json -tags faketime -o $B/sim ./proxy/verifsim) || { echo "$1: no build"; exit 1; }
echo "== $1"
python3 /verif/tools/sweep.py $2 $3 $4 $B/sim | cut -c1-260 | head -${5:-6}
rm -rf $W $B
