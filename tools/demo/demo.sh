#!/bin/bash
# Run in /repo: builds demo.go with the proxy and runs it.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$(pwd)
cat > "$T/o.json" <<J
{"Replace": {"$R/proxy/vdemo/main.go": "$D/demo.go", "$R/proxy/vdemo/lib.go": "$D/lib.go"}}
J
CGO_ENABLED=0 go build -overlay "$T/o.json" -o "$T/demo" ./proxy/vdemo || exit 2
cd "$T" && mkdir d && TMPDIR="$T/d" timeout 200 "$T/demo" 2>"$T/log"
rc=$?
[ $rc -ne 0 ] && tail -20 "$T/log"
exit $rc
