set -e
. /opt/vp/env.sh
O=/verif/.build
mkdir -p $O
export GOCACHE=$O/gocache-$(cat /verif/sim/build.py /verif/sim/rt/* | sha256sum | head -c 12)
ls -d $O/gocache-* 2>/dev/null | grep -v $GOCACHE | xargs -r rm -rf
python3 /verif/sim/build.py $O ${1:-/repo}
cd ${1:-/repo} && CGO_ENABLED=0 go build -overlay $O/overlay.json -tags faketime -o ${2:-$O/sim} ./proxy/verifsim
