# one.sh SCEN SEED: one run; the plan in /tmp/plan.json, output in /tmp/out.txt and (V=1) /tmp/err.txt
export GOMAXPROCS=1 GOGC=off GODEBUG=asyncpreemptoff=1
S=${SIM:-/verif/.build/sim}
$S gen $1 quick $2 1 > /tmp/plan.json
$S run ${V:+-v} < /tmp/plan.json > /tmp/out.txt 2>/tmp/err.txt; echo rc=$?
python3 - <<'P'
import json
for l in open('/tmp/out.txt'):
    if l.startswith('RESULT '):
        r=json.loads(l[7:])
        for v in r.get('violations') or []: print('VIOL',v)
P
