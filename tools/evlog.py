# evlog.py [N] [REGEX]: the last N events of /tmp/out.txt matching REGEX
import json,sys,re
n=int(sys.argv[1]) if len(sys.argv)>1 else 40
rx=re.compile(sys.argv[2]) if len(sys.argv)>2 else None
for l in open('/tmp/out.txt'):
    if l.startswith('RESULT '):
        r=json.loads(l[7:])
        L=[x[:230] for x in (r.get('log') or '').splitlines() if not rx or rx.search(x)]
        print('\n'.join(L[-n:]))
