import subprocess,sys,json,os,concurrent.futures as cf,collections
scen=sys.argv[1].split(','); first=int(sys.argv[2]); n=int(sys.argv[3]); sim=sys.argv[4] if len(sys.argv)>4 else '/verif/.build/sim'
env=dict(os.environ,GOMAXPROCS='1',GOGC='off',GODEBUG='asyncpreemptoff=1')
def one(a):
    s,plan=a
    try: p=subprocess.run([sim,'run'],input=plan,capture_output=True,text=True,env=env,timeout=120)
    except subprocess.TimeoutExpired: return s,plan,-9,'','timeout'
    return s,plan,p.returncode,p.stdout,p.stderr
jobs=[]
for s in scen:
    for pl in subprocess.run([sim,'gen',s,'quick',str(first),str(n)],capture_output=True,text=True,env=env).stdout.splitlines(): jobs.append((s,pl))
cnt=collections.Counter(); ex={}
with cf.ThreadPoolExecutor(8) as ex_:
    for s,plan,rc,out,err in ex_.map(one,jobs):
        seed=json.loads(plan)['seed']
        if rc not in(0,1):
            # panic head
            h=[l for l in err.splitlines() if l.startswith('panic') or l.startswith('fatal') or 'goroutine' in l and 'running' in l][:2]
            fr=[l for l in err.splitlines() if l.startswith('github.com/c2FmZQ/tlsproxy')][:1]
            k=(s,'rc%d'%rc,'|'.join(h)[:150]+str(fr)[:120]); cnt[k]+=1; ex.setdefault(k,[]).append(seed); continue
        r=[l for l in out.splitlines() if l.startswith('RESULT ')]
        if not r: k=(s,'noresult',''); cnt[k]+=1; ex.setdefault(k,[]).append(seed); continue
        r=json.loads(r[-1][7:])
        vs=r.get('violations') or []
        if not vs: cnt[(s,'ok','')]+=1
        for v in vs:
            import re
            d=re.sub(r'[0-9]+','#',v.get('what',v.get('msg',str(v))))[:170]
            k=(s,v.get('p',v.get('property','?')),d); cnt[k]+=1; ex.setdefault(k,[]).append(seed)
for k,c in sorted(cnt.items(),key=lambda x:(x[0][0],-x[1])): print(c,k,ex.get(k,[])[:5])
