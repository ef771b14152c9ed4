# probes.py SCEN FIRST COUNT: sums the probes and faults of runs.
import subprocess,sys,json,os,collections,concurrent.futures as cf
scen=sys.argv[1]; first,n=int(sys.argv[2]),int(sys.argv[3]); sim=os.environ.get('SIM','/verif/.build/sim')
env=dict(os.environ,GOMAXPROCS='1',GOGC='off',GODEBUG='asyncpreemptoff=1')
pl=subprocess.run([sim,'gen',scen,'quick',str(first),str(n)],capture_output=True,text=True,env=env).stdout.splitlines()
c=collections.Counter(); f=collections.Counter(); t=0
def one(p): return subprocess.run([sim,'run'],input=p,capture_output=True,text=True,env=env).stdout
with cf.ThreadPoolExecutor(8) as e:
    for o in e.map(one,pl):
        for l in o.splitlines():
            if l.startswith('RESULT '):
                r=json.loads(l[7:])
                for k,v in (r.get('probes') or {}).items(): c[k]+=v
                for k,v in (r.get('faults') or {}).items(): f[k]+=v
                t+=r.get('sim_s',0) or r.get('sim',0) or 0
print(dict(c)); print(dict(f)); print(t)
