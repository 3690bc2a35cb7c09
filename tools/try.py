import sys, json, time, subprocess, concurrent.futures as cf
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
sys.setrecursionlimit(20000)
import contracts
contracts.load_all()
import os
mode, pat = sys.argv[1:3]
secs = sys.argv[3] if len(sys.argv)>3 else '60'
REPO=os.environ.get('VC_REPO','/repo')
uids=[u for u in contracts.UNITS if all(p in u for p in pat.split('+'))]
import run
def s(uid):
    u=contracts.UNITS[uid]
    return uid, run.sym_task(u, float(secs), 20)
if mode=='s':
    tot=0; shown=0
    with cf.ThreadPoolExecutor(8) as ex:
        for uid,r in ex.map(s,uids):
            if r['status']=='proved' and len(uids)>3:
                tot+=1; continue
            if shown>=int(os.environ.get('LINES','12')): shown+=1; continue
            print(uid.split('.',1)[-1], r['status'], r['reason'][:300], r['discharged'],'/',r['obligations'],'paths',r['paths'],'%.1f'%r['seconds'], r['stubs'], r['bounded'])
            shown+=1
            if shown>int(os.environ.get('SHOW','3')): continue
            for o in r['bad'][:int(sys.argv[4]) if len(sys.argv)>4 else 1]:
                for k,v in o.items():
                    print('     ',k,':',str(v)[:int(sys.argv[5]) if len(sys.argv)>5 else 300])
    print('proved quietly',tot,'of',len(uids))
else:
    import time
    def c(uid):
        u=contracts.UNITS[uid]
        t0=time.time()
        n=u.con_seeds if len(sys.argv)<5 else int(sys.argv[4])
        r,e=run.con_task([{"uid":uid,"seeds":list(range(n)),"stats":u.stat,"seconds":float(secs)}],float(secs)+20)
        return uid,r.get(uid),e,time.time()-t0
    with cf.ThreadPoolExecutor(6) as ex:
        for uid,r,e,w in ex.map(c,uids):
            if r is None: print(uid,'NONE',e[-600:]); continue
            
            if not r['violation'] and not r['errors'] and r['runs']>0 and len(uids)>3: ok=globals().get('ok',0)+1; continue
            print(uid.split('.',1)[-1],r['runs'],'runs',r['checks'],'checks',str(r['violation'] and {k:v for k,v in r['violation'].items() if k!='plan'})[:400],r['skipped'],str(r['errors'][:1])[:400],'%.1f'%w)
    print('ok quietly',globals().get('ok',0),'of',len(uids))
