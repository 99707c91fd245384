"""cover.py PROP [SUBSTRING]: a check of the engine: random inputs that meet the assumptions must lie on an explored path of every
completely explored configuration (configurations that follow one base path by design report misses)"""
import sys, os, random, importlib, glob, time
W=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,W); os.chdir(W); sys.dont_write_bytecode=True
sys.setrecursionlimit(20000)
from symx import explore, loader, core
from symx.core import CTX, Path, PathAbort, Unsupported, Ev
from symx.env import SymEnv, Stop
from mpmath import mpf
from fractions import Fraction
prop=sys.argv[1]; sub=sys.argv[2] if len(sys.argv)>2 else ""
hn=[os.path.basename(f)[:-3] for f in glob.glob(W+"/harness/*.py") if os.path.basename(f).lower().startswith(prop.lower()+"_")][0]
mod=importlib.import_module("harness."+hn)
import json
rep=explore.Replayer(); loader.start_monitor()
rec=[]
osch=explore.schedule
def sch(path,*a):
    rec.append(path); return osch(path,*a)
explore.schedule=sch
rng=random.Random(5)
cfgs=[c for c in mod.configs("quick") if sub in c["id"]]
cfgs=json.loads(json.dumps(cfgs))
tot=miss=skip=0
lim=float(os.environ.get("LIM","400")); t0=time.time()
rng.shuffle(cfgs)
for c in cfgs:
    if time.time()-t0>lim: print("stopped"); break
    rec.clear()
    res=explore.run_config(mod,hn,c,rep,20)
    if not res.complete or res.violation: skip+=1; continue
    paths=list(rec)
    if len(paths)<1: continue
    for k in range(int(os.environ.get("K","12"))):
        w={}
        for n,a in list(CTX.inputs.items()):
            lo=a.lo if a.lo is not None else -10; hi=a.hi if a.hi is not None else 10
            mode=rng.random()
            if a.isint: v=rng.randint(int(lo),int(hi)) if mode<.5 else rng.randint(max(int(lo),-3),min(int(hi),3)) if max(int(lo),-3)<=min(int(hi),3) else rng.randint(int(lo),int(hi))
            else:
                s=float(hi)-float(lo); 
                v=float(lo)+s*round(rng.random()*4096)/4096
                if mode<.5 and lo<=0<=hi: v=max(float(lo),min(float(hi),round(rng.gauss(0,4)*64)/64))
            w[n]=mpf(v)
        p=Path([],w,None,True); CTX.path=p; ok=True
        try:
            try: mod.run(SymEnv(p),c)
            except Stop: pass
        except (PathAbort,Unsupported): ok=False
        except Exception as e: ok=False
        finally: CTX.path=None
        if not ok: continue
        ev=Ev(w)
        if not all(ev.bo(x) for x in p.lits): continue
        tot+=1
        hit=False
        for q in paths:
            try:
                if all(ev.bo(x) for x in q.lits): hit=True; break
            except Exception: pass
        if not hit:
            miss+=1
            print("MISS",c["id"],len(paths),{n:float(v) for n,v in list(w.items())[:6]},flush=True)
print(prop,"covered",tot,"misses",miss,"skipped cfgs",skip,flush=True)
