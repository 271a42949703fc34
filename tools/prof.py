import sys,os,time
os.environ.update(JAX_PLATFORMS="cpu")
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
import importlib
from sim import engine
pid=sys.argv[1]; n=int(sys.argv[2]); start=int(sys.argv[3]) if len(sys.argv)>3 else 0
mod=importlib.import_module('sim.props.'+pid.lower())
ch=mod.plan(1,'quick')
flat=ch[start][:n] if len(sys.argv)>3 else [s for c in ch for s in c][:n]
print('chunks',len(ch),'runs',sum(map(len,ch)))
ctx={}
out=sys.stdout
for s in flat:
    s.setdefault('index',0)
    r=engine.run_one(mod,s,ctx)
    print(r['status'],round(r['wall'],2),r.get('kind',''),str(r.get('detail',''))[-1500:], {k:s[k] for k in s if k in('mode','kind','fault')}, s.get('cfg',{}).get('N'),str(s.get('cfg',{}).get('meth') or s.get('cfg',{}).get('ssm'))[:90],flush=True,file=out)
