"""dbg.py PXX [substring]: run proofs in-process with timing"""
import sys, time, importlib
sys.path.insert(0,'/verif')
from vf import core, loader
pid, sub = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else '')
mod = importlib.import_module('checks.'+pid.lower())
for s in getattr(mod,'LOOPS',()): loader.LOOP_SPECS.add(s)
pkg = loader.load()
try:
    for p in mod.proofs(pkg):
        if sub not in p.name: continue
        t=time.time(); st={}
        try:
            obs, meta = core.explore(p.fn,name=p.name,max_paths=p.max_paths,timeout_ms=p.timeout_ms,stats=st,deadline=time.monotonic()+p.budget_s)
        except Exception:
            import traceback; print(p.name); traceback.print_exc(); continue
        cnt={}
        for o in obs: cnt[o['status']]=cnt.get(o['status'],0)+1
        print(p.name, cnt, 'paths',meta['paths'],'inf',meta['infeasible'],'q',st.get('queries'),'%.1fs'%(time.time()-t), [u[-300:] for u in meta['unsupported'][:3]])
        for o in [o for o in obs if o['status'] in('refuted','unknown')][:4]:
            print('   ',o['status'],o['name'],str(o.get('info'))[:300],str(o.get('formula'))[:200], str(o.get('model'))[:300])
finally:
    loader.cleanup()
import os; sys.stdout.flush(); os._exit(0)
