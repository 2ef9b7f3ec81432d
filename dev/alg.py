import os,sys,time,traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from hsa.program import load
from hsa import core
from hsa.rules.solutions import *
p=load(); ctx=core.Ctx(p,"P08","quick")
spath=getter_path(ctx,ALG,"get_solution")
for c in algorithms(ctx):
    if len(sys.argv)>1 and not any(a in c for a in sys.argv[1:]): continue
    t=time.time()
    try:
        m,f,res=run_alg(ctx,c,spath,peel=bool(os.environ.get('PEEL')))
    except (TooComplex,Exception) as e:
        print(c,'FAIL',repr(e)[:200], '%.1f'%(time.time()-t)); 
        if os.environ.get('TB'): traceback.print_exc()
        continue
    print(c,len(res),'outs %.1fs'%(time.time()-t))
    agg={}
    for o,o2 in res:
        s=at(o2.st,spath)
        a,b=proj(s,('.','first')),proj(s,('.','second'))
        if o.kind=='X' and m.initial(b): continue
        v,why=pair_verdict(m,b,a)
        k=(o.kind,v,(why or '')[:150], show(b)[:100] if v!='ok' else '', show(a)[:100] if v!='ok' else '', str(sorted(show(x) if isinstance(x,T) else str([show(z) if isinstance(z,T) else z for z in x]) for x in (o2.st.rs or ())))[:300] if o.kind=='R' else '')
        agg[k]=agg.get(k,0)+1
    for k,n in sorted(agg.items()): print('    ',n,k)
