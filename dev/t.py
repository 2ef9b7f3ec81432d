#!/usr/bin/env python3
"""dev/t.py NAME...: outcomes and events of functions (Class.method or ns::function; all overloads)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hsa.program import load
from hsa.absint import *
from hsa.q import retval
from hsa.models import flip_model
p = load()
W = int(os.environ.get("W", "260"))
def sh(evs, ind):
    for ev in evs:
        if ev.kind in ('call', 'throw', 'algo', 'new', 'stream', 'omp'):
            print((ind + ' %s %s on %s %s -> %s' % (ev.kind, ev.d.get('q'), ev.d.get('obj'), ev.d.get('args'), ev.d.get('res')))[:W])
        if ev.kind == 'loop':
            print((ind + ' loop closed=%s ivs=%s' % (ev.d.get('closed'), ev.d.get('ivs')))[:W])
            for b in ev.bodies:
                print((ind + '   body %s facts %s' % (b.kind, b.st.facts))[:W]); sh(trace(b.st), ind + '      ')
def show1(f, cls):
    eng = Engine(p, on_call=flip_model)
    outs = eng.run(f, cls=cls)
    print("==", f['q'], [x['t'] for x in f['ps']], len(outs), 'outs', eng.steps)
    for o in outs[:int(os.environ.get("N", "8"))]:
        print((' %s %s' % (o.kind, retval(o) if o.kind == 'R' else o.val))[:W])
        print(('   mem %s' % {k: v for k, v in o.st.mem.items() if k[0] != 'L'})[:2*W])
        print(('   facts %s' % o.st.facts)[:W])
        sh(trace(o.st), '     ')
for k in sys.argv[1:]:
    k = k if k.startswith('hnco') else 'hnco::' + k
    if '.' in k:
        c, m = k.rsplit('.', 1); n = None
        if '/' in m: m, n = m.split('/'); n = int(n)
        f = p.find_method(c, m, nparams=n)
        print('no', k) if f is None else show1(f, c)
    else:
        fs = [x for x in p.functions.values() if x['q'] == k and x.get('body')]
        if not fs: print('no', k)
        for f in fs: show1(f, f.get('cls'))
