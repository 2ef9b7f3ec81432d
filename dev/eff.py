import os,sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from hsa.program import load
from hsa.effects import Effects
p=load(); E=Effects(p)
for a in sys.argv[1:]:
    c,m=('hnco::'+a).rsplit('.',1)
    f=p.find_method(c,m)
    print(a, 'NONE' if f is None else ''); 
    if f: 
        for e in sorted(E.effects(f,c),key=str): print('   ',e)
