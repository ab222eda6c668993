import sys; sys.path.insert(0,'/verif')
from symex import driver, engine as E, runtime as R
import traceback
prop, fn = sys.argv[1], sys.argv[2]
kw = eval(sys.argv[3]) if len(sys.argv)>3 else {}
brk = sys.argv[4] if len(sys.argv)>4 else None
driver.install(True)
E.cur=E.Path([],{'max_steps':10**9,'path_seconds':1e6})
driver.fresh_modules(prop)
if brk:
    o=E.Path.note_unsupported if brk=='uns' else E.concretize
    n=[0]
    if brk=='uns':
        def f(self, why):
            n[0]+=1
            if n[0]<3: traceback.print_stack(limit=14)
            return o(self, why)
        E.Path.note_unsupported=f
import cProfile,pstats
res={'paths': 0, 'decisions': 0, 'reached': 0, 'infeasible': 0, 'incomplete': [], 'viol': [], 'samples': [],'z3': 0, 'z3_s': 0.0, 'trivial': 0, 'vcs': 0, 'conc': 0, 'steps': 0, 'left': [], 'checks': 0}
if brk=='prof':
    pr=cProfile.Profile(); pr.enable()
r=driver.explore(E,R,prop,fn,kw,[()],float(sys.argv[5]) if len(sys.argv)>5 else 5,{'debug':True})
if brk=='prof':
    pr.disable(); pstats.Stats(pr).sort_stats('tottime').print_stats(25)
print({k:v for k,v in r.items() if k not in ('samples','left','code')}, 'left',len(r['left']))
