"""Where paths fork: forks.py PROP FN "dict(kw)" [seconds]"""
import sys; sys.path.insert(0,'/verif')
from symex import driver, engine as E, runtime as R
import traceback, collections
prop, fn = sys.argv[1], sys.argv[2]
kw = eval(sys.argv[3])
driver.install(True)
E.cur=E.Path([],{'max_steps':10**9,'path_seconds':1e6})
driver.fresh_modules(prop)
cnt=collections.Counter()
name = next(n for n in ('decide','branch','fork') if hasattr(E.Path,n))
o=getattr(E.Path,name)
def f(self,*a,**k):
    st=[x for x in traceback.extract_stack(limit=25) if 'forks.py' not in x.filename and 'engine' not in x.filename and 'runtime' not in x.filename and 'driver' not in x.filename]
    eng=[x for x in traceback.extract_stack(limit=25) if 'engine' in x.filename or 'runtime' in x.filename]
    cnt[(st[-1].filename.split('/')[-1], st[-1].lineno, st[-1].line, eng[-1].name if len(eng)>0 else '', eng[-2].name if len(eng)>1 else '')]+=1
    return o(self,*a,**k)
setattr(E.Path,name,f)
r=driver.explore(E,R,prop,fn,kw,[()],float(sys.argv[4]) if len(sys.argv)>4 else 5,{'debug':True})
for k,v in cnt.most_common(25): print(v,k)
print(r['paths'],len(r['left']))
