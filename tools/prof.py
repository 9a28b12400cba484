"""profile one harness: prof.py P01_x.cpp harness [seconds]"""
import sys, os, tempfile, time, cProfile, pstats
import faulthandler; faulthandler.dump_traceback_later(400,exit=True)
V="/verif"
sys.path.insert(0, V+'/engine')
sys.setrecursionlimit(20000)
import build, sym, solver
from llvm import Module
src=V+'/harness/'+sys.argv[1]
d=tempfile.mkdtemp()
bc,o=build.build_ir(src,d,['-DVF_THOROUGH=0'])
m=Module(bc)
b=float(sys.argv[3]) if len(sys.argv)>3 else 30
sol=solver.Solver(time.time()+b)
ex=sym.Executor(m,sol,dict(o['engine'],deadline=time.time()+b))
ex.stop_on_violation=True
pr=cProfile.Profile()
pr.enable()
try:
    ex.run('vfh_'+sys.argv[2])
except Exception as e:
    import traceback; traceback.print_exc()
    print(type(e).__name__, e, ex.where(ex.cur))
pr.disable()
s=ex.stats
print({k:v for k,v in s.items() if k!='assert_sites'}, 'q',sol.queries,'t',sol.time,'slow',sol.slow[:20], 'viol', [(v['kind'],v['msg'],v['inputs']) for v in ex.violations])
pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
