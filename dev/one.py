import sys,json,os,faulthandler; sys.path.insert(0,'/verif')
from sim import seams; seams.install()
import importlib
data=json.load(open(sys.argv[2])); mod=importlib.import_module('sim.checks.'+sys.argv[1].lower())
import cProfile,pstats
if getattr(mod,'prepare',None): mod.prepare()
faulthandler.dump_traceback_later(float(sys.argv[3]) if len(sys.argv)>3 else 60,exit=True)
pr=cProfile.Profile(); 
try:
    pr.enable(); r=mod.run(data['case']); pr.disable(); print({k:v for k,v in r.items() if k!='sched'},file=sys.stderr)
except BaseException as e:
    pr.disable(); import traceback; traceback.print_exc()
pstats.Stats(pr,stream=sys.stderr).sort_stats('cumtime').print_stats(22)
