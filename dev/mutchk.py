import sys,os; sys.path.insert(0,os.environ.get('V','/verif'))
from sim.runner import Batch
prop,cap=sys.argv[1],float(sys.argv[2])
b=Batch(prop,'quick',int(sys.argv[3]) if len(sys.argv)>3 else 7); b.cap=cap; b.workers=int(os.environ.get('W','8')); b.maxviol=1
b.run()
if b.violations: v=b.violations[0]; print('CAUGHT',v['cls'],'|',v['msg'][:200].replace('\n',' '))
elif b.dead or b.harness: print('BROKEN',str(b.dead or b.harness[0])[:200])
else: print('quiet',b.evals)
