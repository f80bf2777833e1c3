import sys,os,json,collections; sys.path.insert(0,'/verif')
from sim.runner import Batch
prop,seed,count=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
b=Batch(prop,'quick',seed); b.count=count; b.cap=float(sys.argv[4]) if len(sys.argv)>4 else 1e9; b.workers=8
b.maxviol=200
b.run()
print(f'{b.evals} runs {len(b.nontrivial)} nontrivial in {b.explore_s:.1f}s; nondet {b.nondet}; skips {dict(b.skips)}; timed_out {b.timed_out}')
print('fired',dict(b.fired))
print('sums',{k:round(v,3) for k,v in b.sums.items()}, b.maxes)
for h in b.harness[:5]: print('HARNESS',h)
if b.dead: print('DEAD',b.dead)
seen=collections.Counter()
for v in b.violations:
    seen[v['cls']]+=1
    if seen[v['cls']]<=3:
        print(v['i'],v['cls'],'|',v['msg'][:400])
    open(f"/tmp/x/viol-{prop}-{v['i']}.json",'w').write(json.dumps({'property':prop,'cls':v['cls'],'msg':v['msg'],'case':v['case']}))
print(dict(seen))
