import json,os,sys
sys.path.insert(0,'/verif')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
from importlib import reload
from sim.checks import conf
NA_PURE={
 'C17':'pure function of its input text: no schedule, time, I/O, randomness or party for a simulator to control, so simulated schedules and faults add nothing over ordinary input generation',
 'C18':'pure geometry of one polygon computation: no concurrency, clock, I/O or randomness is involved, so there is nothing for a simulated schedule or fault to decide',
 'C19':'pure construction from its arguments: no schedule, time, I/O or randomness is involved, so there is nothing for a simulated schedule or fault to decide',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in conf.CONF:
        c=conf.CONF[i]
        checks.append(dict(property=i,quick_cmd=f'./check {i} quick',thorough_cmd=f'./check {i} thorough',evidence_file=f'evidence/{i}.json',
          technique=c.get('TECHNIQUE','deterministic simulation with fault injection: seeded search over schedules and faults, checked against a reference model'),
          level=c.get('LEVEL','exploration'),level_note=c['NOTE']))
    else:
        na.append(dict(property=i,reason=NA_PURE.get(i,'check not built yet')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='One simulated world per seed runs the real hylaa code in one process under seams installed from /verif/sim (no hooks in /repo); replay with ./check PROP replay FILE.'),open('/verif/MANIFEST.json','w'),indent=1)
print([c['property'] for c in checks],[n['property'] for n in na])
