"""plant.py ID...: each /tmp/x/bugs/ID.py defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO"""
import sys,os,subprocess,json,shutil,importlib.util
def sh(c,cwd=None,t=400,env=None):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=env)
    return p.returncode,p.stdout.decode(errors='replace')
SH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONPATH=$PWD MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec timeout 250 "$PY" "$here/demo.py"
'''
for ident in sys.argv[1:]:
    spec=importlib.util.spec_from_file_location('b','/tmp/x/bugs/%s.py'%ident); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
    w='/tmp/w/%s'%ident
    shutil.rmtree(w,ignore_errors=True)
    sh('cp -a /repo %s && git -C %s checkout -q -- .'%(w,w))
    ok=True
    for f,old,new in b.EDITS:
        p=os.path.join(w,f); s=open(p).read()
        if s.count(old)!=1: print(ident,'EDIT matches',s.count(old),f,old[:60]); ok=False; break
        open(p,'w').write(s.replace(old,new))
    if not ok: shutil.rmtree(w); continue
    d='/verif/seeded/%s'%ident; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    rc,diff=sh('git diff',w); open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(b.DEMO.lstrip())
    json.dump({'property':b.PROP,'needs':b.NEEDS,'what_it_breaks':b.BREAKS},open(d+'/meta.json','w'),indent=1)
    # original lines only?
    base=subprocess.run('git rev-list --max-parents=0 HEAD',shell=True,cwd='/repo',stdout=subprocess.PIPE).stdout.decode().split()[-1]
    rem=[l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    for f in {e[0] for e in b.EDITS}:
        bs=subprocess.run(['git','show','%s:%s'%(base,f)],cwd='/repo',stdout=subprocess.PIPE).stdout.decode().split('\n')
        for l in rem:
            if l.strip() and l not in bs: print(ident,'   NOT ORIGINAL LINE:',l)
    r0=sh('bash %s/demo.sh'%d,'/repo'); r1=sh('bash %s/demo.sh'%d,w)
    rt=sh('. /tmp/x/env.sh; PYTHONPATH=%s timeout 300 python -m pytest -q -p no:cacheprovider -n 5 --dist loadfile --timeout=120 -W ignore tests 2>&1 | tail -5'%w,w) if not getattr(b,'NOTEST',0) else (0,'')
    last=rt[1].strip().split('\n')[-1]
    good=r0[0]==0 and r1[0]!=0 and 'failed' not in last and 'error' not in last
    print(ident,'OK' if good else 'BAD','demo clean',r0[0],'patched',r1[0],'| tests',last)
    if r0[0]!=0: print('   CLEAN:',r0[1][-600:])
    print('   PATCHED:',r1[1].strip().split('\n')[-1][:200])
    if 'failed' in last: print(rt[1][-500:])
    if not good: pass
    shutil.rmtree(w)
