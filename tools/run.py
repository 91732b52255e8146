#!/usr/bin/env python3
"""run.py [-p PROP,..] REGEX : run the check of each seeded bug's property on a patched copy."""
import os, sys, re, json, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor
import queue
N=int(os.environ.get('N','3'))
SEED=os.environ.get('SEED','/verif/seeded')
rx=sys.argv[-1]
props=sys.argv[2].split(',') if sys.argv[1]=='-p' else None
V='/tmp/pl/v'; subprocess.run('mkdir -p %s; rsync -a --delete --exclude .git --exclude seeded --exclude evidence /verif/ %s/ 2>/dev/null || (cp -a /verif/. %s/)'%(V,V,V),shell=True)
slots=queue.Queue(); 
for k in range(N):
    r='/tmp/pl/c%d'%k; shutil.rmtree(r,ignore_errors=True); subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b'%(r,r,r),shell=True); slots.put(k)
    subprocess.run('mkdir -p /tmp/pl/v%d; cp -a %s/. /tmp/pl/v%d/'%(k,V,k),shell=True)
ids=[d for d in sorted(os.listdir(SEED)) if re.search(rx,d)]
def one(i):
    k=slots.get()
    try:
        r='/tmp/pl/c%d'%k
        subprocess.run('git checkout -q -- . && git apply %s/%s/patch.diff'%(SEED,i),shell=True,cwd=r,check=True)
        out=[]
        for p in props or [json.load(open('%s/%s/meta.json'%(SEED,i)))['property']]:
            t=time.time()
            q=subprocess.run(['python3','check.py',p],cwd='/tmp/pl/v%d'%k,capture_output=True,text=True,env=dict(os.environ,LB_REPO=r,LB_JOBS=str(max(2,8//N)),VERIF_SEED='1',VERIF_TIER='quick'))
            v=[l for l in q.stdout.split('\n') if l.startswith('VIOLATION')]
            how=''
            if v:
                m=[json.load(open(re.search(r'replay=(\S+)',l).group(1)))['decided_by'] for l in v]
                how='%d viol, %d by solver'%(len(v),sum('solver' in x for x in m))+'  '+v[0].split('[')[-1]
            out.append('%s rc=%d %s %.0fs %s'%(p,q.returncode,'CAUGHT' if q.returncode==1 and v else 'missed',time.time()-t,how or q.stdout.strip()[-200:]+q.stderr[-200:]))
        print(i,' | '.join(out),flush=True)
    finally: slots.put(k)
with ThreadPoolExecutor(N) as ex: list(ex.map(one,ids))
