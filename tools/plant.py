#!/usr/bin/env python3
"""plant.py SPECFILE [regex] : verify & write bugs to /verif/seeded; then run checks on each."""
import os, sys, re, json, subprocess, shutil, threading, importlib.util, queue
W='/tmp/pl'; SEED='/verif/seeded'
spec=importlib.util.spec_from_file_location('spec',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
rx=sys.argv[2] if len(sys.argv)>2 else '.'
def sh(c,cwd=None,env=None,timeout=600):
    try:
        p=subprocess.run(c,shell=isinstance(c,str),cwd=cwd,env=env,capture_output=True,timeout=timeout); return p.returncode,(p.stdout+p.stderr).decode('latin1')
    except subprocess.TimeoutExpired: return -99,'timeout'
BASE=json.load(open('/opt/vp/BASELINE.json'))
stable=set(BASE.get('stable') or BASE.get('passed') or BASE.get('tests') or [])
def setup(k):
    r='%s/r%d'%(W,k); v='%s/vp%d'%(W,k)
    if not os.path.exists(r):
        sh('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s'%(r,r))
        sh('cp -a /opt/vp %s && sed -i "s#REPO=/repo#REPO=%s#" %s/support/env.sh && sed -i "s#/opt/vp#%s#g" %s/build.sh %s/test.sh'%(v,r,v,v,v,v))
        sh('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base'%r)
        print(sh('bash %s/build.sh'%v)[1][-300:] if sh('bash %s/build.sh'%v)[0] else '',end='')
    else:
        sh('git checkout -q -- .',cwd=r); sh('bash %s/build.sh'%v)
    return r,v
DEMO='''#!/bin/bash
# Runs the interpreter of the current directory on the session beside this file, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
exe=$PWD/_build/main/Debug/LegacyBasic
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
[ -d "$here/files" ] && cp "$here"/files/* "$d"
cd "$d"
ulimit -f 20000 -c 0
timeout 20 "$exe" %s < "$here/input.txt" > "$d/.out" 2> "$d/.err"
echo "exit $?" >> "$d/.out"
cmp "$d/.out" "$here/expected.out" || { cat "$d/.out"; exit 1; }
cmp "$d/.err" "$here/expected.err" || { cat "$d/.err"; exit 1; }
'''
lock=threading.Lock(); res={}
def one(b,k):
    r,v=setup(k)
    id=b['id']; d=os.path.join(W,'out%d'%k,id); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    # demo
    if 'demo' in b:
        open(d+'/demo.sh','w').write(b['demo'])
        for n,t in b.get('beside',{}).items(): open(d+'/'+n,'w').write(t)
    else:
        open(d+'/demo.sh','w').write(DEMO%b.get('args','-q'))
        open(d+'/input.txt','wb').write(b['in'].encode('latin1'))
        if b.get('files'):
            os.makedirs(d+'/files')
            for n,t in b['files'].items(): open(d+'/files/'+n,'wb').write(t.encode('latin1'))
        open(d+'/expected.out','w').close(); open(d+'/expected.err','w').close()
        s=open(d+'/demo.sh').read().split('cmp "$d/.out"')[0]+'cp "$d/.out" "$here/expected.out"; cp "$d/.err" "$here/expected.err"\n'
        open(d+'/cap.sh','w').write(s); sh('bash %s/cap.sh'%d,cwd=r); os.unlink(d+'/cap.sh')
    os.chmod(d+'/demo.sh',0o755)
    rc,o=sh('bash %s/demo.sh'%d,cwd=r)
    if rc: return 'demo fails on base: '+o[-300:]
    exp=open(d+'/expected.out',encoding='latin1').read() if 'demo' not in b else ''
    for f,a,c in b['edits']:
        p=os.path.join(r,f); s=open(p).read()
        if s.count(a)!=1 : return 'edit matches %d times: %s %r'%(s.count(a),f,a[:60])
        open(p,'w').write(s.replace(a,c))
    sh('git diff > %s/patch.diff'%d,cwd=r)
    # original lines?
    minus=[l[1:] for l in open(d+'/patch.diff') if l.startswith('-') and not l.startswith('---')]
    orig=''
    for f in set(e[0] for e in b['edits']): orig+=subprocess.run(['git','-C','/repo','show','64b4bd0:'+f],capture_output=True,text=True).stdout
    ol=set(orig.split('\n'))
    mine=[l for l in minus if l.rstrip('\n') not in ol]
    rc,o=sh('bash %s/build.sh'%v)
    if rc: return 'build fails: '+o[-600:]
    rc,dm=sh('bash %s/demo.sh'%d,cwd=r)
    if rc==0: return 'demo passes with the patch'
    sh('bash %s/test.sh %s/t%d.json'%(v,W,k))
    t=json.load(open('%s/t%d.json'%(W,k)))
    failed=[x for x in t['failed'] if not stable or x in stable]
    if failed: return 'tests fail: %s'%failed[:4]
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    dst=os.path.join(SEED,id); shutil.rmtree(dst,ignore_errors=True); shutil.copytree(d,dst)
    return 'OK'+(' (touches own lines: %s)'%mine[:2] if mine else '')+('\n      base: '+repr(exp[-200:])+'\n      bug:  '+repr(dm[-260:]) if '-v' in sys.argv else '')
q=queue.Queue()
ids=[b['id'] for b in m.B]; assert len(set(ids))==len(ids)
for b in m.B:
    if re.search(rx,b['id']): q.put(b)
def work(k):
    while True:
        try: b=q.get_nowait()
        except queue.Empty: return
        try: x=one(b,k)
        except Exception as e: x='EXC %r'%e
        with lock: print(b['id'],b['prop'],x,flush=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
