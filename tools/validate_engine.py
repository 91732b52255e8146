#!/usr/bin/env python3
"""Push the repository's own test programs through the symbolic engine (concretely) and compare with the
expected outputs recorded in the repository: validates the IR lowering and the small C library."""
import os, subprocess, json, sys, glob
MODE=int(sys.argv[1]) if len(sys.argv)>1 else 1
B=os.environ.get('SYMX_B','/verif/symx/build'); repo='/repo'
sut='/tmp/w/val.bc'; os.makedirs('/tmp/w',exist_ok=True)
subprocess.check_call(['/verif/symx/build_sut.sh',sut,repo])
def esc(b): return ''.join(chr(c) if 32<=c<127 and c!=92 else '\\x%02x'%c for c in b)
S=[];exp={}
for f in sorted(glob.glob(repo+'/tests/*.bas')):
    n=os.path.basename(f); d=open(f,'rb').read(); top=d.split(b'\n')[0]
    opts=[]
    if top.split()[:1]!=[] :
        w=top.decode().split()
        if len(w)>2 and w[0].isdigit() and w[1]=='REM' and w[2]=='OPTION': opts=w[3:]
        elif len(w)>1 and w[0]=='REM' and w[1]=='OPTION': opts=w[2:]
    s=f'session {n}\nopt mode={MODE}\nopt timeout=100\nblob stdin \nblob file:{n} {esc(d)}\narg -q\n'+''.join(f'arg {o}\n' for o in opts)+f'arg {n}\nend\n'
    S.append(s); exp[n]=[open(f[:-4]+e,'rb').read() if os.path.exists(f[:-4]+e) else b'' for e in ('.out','.err')]
open('/tmp/w/val.s','w').write(''.join(S))
r=subprocess.run([f'{B}/symx','-j','8','-emit','-s','/tmp/w/val.s',sut,f'{B}/libc.bc',f'{B}/harness.bc',f'{B}/refbasic.bc'],capture_output=True,text=True)
ok=0;print(r.stderr[:2000])
for l in r.stdout.splitlines():
    j=json.loads(l); n=j['id']
    if 'outs' not in j: print('BAD',n,l[:300]); continue
    o=[x.encode('latin1') for x in j['outs']]
    if o[:2]==exp[n] and not j["cands"]: ok+=1
    else:
        print('DIFF',n,{k:j[k] for k in ('complete','paths','errors','unsupported','steps','wall_s','cands','notes')}); 
        for a,b in zip(o,exp[n]):
            if a!=b: print('  got',a[:300]); print('  exp',b[:300])
print(ok,'of',len(S))
