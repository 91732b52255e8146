"""Functions of /repo that no planted bug touches (changed lines of seeded/*/patch.diff, by function)."""
import re, glob, os, collections, tempfile, subprocess
R = os.environ.get('LB_REPO', '/repo'); fn = {}
for f in glob.glob(R + '/*/*.c'):
    if '_build' in f: continue
    cur = None; m = {}
    for i, l in enumerate(open(f, errors='replace').read().split('\n'), 1):
        q = re.match(r'^[A-Za-z_].*?\b(\w+)\([^;]*\)\s*\{', l)
        if q: cur = q.group(1)
        m[i] = cur
        if l == '}': cur = None
    fn[os.path.relpath(f, R)] = m
cnt = collections.Counter()
for p in glob.glob('/verif/seeded/*/patch.diff'):
    f = None; cur = None
    for l in open(p, errors='replace'):
        q = re.match(r'@@ [^@]*@@(.*)', l)
        if l.startswith('--- a/'): f = l[6:].strip()
        elif q:
            k = re.search(r'\b(\w+)\(', q.group(1)); cur = k.group(1) if k else None
        elif l[:1] in '-+' and not l.startswith('+++') and f in fn: cnt[(f, cur)] += 1
        else:
            k = re.match(r'^ [A-Za-z_].*?\b(\w+)\([^;]*\)\s*\{', l)
            if k: cur = k.group(1)
for f in sorted(fn):
    s = sorted({v for v in fn[f].values() if v and not v.startswith(('test', 'Cu')) and 'suite' not in v})
    if 'CuTest' in f: continue
    print(f, 'untouched:', ' '.join(x for x in s if not cnt[(f, x)]))
