"""Driver: runs the symbolic engine on a property's sessions, replays every counterexample and a sample of
witnesses on native builds of the same sources, and writes the evidence file."""
import os, sys, json, re, struct, subprocess, tempfile, shutil, time, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LB_REPO', '/repo')
B = os.environ.get('SYMX_B', os.path.join(V, 'symx', 'build'))
JOBS = int(os.environ.get('LB_JOBS', '8'))
ALL = ('Basic', 'Shared', 'Monitor', 'System')

class Ses:
    """One session. text/files may contain {nK} (numeral hole) and {bK} (byte hole)."""
    def __init__(self, id, text='', holes=None, files=None, args=('-q',), text1=None, mode=0, **opts):
        self.id = id; self.text = text; self.text1 = text1; self.files = files or {}; self.args = list(args)
        self.holes = holes or {}; self.mode = mode; self.opts = opts; self.orig = {}

    def enc(self, s):
        out = []
        for part in re.split(r'(\{[nb]\d+\})', s):
            m = re.fullmatch(r'\{([nb])(\d+)\}', part)
            if m:
                k = int(m.group(2))
                out.append('9000000%02d' % k if m.group(1) == 'n' else '\\b%02d' % (k + 50))
            else:
                for c in part.encode('latin1'):
                    out.append('\\n' if c == 10 else '\\x%02x' % c if c < 32 or c > 126 or c == 92 else chr(c))
        return ''.join(out)

    def render(self):
        r = ['session ' + self.id, 'opt mode=%d' % self.mode]
        for k, v in self.opts.items():
            if v is not None: r.append('opt %s=%d' % (k, int(v)))
        for k, h in self.holes.items():
            ty, lo, hi = h[:3]
            ex = h[3] if len(h) > 3 else ''
            r.append('hole %s %d %s %s%s' % (ty, int(k[1:]) + (50 if k[0] == 'b' else 0), repr(lo), repr(hi), ' ' + self.enc(ex) if ex else ''))
        r.append('blob stdin ' + self.enc(self.text))
        if self.text1 is not None: r.append('blob stdin1 ' + self.enc(self.text1))
        for n, d in self.files.items(): r.append('blob file:%s %s' % (n, self.enc(d)))
        for a in self.args: r.append('arg ' + self.enc(a))
        r.append('end')
        return '\n'.join(r) + '\n'

def num_text(bits):
    x = struct.unpack('>d', bytes.fromhex(bits))[0]
    if x == int(x) if x == x and abs(x) < 1e15 else False: return '%d' % int(x) if not (x == 0 and bits[0] == '8') else '-0'
    return '%.17g' % x

def subst(s, model, holes):
    def f(m):
        k = m.group(2); ty = m.group(1)
        if ty == 'n': return num_text(model[k])
        return bytes([model[str(int(k) + 50)] & 255]).decode('latin1')
    return re.sub(r'\{([nb])(\d+)\}', f, s).encode('latin1')

def default_models(s):
    """Fallback assignments for sessions that produced none."""
    r = []
    for pick in (0.0, 0.5, 1.0):
        m = {}
        for k, h in s.holes.items():
            lo, hi = h[1], h[2]
            if h[0] == 'b':
                c = [x for x in range(int(lo), int(hi) + 1) if chr(x) not in (h[3] if len(h) > 3 else '')]
                m[str(int(k[1:]) + 50)] = c[min(len(c) - 1, int(pick * len(c)))]
            else:
                v = lo + (hi - lo) * pick
                if h[0] == 's' and pick == 0: v = -hi
                v = float(int(v)) if h[0] == 'i' else float(int(v * 2)) / 2 if h[0] == 'h' else float(v)
                m[k[1:]] = struct.pack('>d', v).hex()
        r.append(m)
        if not s.holes: break
    if s.orig: r[0] = {str(int(k[1:]) + 50): v for k, v in s.orig.items()}
    if 'interrupt' in s.opts: r = [dict(m, int_at=k, **({'int_d': k // 2} if 'int2' in s.opts else {})) for m in r[:1] for k in (0, 1, 2, 5, 11, 23)]
    return r

# ------------------------------------------------------------------ normalisation (as in the engine)
def norm_err(b):
    ls = b.split(b'\n')
    if ls and ls[-1] == b'': ls.pop()
    r = []; i = 0
    while i < len(ls):
        t = ls[i]
        if t.startswith(b'Runtime error:'):
            if i + 1 < len(ls) and ls[i+1][:1].isdigit(): r.append(b'R ' + ls[i+1]); i += 1
            else: r.append(b'R ')
        elif b'^' in t and not t.strip(b' \t^') and i > 0: r.append(b'E ' + ls[i-1])
        elif t.startswith(b'Cannot open') or t.startswith(b'cannot create'): r.append(b'F')
        elif b'): ' in t and (b'ource line ' in t or b'line number' in t): r.append(b'F')
        i += 1
    return b'\n'.join(r)

def norm_mem(b):
    b = b.replace(b'-nan', b'nan')
    return re.sub(rb'\nmalloc: +(\d+)\nfree: +(\d+)', lambda m: b'\nMEM balanced' if m.group(1) == m.group(2) else b'\nMEM unbalanced', b)

def norm_int(a, b, np):
    if np:
        a = a.replace(b'> ', b''); b = b.replace(b'> ', b''); k = a.count(b'Break\n')
        return a.replace(b'Break\n', b''), b.replace(b'Cannot continue\n', b'', k)
    k = a.count(b'Break\n> ')
    return a.replace(b'Break\n> ', b''), b.replace(b'> Cannot continue\n', b'', k)

# ------------------------------------------------------------------ native builds
class Native:
    def __init__(self, work):
        self.w = work; self.err = {}; self.done = {}
        self.lock = threading.Lock()

    def sources(self):
        r = []
        for d in ALL:
            for dp, dn, fn in os.walk(os.path.join(REPO, d)):
                dn[:] = [x for x in dn if not x.startswith('_')]
                r += [os.path.join(dp, f) for f in fn if f.endswith('.c') and f != 'CuTest.c']
        return sorted(r)

    def inc(self): return ['-I' + os.path.join(REPO, d) for d in ALL]
    WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('rand', 'srand', 'random', 'srandom', 'time', 'system', 'signal', 'sigaction'))]

    def get(self, kind):
        with self.lock:
            if kind not in self.done:
                try: self.done[kind] = getattr(self, 'build_' + kind)()
                except RuntimeError as e: self.done[kind] = e
            if isinstance(self.done[kind], Exception): raise self.done[kind]
            return self.done[kind]

    def par(self, cmds):
        with ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), cmds):
                if r.returncode: raise RuntimeError('native build failed: ' + r.stderr[-2000:])

    def build_san(self):
        d = os.path.join(self.w, 'san'); os.makedirs(d)
        fl = ['-std=gnu11', '-g', '-O1', '-w', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
        objs = []; cmds = []
        for i, s in enumerate(self.sources()):
            o = os.path.join(d, '%d.o' % i); objs.append(o); cmds.append(['gcc'] + fl + self.inc() + ['-c', s, '-o', o])
        self.par(cmds)
        out = os.path.join(d, 'lbasic')
        self.par([['gcc'] + fl + self.WRAP + objs + [os.path.join(V, 'native', 'shim.c'), '-lm', '-o', out]])
        return out

    def build_msan(self):
        """Detects decisions and output that depend on uninitialised memory; used to confirm counterexamples."""
        fl = ['-std=gnu11', '-g', '-O0', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-fsanitize=memory', '-fno-sanitize-recover=all']
        d = os.path.join(self.w, 'msan'); os.makedirs(d); objs = []; cmds = []
        for i, s in enumerate(self.sources() + [os.path.join(V, 'native', 'shim.c')]):
            o = os.path.join(d, '%d.o' % i); objs.append(o); cmds.append(['sh', '-c', 'p=$1; shift; clang -include "$p" "$@" 2>/dev/null || clang "$@"', 'sh', os.path.join(V, 'symx', 'prelude.h')] + fl + self.inc() + ['-c', s, '-o', o])
        self.par(cmds)
        out = os.path.join(d, 'lbasic')
        self.par([['clang'] + fl + self.WRAP + objs + ['-lm', '-o', out]])
        return out

    def build_reuse(self):
        """Addresses of freed blocks are given to the next blocks of their size class (no sanitizers)."""
        fl = ['-std=gnu11', '-g', '-O1', '-w', '-fno-builtin-malloc', '-fno-builtin-free']
        d = os.path.join(self.w, 'reuse'); os.makedirs(d); objs = []; cmds = []
        for i, s in enumerate(self.sources()):
            o = os.path.join(d, '%d.o' % i); objs.append(o); cmds.append(['gcc'] + fl + self.inc() + ['-c', s, '-o', o])
        self.par(cmds)
        out = os.path.join(d, 'lbasic')
        self.par([['gcc', '-DLB_REUSE', '-w'] + self.WRAP + ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup'))] + objs + [os.path.join(V, 'native', 'shim.c'), '-lm', '-o', out]])
        return out

    def build_poll(self):
        """The same sources compiled by way of textual IR, with a call before every read of a variable that the SIGINT handler writes."""
        d = os.path.join(self.w, 'poll'); os.makedirs(d)
        cmds = []; lls = []
        for i, s in enumerate(self.sources()):
            o = os.path.join(d, '%d.ll' % i); lls.append(o)
            fl = ['-std=gnu11', '-O0', '-w', '-Wno-error', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-S', '-emit-llvm'] + self.inc() + ['-c', s, '-o', o]
            cmds.append(['sh', '-c', 'p=$1; shift; clang -include "$p" "$@" 2>/dev/null || clang "$@"', 'sh', os.path.join(V, 'symx', 'prelude.h')] + fl)
        self.par(cmds)
        txt = {f: open(f).read() for f in lls}
        hs = set()
        for t in txt.values(): hs |= set(re.findall(r'call [^\n]*@signal\(i32[^,]*, ptr[^@\n]*@([\w.]+)\)', t))
        for t in txt.values():
            if '@sigaction(' in t: hs |= {h for h in re.findall(r'store ptr @([\w.]+), ptr', t) if re.search(r'\ndefine [^\n]*void @%s\(i32 ' % re.escape(h), t)}
        gs = set(); seen = set(); todo = set(hs)
        while todo:
            h = todo.pop(); seen.add(h)
            for t in txt.values():
                m = re.search(r'\ndefine [^\n]*@%s\([^\n]*\{\n(.*?)\n\}' % re.escape(h), t, re.S)
                if m:
                    gs |= set(re.findall(r'store [^\n]*, ptr @([\w.]+)', m.group(1)))
                    todo |= set(re.findall(r'call [^\n]*@([\w.]+)\(', m.group(1))) - seen
        for f, t in txt.items():
            n = t
            for g in gs: n = re.sub(r'\n( *%\d+ = load [^\n]*, ptr @' + re.escape(g) + r'\b| *store [^\n]*, ptr @' + re.escape(g) + r'\b)', r'\n  call void @lb_poll()\n\1', n)
            n = re.sub(r'\n( *%\d+ = (tail )?call double @sin\()', r'\n  call void @lb_poll_hard()\n\1', n)
            # unnamed temporaries are unaffected: the call is void
            if n != t: n += '\ndeclare void @lb_poll()\ndeclare void @lb_poll_hard()\n'
            open(f, 'w').write(n)
        objs = [f[:-3] + '.o' for f in lls]
        self.par([['clang', '-w', '-c', f, '-o', o] for f, o in zip(lls, objs)])
        out = os.path.join(d, 'lbasic')
        self.par([['clang', '-w'] + self.WRAP + objs + [os.path.join(V, 'native', 'shim.c'), '-lm', '-o', out]])
        return out

    def build_ref(self):
        out = os.path.join(self.w, 'ref.exe')
        self.par([['gcc', '-std=gnu11', '-g', '-O1', '-w', '-DRB_NATIVE'] + self.WRAP + [os.path.join(V, 'ref', 'refbasic.c'), os.path.join(V, 'native', 'shim.c'), '-lm', '-o', out]])
        return out

    def run(self, exe, s, model, stdin, limit=10, keep=None, live=0):
        d = tempfile.mkdtemp(dir=self.w)
        try:
            for n, t in s.files.items():
                with open(os.path.join(d, n), 'wb') as f: f.write(subst(t, model, s.holes))
            env = {'PATH': os.environ.get('PATH', ''), 'TZ': 'UTC', 'LC_ALL': 'C', 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1', 'MSAN_OPTIONS': 'abort_on_error=0:exit_code=77:check_printf=1', 'UBSAN_OPTIONS': 'print_stacktrace=0:abort_on_error=1'}
            if live: env['LB_LIVE'] = '1'
            if 'rand' in model: env['LB_RAND'] = ' '.join('%d %d %d' % tuple(x) for x in model['rand'])
            if 'time' in model: env['LB_TIME'] = ' '.join('%d %d' % tuple(x) for x in model['time'])
            if 'int_at' in model and exe.find('poll') >= 0: env['LB_INT'] = '%d %d %d %d' % (model['int_at'], model.get('int_d', -1), s.opts.get('int_until', 1 << 30), s.opts.get('int_run', 0))
            fo = open(os.path.join(d, '.out'), 'wb'); fe = open(os.path.join(d, '.err'), 'wb'); fi = open(os.path.join(d, '.in'), 'wb+')
            fi.write(subst(stdin, model, s.holes)); fi.seek(0)
            def pre():
                import resource
                resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 24, 1 << 24)); resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 1)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            args = [a if '{' not in a else subst(a, model, s.holes).decode('latin1') for a in s.args]
            p = subprocess.Popen([exe] + args, executable=exe, cwd=d, stdin=fi, stdout=fo, stderr=fe, env=env, preexec_fn=pre)
            hang = False
            try: rc = p.wait(timeout=limit * 3)
            except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = -9; hang = True
            if rc in (-24, -25, -9): hang = True
            fo.close(); fe.close(); fi.close()
            o = open(os.path.join(d, '.out'), 'rb').read(1 << 20); e = open(os.path.join(d, '.err'), 'rb').read(1 << 20)
            return {'out': o, 'err': e, 'rc': rc, 'hang': hang, 'int': os.path.exists(os.path.join(d, '.int'))}
        finally: shutil.rmtree(d, ignore_errors=True)

def abnormal(r):
    if r['hang']: return 'does not terminate'
    if r['rc'] == 99 and b'INTERRUPT IGNORED' in r['err']: return 'the program goes on after an interrupt'
    if r['int'] and r['rc'] == -2: return 'an interrupt while the program runs ends the process'
    if r['int'] and b'Break\n' not in r['out']: return 'an interrupt while the program runs is not reported'
    if r['rc'] < 0: return 'killed by signal %d' % -r['rc']
    if b'AddressSanitizer' in r['err'] or re.search(rb':\d+:\d+: runtime error: ', r['err']): return 'sanitizer report'
    return None

def uninit(nat, s, model):
    r = nat.run(nat.get('msan'), s, model, s.text)
    if b'MemorySanitizer: use-of-uninit' in r['err']:
        return 'uninitialised memory is used: ' + ' < '.join(re.findall(r'#\d+ \S+ in (\w+)', r['err'].decode('latin1'))[:5]), r
    return None, r

def judge(nat, s, model):
    """Run a concrete session natively; return (verdict text or None, real result, expected result)."""
    exe = nat.get('poll' if s.opts.get('interrupt') else 'reuse' if s.opts.get('reuse') else 'san')
    real = nat.run(exe, s, model, s.text)
    a = abnormal(real)
    if s.mode == 1:
        if a: return a + ': ' + real['err'][-400:].decode('latin1'), real, None
        if s.opts.get('leak'):
            m = re.search(rb'\nLB_LIVE (\d+)\n', nat.run(nat.get('reuse'), s, model, s.text, live=1)['err'])
            if m and int(m.group(1)) > 0: return '%d blocks of memory are not freed at the end' % int(m.group(1)), real, None
        if s.opts.get('consume') and (real['rc'] != 0 or b'ZQ9' not in real['out']): return 'the session ended before its input', real, None
        return None, real, None
    if s.mode == 2: exp = nat.run(exe, s, model, s.text1 if s.text1 is not None else s.text)
    else: exp = nat.run(nat.get('ref'), s, model, s.text)
    if exp['hang']: return None, real, exp        # the session itself does not terminate
    if s.mode == 0 and exp['rc'] < 0: return None, real, exp
    if a: return a + ': ' + real['err'][-400:].decode('latin1'), real, exp
    ro, eo = norm_mem(real['out']), norm_mem(exp['out'])
    if s.opts.get('interrupt'): ro, eo = norm_int(ro, eo, s.opts.get('int_np'))
    if ro != eo and not s.opts.get('noout'): return 'output differs', dict(real, out=ro), dict(exp, out=eo)
    if not s.opts.get('nostderr') and norm_err(real['err']) != norm_err(exp['err']): return 'reported errors differ', real, exp
    if not s.opts.get('nocode') and real['rc'] != exp['rc']: return 'exit status differs', real, exp
    return None, real, exp

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    r = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) session=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

MSAN_ALL = os.environ.get('LBV_MSAN') == '1'
# ------------------------------------------------------------------ one property
def check(prop, sessions, tier, seed, assumptions, budget=None, verbose=False):
    t0 = time.time()
    ids = [s.id for s in sessions]
    assert len(set(ids)) == len(ids), 'duplicate session ids: ' + str([i for i in ids if ids.count(i) > 1][:5])
    byid = {s.id: s for s in sessions}
    budget = budget or (500 if tier == 'quick' else 2400)
    for s in sessions:
        s.opts.setdefault('timeout', 50 if tier == 'quick' else 200)
        s.opts.setdefault('smt_ms', 6000 if tier == 'quick' else 30000)
        s.opts.setdefault('maxsteps', 30000000)
    work = tempfile.mkdtemp(prefix='lbv-')
    try:
        return _check(prop, sessions, byid, tier, seed, assumptions, budget, work, t0, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _check(prop, sessions, byid, tier, seed, assumptions, budget, work, t0, verbose):
    subprocess.run(['make', '-s', '-C', os.path.join(V, 'symx'), 'B=' + os.path.relpath(B, os.path.join(V, 'symx'))], check=True, stdout=subprocess.DEVNULL, stderr=None if os.environ.get("SYMX_DBG") else subprocess.DEVNULL)
    nat = Native(work)
    pool = ThreadPoolExecutor(3)
    pre = [pool.submit(nat.get, 'ref'), pool.submit(nat.get, 'san')]
    sut = os.path.join(work, 'sut.bc')
    subprocess.run([os.path.join(V, 'symx', 'build_sut.sh'), sut, REPO], check=True)
    sf = os.path.join(work, 'sessions'); of = os.path.join(work, 'results')
    open(sf, 'w').write(''.join(s.render() for s in sessions))
    p = subprocess.Popen([os.path.join(B, 'symx'), '-j', str(JOBS), '-wit', '3' if tier == 'quick' else '6', '-o', of, '-s', sf, sut] + [os.path.join(B, x) for x in ('libc.bc', 'harness.bc', 'refbasic.bc')], start_new_session=True, stderr=None if os.environ.get("SYMX_DBG") else subprocess.DEVNULL)
    try: p.wait(timeout=budget)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
    res = {}
    for l in open(of, errors='replace') if os.path.exists(of) else []:
        try: j = json.loads(l); res[j['id']] = j
        except Exception: pass
    eng_s = time.time() - t0
    for f in pre: f.result()
    # native replay: every counterexample candidate, plus witnesses of explored paths
    jobs = []
    for s in sessions:
        j = res.get(s.id)
        cands = j.get('cands', []) if j else []
        for c in cands[:6]: jobs.append((s, c['model'], 'candidate', c, None))
        wit = j.get('wit', []) if j else []
        for w in wit: jobs.append((s, w['model'], 'witness', None, w))
        if not wit or not j or not j.get('complete') or j.get('unsupported') or j.get('crashed') or j.get('limit'):
            for m in default_models(s): jobs.append((s, m, 'default', None, None))
    for k, o in (('poll', 'interrupt'), ('reuse', 'reuse')):
        if any(s.opts.get(o) for s, *_ in jobs): nat.get(k)
    def one(job):
        s, m, kind, c, w = job
        try: r = judge(nat, s, m)
        except KeyError: return job, (None, None, None)
        if r[0] is None and (kind == 'candidate' and c['kind'] != 'steps' or MSAN_ALL) and not s.opts.get('interrupt') and r[1] is not None and r[1]['rc'] >= 0:
            try: v, real = uninit(nat, s, m)
            except RuntimeError: v = None
            if v: r = (v, real, r[2])
        return job, r
    bad = []; repro = unrepro = 0; wok = wdiff = 0; wdiffs = []; unr = []
    with ThreadPoolExecutor(JOBS) as ex:
        for job, (v, real, exp) in ex.map(one, jobs):
            s, m, kind, c, w = job
            if kind == 'candidate':
                if v: repro += 1
                else:
                    unrepro += 1; unr.append({'session': s.id, 'kind': c['kind'], 'where': c['where'], 'detail': c['detail'][:1500], 'model': m})
            if kind == 'witness' and real is not None:
                pred = [x.encode('latin1', 'replace') for x in (w['out'], w['err'])]
                for k in s.holes:
                    if k[0] == 'n': pred = [x.replace(b'9000000%02d' % int(k[1:]), num_text(m[k[1:]]).encode()) for x in pred]
                if (norm_mem(pred[0]), norm_err(pred[1])) == (norm_mem(real['out']), norm_err(real['err'])) or v: wok += 1
                else: wdiff += 1; wdiffs.append({'session': s.id, 'model': m, 'predicted': [x.decode('latin1')[:1200] for x in pred], 'native': [real['out'].decode('latin1')[:1200], real['err'].decode('latin1')[:600]]})
            if v: bad.append((s, m, v, real, exp, c, kind))
    # report
    known = known_findings(prop); viol = []; seen = set(); kf = set()
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'): os.unlink(os.path.join(rdir, f))
    for s, m, v, real, exp, c, kind in bad:
        if s.id in seen: continue
        seen.add(s.id)
        k = [w for i, w in known if i == s.id]
        if k: kf.add(k[0]); continue
        path = os.path.join(rdir, '%s-%s.json' % (prop, re.sub(r'[^\w.-]', '_', s.id)))
        json.dump({'property': prop, 'session': s.id, 'verdict': v, 'decided_by': 'solver counterexample, reproduced natively' if c else 'native replay of a %s of the symbolic session' % kind,
                   'solver': c and {'kind': c['kind'], 'where': c['where'], 'detail': c['detail']}, 'model': m, 'args': s.args,
                   'stdin': subst(s.text, m, s.holes).decode('latin1'), 'files': {n: subst(t, m, s.holes).decode('latin1') for n, t in s.files.items()},
                   'stdin1': subst(s.text1, m, s.holes).decode('latin1') if s.text1 is not None else None,
                   'real': real and {'out': real['out'].decode('latin1'), 'err': real['err'].decode('latin1'), 'rc': real['rc'], 'hang': real['hang']},
                   'expected': exp and {'out': exp['out'].decode('latin1'), 'err': exp['err'].decode('latin1'), 'rc': exp['rc']}}, open(path, 'w'), indent=1)
        viol.append((s.id, v, path))
    for k in sorted(kf): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for i, v, path in viol: print('VIOLATION property=%s replay=%s   [%s: %s]' % (prop, path, i, v.split('\n')[0][:100]))
    # evidence
    def tot(k): return sum(j.get(k, 0) or 0 for j in res.values())
    funcs = {}
    for j in res.values():
        for f, (c, n) in j.get('funcs', {}).items(): funcs[f] = (max(funcs.get(f, (0, 0))[0], c), n)
    inc = sorted(s.id for s in sessions if s.id not in res or not res[s.id].get('complete') or res[s.id].get('unsupported') or res[s.id].get('unknown') or res[s.id].get('limit'))
    vac = sorted(s.id for s in sessions if s.mode == 0 and s.id in res and not res[s.id].get('reach', {}).get('compared'))
    holes = sum(len(s.holes) + (1 if s.opts.get('interrupt') else 0) for s in sessions)
    cc = [j.get('cover', -2) for j in res.values()]
    cert = {'proved_by_z3': cc.count(1), 'no_branching': cc.count(2), 'refuted': cc.count(0), 'no_answer_in_time': cc.count(-1), 'not_asked_incomplete': cc.count(-2)}
    samples = []
    for s in sessions[:: max(1, len(sessions) // 4)][:4]:
        j = res.get(s.id, {})
        samples.append({'session': s.id, 'input': s.text[:600], 'holes': {k: list(h) for k, h in s.holes.items()}, 'paths': j.get('paths'), 'queries': j.get('queries'), 'witness': (j.get('wit') or [None])[0]})
    cov = {'explanation': 'Bounded symbolic execution (LLVM IR of the working tree, Z3): every session below is executed for all values of its holes, next to the reference semantics on the same symbolic input; states = symbolic paths run to their end, transitions = IR instructions executed symbolically.',
           'states': tot('paths'), 'transitions': tot('steps'), 'traces_validated_against_impl': wok + repro, 'samples': samples,
           'sessions': len(sessions), 'symbolic_holes': holes, 'forks': tot('forks'), 'comparisons': tot('compares'), 'queries_discharged': tot('sat') + tot('unsat'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'finite_domain_branch_decisions': tot('finite'), 'solver_unknown': tot('unknown'),
           'solver_s': round(sum(j.get('solver_s', 0) for j in res.values()), 2), 'engine_wall_s': round(eng_s, 1),
           'path_coverage_certificates': dict(cert, meaning='per session: Z3 refutes "a value of the holes satisfies none of the explored path conditions"'),
           'sessions_not_exhausted': inc, 'sessions_without_comparison': vac, 'candidates_reproduced': repro, 'candidates_not_reproduced': unr[:10], 'witness_encoding_differences': wdiffs[:5], 'native_runs': len(jobs),
           'functions_encoded': {f: '%d/%d instructions reached' % cn for f, cn in sorted(funcs.items())},
           'exhaustive': not inc}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d sessions, %d paths, %d queries, %d incomplete, cover %s, %d+%d witnesses ok/differ, %d candidates not reproduced, %d violations, %.1fs' % (prop, len(sessions), cov['states'], cov['queries_discharged'], len(inc), '/'.join(str(v) for v in cert.values()), wok, wdiff, unrepro, len(viol), ev['wall_s']))
    if verbose:
        for i in inc[:40]:
            j = res.get(i, {}); print('  incomplete', i, {k: j.get(k) for k in ('complete', 'crashed', 'paths', 'unsupported', 'unknown', 'limit', 'wall_s', 'left')}, j.get('notes', [])[:2])
        if vac: print('  no comparison reached:', vac[:20])
        for w in wdiffs[:4]: print('  WDIFF', json.dumps(w)[:1800])
        for u in unr[:6]: print('  UNREPRODUCED', json.dumps(u)[:1800])
        slow = sorted(res.values(), key=lambda j: -j.get('wall_s', 0))[:8]
        print('  slowest', [(j['id'], j.get('wall_s'), j.get('paths')) for j in slow])
    return 1 if viol else 0
