"""Every session gets symbolic input: where a family wrote its program with constants only, characters of string
literals become arbitrary printable characters and one-digit constants arbitrary digits."""
import re
LINE = re.compile(r'[^\n]*\n?')
def _str_sites(t):
    out = []; pos = 0
    for l in t.split('\n'):
        q = [i for i, c in enumerate(l) if c == '"']
        if len(q) % 2 == 0 and '{' not in l:
            for a, b in zip(q[::2], q[1::2]): out += [pos + i for i in range(a + 1, b) if 32 <= ord(l[i]) < 127]
        pos += len(l) + 1
    return out
DIG = re.compile(r'(?:PRINT |DATA |LET [A-Z]=|(?<![A-Z0-9$)])[A-Z]=|LOG\(|SQR\(|\+|\*)(\d)(?![\d.EeDd])')
def _dig_sites(t, data=True):
    out = []; pos = 0
    for l in t.split('\n'):
        u = l.upper()
        if not re.search(r'\bFOR|STEP|THEN|GOTO|GOSUB|\{', u):
            ins = False; quoted = set()
            for i, c in enumerate(l):
                if c == '"': ins = not ins
                elif ins: quoted.add(i)
            for m in DIG.finditer(l):
                if m.start(1) not in quoted and (data or 'DATA' not in u): out.append(pos + m.start(1))
        pos += len(l) + 1
    return out
def _spread(xs, n): return xs if len(xs) <= n else [xs[len(xs) * k // n] for k in range(n)]
def lift(s, nstr, ndig):
    if s.holes or s.opts.get('interrupt'): return
    parts = [('text', s.text)] + [(k, v) for k, v in s.files.items()]
    if s.text1 is not None:
        a, b = _str_sites(s.text), _str_sites(s.text1)
        if [s.text[i] for i in a] != [s.text1[i] for i in b] or s.files: return
        a = _spread(a, nstr); b = _spread(b, nstr)
        for i in range(len(a)): s.holes['b%d' % i] = ('b', 32, 126, '"'); s.orig['b%d' % i] = ord(s.text[a[i]])
        for f, xs in (('text', a), ('text1', b)):
            t = getattr(s, f)
            for i in sorted(range(len(xs)), key=lambda i: -xs[i]): t = t[:xs[i]] + '{b%d}' % i + t[xs[i] + 1:]
            setattr(s, f, t)
        return
    st = [(k, i) for k, t in parts for i in _str_sites(t)]; dg = [(k, i) for k, t in parts for i in _dig_sites(t)]
    d = dict(parts); sub = []
    for k, i in _spread(st, nstr): sub.append((k, i, ('b', 32, 126, '"')))
    for k, i in _spread(dg, ndig): sub.append((k, i, ('b', 48, 57, '')))
    if not sub: # the name of a variable
        for k, t in parts:
            m = re.search(r'(?<![A-Z0-9$"])([A-Z])(?![A-Z0-9$(\w])', t)
            if m and '{' not in t and not ('IF' in t and '\nRUN\n' in t): sub.append((k, m.start(1), ('b', 65, 90, ''))); break
    for n, (k, i, h) in enumerate(sub): s.holes['b%d' % n] = h; s.orig['b%d' % n] = ord(d[k][i])
    for n in sorted(range(len(sub)), key=lambda n: (sub[n][0], -sub[n][1])):
        k, i, h = sub[n]; d[k] = d[k][:i] + '{b%d}' % n + d[k][i + 1:]
    s.text = d['text']
    for k in s.files: s.files[k] = d[k]
