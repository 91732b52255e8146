"""Generated session shapes: deterministic pseudo-random programs over the whole language, each with symbolic
holes that the solver ranges over.  The seed fixes the shapes only; every value of the holes is decided."""
import random
from .gen import *

NV = ['A', 'B', 'C', 'TOTAL']; SV = ['A$', 'B$', 'NAME$']; LV = ['I', 'J', 'K']
STRS = ['"{b1}"', '"ab"', '""', '"Hello"', '"x{b1}y"', '"12"', '" 7"', '"{b2}{b1}"', '"3.5E1"', '"zz,z"']
NUMS = ['{n1}', '{n2}', '0', '1', '2', '3', '.5', '10', '-1', '7', '1E2', '100000', '1E-3']
DATA = ['1', '-2', '3.5', 'abc', '"q,r"', ' x y ', '4E1', '"{b1}"', '{b2}', '"12"', '']

def width(l): return len(l.replace('{n1}', '9' * 9).replace('{n2}', '9' * 9).replace('{b1}', 'b').replace('{b2}', 'b'))

class Mix:
    """w: weights of the statement kinds; err: probability of deliberately faulty constructs."""
    def __init__(self, seed, w=None, err=.06, depth=2, nv=NV, sv=SV, cmds=None):
        self.r = random.Random(seed); self.err = err; self.depth = depth; self.nv = nv; self.sv = sv; self.cw = cmds or {}
        self.w = dict(let=8, slet=5, print=10, iff=4, goto=1.5, gosub=2, on=1.5, loop=3, dim=1.5, aset=3, deff=1.5, read=2, restore=.7, data=1.2, input=.8, linput=.5, stop=.4, end=.3, rem=.7, clear=.15, rand=.3, cls=.1)
        if w: self.w.update(w)
        self.loops = []; self.reply = []; self.subs = []; self.fns = ['FNA', 'FNB']; self.sfns = ['FNC$']
    def ch(self, *x): return self.r.choice(x)
    def p(self, q): return self.r.random() < q
    # ---- expressions
    def num(self, d=None):
        r = self.r; d = self.depth if d is None else d
        if d <= 0 or self.p(.3):
            return self.ch(self.ch(*NUMS), self.ch(*self.nv), self.ch(*self.nv), self.ch(*LV), '{n1}', '{n2}')
        k = r.randrange(16)
        if k < 5: return '%s%s%s' % (self.num(d - 1), self.ch('+', '-', '*', '+', '-', '/'), self.num(d - 1))
        if k == 5: return '(%s)' % self.num(d - 1)
        if k == 6: return '(%s)%s(%s)' % (self.num(d - 1), self.ch('+', '-', '*', '^'), self.ch('1', '2', '0', '{n1}'))
        if k == 7: return '%s(%s)' % (self.ch('ABS', 'SGN', 'INT', 'ABS', 'SQR'), self.num(d - 1))
        if k == 8: return '%s(%s)' % (self.ch('LEN', 'ASC', 'VAL', 'LEN'), self.str(d - 1))
        if k == 9: return 'X(%s)' % self.idx()
        if k == 10: return 'Y(%s,%s)' % (self.idx(), self.idx())
        if k == 11: return '%s(%s)' % (self.ch(*self.fns), self.num(d - 1))
        if k == 12: return '-%s' % self.num(0)
        if k == 13: return '(%s)' % self.cond(d - 1)
        if k == 14 and self.p(self.err * .5): return self.str(0)          # type error
        return self.ch(*self.nv)
    def idx(self): return self.ch('1', '2', '0', '3', '{n1}', '{n2}', 'ABS({n1})', 'I', 'A', '{n1}+1', 'INT(A/2)', '10' if not self.p(self.err) else '11', 'LEN(A$)')
    def str(self, d=None):
        d = self.depth if d is None else d
        if d <= 0 or self.p(.35): return self.ch(self.ch(*STRS), self.ch(*self.sv), self.ch(*self.sv))
        k = self.r.randrange(9)
        if k < 2: return '%s+%s' % (self.str(d - 1), self.str(d - 1))
        if k == 2: return 'LEFT$(%s,%s)' % (self.str(d - 1), self.idx())
        if k == 3: return 'RIGHT$(%s,%s)' % (self.str(d - 1), self.idx())
        if k == 4: return 'MID$(%s,%s,%s)' % (self.str(d - 1) + self.ch('', '+"wxyz"'), self.ch('1', '2', '1', self.idx()), self.idx())
        if k == 5: return 'CHR$(%s)' % self.ch('65', '66+ABS({n1})', 'ASC(%s)' % self.str(0), '48+{n2}')
        if k == 6: return 'STR$(%s)' % self.ch('{n1}', '{n2}*2', '{n1}-{n2}', '{n1}/2', '12')
        if k == 7: return 'S$(%s)' % self.idx()
        return '%s(%s)' % (self.ch(*self.sfns), self.num(0)) if self.p(.5) else self.ch(*self.sv)
    def cond(self, d=1):
        k = self.r.randrange(8)
        if k < 4: return '%s%s%s' % (self.num(d - 1), self.ch('=', '<', '>', '<=', '>=', '<>'), self.num(d - 1))
        if k == 4: return '%s%s%s' % (self.str(d - 1), self.ch('=', '<', '>', '<=', '>=', '<>'), self.str(d - 1))
        if k == 5: return '%s %s %s' % (self.cond(d - 1), self.ch('AND', 'OR'), self.cond(d - 1)) if d > 0 else 'A'
        if k == 6: return 'NOT %s' % self.cond(d - 1) if d > 0 else '{n1}'
        return self.num(d - 1)
    # ---- statements
    def item(self): return self.ch(self.num(1), self.str(1), '"%s"' % self.ch('a', 'bc', 'def gh', '{b1}'), self.ch(*self.nv), self.ch(*self.sv), 'TAB(%s)' % self.ch('5', '{n1}+3', '12', '{n2}'), 'SPC(%s)' % self.ch('2', '{n1}', '0'))
    def stmt(self, fwd, depth=0):
        """fwd(): a line number that may be jumped to"""
        kinds = list(self.w); k = self.r.choices(kinds, [self.w[x] for x in kinds])[0]
        return getattr(self, 's_' + k)(fwd, depth)
    def s_let(self, f, d): return '%s%s=%s' % ('LET ' if self.p(.2) else '', self.ch(*self.nv), self.num())
    def s_slet(self, f, d): return '%s%s=%s' % ('LET ' if self.p(.1) else '', self.ch(*self.sv), self.str())
    def s_print(self, f, d):
        n = self.r.choice([0, 1, 1, 2, 2, 3, 4]); s = self.ch('PRINT ', 'PRINT ', '?')
        for i in range(n):
            t = self.item()
            if s[-1] == ' ' and i and t[0] in '{-': s = s[:-1] + ';'       # (two numbers side by side would be a subtraction for a negative value)
            s += t + (self.ch(';', ',', ';', ' ') if i < n - 1 else self.ch('', '', '', ';', ','))
        return s.rstrip(' ') if n == 0 else s
    def s_iff(self, f, d):
        if d > 1: return self.s_print(f, d)
        s = 'IF %s THEN ' % self.cond()
        k = self.r.randrange(5)
        if k == 0: return s + '%d' % f()
        a = ':'.join(self.stmt(f, d + 1) for _ in range(self.ch(1, 1, 2)))
        if k < 3 or a.split(':')[-1].lstrip().startswith(('REM', 'DATA')): return s + a
        return s + a + ' ELSE ' + (':'.join(self.stmt(f, d + 1) for _ in range(self.ch(1, 2))) if k == 3 else self.stmt(f, d + 1))
    def s_goto(self, f, d): return 'GOTO %d' % f()
    def s_gosub(self, f, d): return 'GOSUB %s' % self.ch('900', '910', '920')
    def s_on(self, f, d):
        return 'ON %s GOTO %s' % (self.num(1), ','.join(str(f()) for _ in range(self.ch(1, 2, 3)))) if self.p(.4) else 'ON %s GOSUB %s' % (self.num(1), ','.join(self.ch('900', '910', '920') for _ in range(self.ch(1, 2, 3))))
    def s_loop(self, f, d):
        v = self.r.choice(LV)
        if d or self.p(.45):
            body = ':'.join(self.ch(self.s_print, self.s_let, self.s_slet, self.s_aset, self.s_gosub, self.s_read)(f, d + 1) for _ in range(self.ch(1, 2)))
            return 'FOR %s=%s:%s:NEXT%s' % (v, self.rng(), body, self.ch('', ' ' + v))
        if len(self.loops) < 2 and self.p(.6):
            self.loops.append(v); return 'FOR %s=%s' % (v, self.rng())
        if self.loops:
            v = self.loops.pop(); return 'NEXT %s' % (v if self.p(.7) else '')
        return 'NEXT' if self.p(self.err) else self.s_print(f, d)
    def rng(self): return self.ch('1 TO 2', '1 TO 3', '{n1} TO 2', '0 TO {n2}', '2 TO 0 STEP -1', '1 TO 2 STEP .5', '{n1} TO {n2}', '3 TO {n1} STEP -1', '1 TO A' if 0 else '1 TO 2')
    def s_dim(self, f, d): return 'DIM ' + self.ch('X(5)', 'X(12)', 'Y(2,3)', 'S$(4)', 'X(ABS({n1})+2)', 'X(3),S$(2)', 'Y(10,12)', 'S$(11),Y(3,3)')
    def s_aset(self, f, d): return self.ch('X(%s)=%s' % (self.idx(), self.num(1)), 'Y(%s,%s)=%s' % (self.idx(), self.idx(), self.num(1)), 'S$(%s)=%s' % (self.idx(), self.str(1)))
    def s_deff(self, f, d): return self.ch('DEF FNA(X)=%s', 'DEF FNB(Z)=%s') % self.ch('X+1', 'A*X', 'X*X-{n1}', 'Z+X', '{n2}-Z', 'FNA(X)' if 0 else 'X+Z') if self.p(.7) else 'DEF FNC$(X)=%s' % self.ch('STR$({n1})+"!"', 'LEFT$("abcd",ABS({n1}))', 'A$+"-"', 'CHR$(65+ABS({n2}))')
    def s_read(self, f, d): return 'READ ' + ','.join(self.ch(*self.nv + SV + SV + ['X(1)', 'S$(2)', 'X({n1})']) for _ in range(self.ch(1, 1, 2)))
    def s_restore(self, f, d): return self.ch('RESTORE', 'RESTORE %d' % f(), 'RESTORE 950')
    def s_data(self, f, d): return 'DATA ' + ','.join(self.ch(*DATA) for _ in range(self.ch(1, 2, 3)))
    def s_input(self, f, d):
        n = self.ch(1, 1, 2); vs = [self.ch(*self.nv + SV) for _ in range(n)]
        return 'INPUT %s%s' % (self.ch('', '', '"q{b1}",', '"?";' if 0 else ''), ','.join(vs))
    def s_linput(self, f, d): return 'LINE INPUT %s%s' % (self.ch('', '"p",'), self.ch(*self.sv))
    def s_stop(self, f, d): return 'STOP'
    def s_end(self, f, d): return 'IF %s THEN END' % self.cond()
    def s_rem(self, f, d): return 'REM %s' % self.ch('x', 'a:b', '', '"', '{b1}') if d == 0 else self.s_print(f, d)
    def s_clear(self, f, d): return 'CLEAR' if d == 0 and not self.loops else self.s_print(f, d)
    def s_rand(self, f, d): return self.ch('RANDOMIZE {n1}', 'RANDOMIZE 5')
    def s_cls(self, f, d): return 'CLS'
    # ---- programs
    def program(self, n):
        lines = []; nums = [10 * (i + 1) for i in range(n)]
        for i, ln in enumerate(nums):
            def fwd(): return self.r.choice([x for x in nums if x > ln] + [890]) if not self.p(self.err * .5) else self.ch(995, ln + 5)
            lines.append('%d %s' % (ln, ':'.join(self.stmt(fwd) for _ in range(self.ch(1, 1, 2, 3)))))
        if self.loops and not self.p(self.err):
            lines.append('%d %s' % (nums[-1] + 1, ':'.join('NEXT' for _ in self.loops)))
        self.loops = []
        f = lambda: 970
        lines.append('890 PRINT "END"' + self.ch('', ':END', ':STOP'))
        if not self.p(self.err): lines.append('891 END')
        lines += ['900 %s:RETURN' % self.stmt(f, 2), '910 PRINT "S";:IF %s THEN RETURN' % self.cond(), '911 %s:RETURN' % self.stmt(f, 2), '920 %s:GOSUB 900' % self.stmt(f, 2), '921 RETURN', '950 DATA %s' % ','.join(self.ch(*DATA) for _ in range(6)), '960 DATA 1,2,3,"d"', '970 PRINT "X":END']
        return [l for l in lines if width(l) < 112]
    def replies(self, n): return ''.join(self.ch('5', 'abc', '1,2', '"x",y', '{b2}', ' 7', '3,{b1}', '') + '\n' for _ in range(n))
    CW = dict(show=3, cont=2, run=2, list=1, renum=1, renum2=.7, arr=1, repl=1.5, delete=1, goto=1, assign=1.5, gosub=.7, listn=.7, stmt=5, stmts=2, bad=.6, save=.4, load=.3, saveload=.4, new=.1, clear=.3, restore=.3, addline=1)
    def commands(self, n):
        w = dict(self.CW, **self.cw); r = []; ln = lambda: 10 * self.ch(1, 2, 3, 4, 5)
        for _ in range(n):
            k = self.r.choices(list(w), list(w.values()))[0]; f = lambda: 890
            r += {'show': lambda: ['PRINT %s;%s;%s' % (self.ch(*self.nv), self.ch(*LV), self.ch(*self.sv))], 'cont': lambda: ['CONT'], 'run': lambda: ['RUN'], 'list': lambda: ['LIST'], 'renum': lambda: ['RENUM'],
                  'renum2': lambda: ['RENUM %s' % self.ch('100,20,5', '1000', '5,1,1', '15,20', '7,1,7', '100,900,10', '1000,890,3')], 'arr': lambda: ['PRINT X(1);S$(2);Y(1,{n2})'], 'repl': lambda: ['%d %s' % (ln(), self.stmt(f, 1))], 'delete': lambda: ['%d' % ln()],
                  'goto': lambda: ['GOTO %s' % self.ch('890', str(ln()), '{b2}0')], 'assign': lambda: ['A={n1}:A$="{b1}"'], 'gosub': lambda: ['GOSUB %s' % self.ch('900', '910')], 'listn': lambda: ['LIST %s' % self.ch('20', '10', '890', '20-40' if 0 else '25')],
                  'stmt': lambda: [self.stmt(f, 1)], 'stmts': lambda: [self.stmt(f, 1) + ':' + self.stmt(f, 1)], 'bad': lambda: [self.ch('PRINT 1+', 'A=="', 'FOO', 'GOTO', 'IF 1', 'A$=1', '100000000000 PRINT', 'LOAD', 'RENUM x', 'PRINT )', 'NEXT Q', 'RETURN', '20 PRINT ((', 'LOAD "nofile"')],
                  'save': lambda: ['SAVE "t.bas"'], 'load': lambda: ['LOAD "t.bas"'], 'saveload': lambda: ['SAVE "t.bas"', self.ch('NEW', '20', '5 PRINT 5'), 'LOAD "t.bas"'], 'new': lambda: ['NEW'], 'clear': lambda: ['CLEAR'], 'restore': lambda: ['RESTORE %d' % ln()],
                  'addline': lambda: ['%d %s' % (ln() + 5, self.stmt(f, 1))]}[k]()
        return [x for x in r if width(x) < 112]

HOLES = {'n1': I(-1, 3), 'n2': I(0, 2), 'b1': ('b', 65, 67, ''), 'b2': ('b', 48, 50, '')}
def used(t): return {k: HOLES[k] for k in HOLES if '{%s}' % k in t}

def mix(g, tag, count, w=None, err=.06, lines=(3, 10), cmds=3, holes=None, base=0, opts=('-q',), cw=None, depth=2, nv=NV, sv=SV, batch=.12, **kw):
    """count generated sessions whose statement mix is weighted by w."""
    for i in range(count):
        m = Mix('%s/%s/%d/%d' % (g.prop, tag, base, i), w, err, depth, nv, sv, cw)
        pr = m.program(m.r.randint(*lines))
        cs = m.commands(m.r.randint(0, cmds))
        n = sum(l.count('INPUT') for l in pr) * 2
        if m.p(.25): m.r.shuffle(pr)          # entered out of order
        fs = {}; args = list(opts); rep = m.replies(n) if n else ''
        if m.p(batch):                        # run as a file
            fs = {'p.bas': ''.join(l + '\n' for l in pr)}; args.append('p.bas'); t = rep
        elif m.p(.15):                        # loaded from a file
            fs = {'p.bas': ''.join(l + '\n' for l in pr)}; t = 'LOAD "p.bas"\nRUN\n' + rep + ''.join(l + '\n' for l in cs) + 'BYE\n'
        else: t = ''.join(l + '\n' for l in pr) + 'RUN\n' + rep + ''.join(l + '\n' for l in cs) + 'PRINT %s\nBYE\n' % ';'.join(list(nv[:4]) + ['I'] + list(sv[:2]))
        h = used(t + ''.join(fs.values())); h.update({k: v for k, v in (holes or {}).items() if k in h})
        g.add('%s%03d' % (tag, i), t, h, files=fs, args=args, maxpaths=6000, **kw)

NAMES = ['A', 'a', 'AB', 'Ab', 'ALPHA', 'Alpha', 'ALPHAS', 'A1', 'a1', 'T', 'TOTAL', 'total', 'TOTALS', 'B', 'COUNTER', 'counter', 'COUNTERS', 'X', 'Y', 'TOX', 'IFX', 'xFOR', 'LANDS', 'PRINTER', 'Q9', 'q9']
SNAMES = ['A$', 'a$', 'AB$', 'ALPHA$', 'alpha$', 'T$', 'TOTAL$', 'X$', 'S$', 's$', 'COUNTER$', 'NOTE$', 'ORB$']
FLAVOUR = {
    'C01': dict(w=dict(let=25, print=20, slet=3, input=0, linput=0, read=.5), depth=4, holes={'n1': I(-3, 3), 'n2': I(-1, 2)}),
    'C02': dict(w=dict(slet=25, print=15, aset=3, let=5, read=1), depth=3),
    'C03': dict(w=dict(let=12, slet=12, print=10, read=4, data=3, input=2)),
    'C04': dict(w=dict(dim=8, aset=20, print=10, clear=.4), err=.12),
    'C05': dict(w=dict(let=20, slet=12, print=12, deff=3), nv=NAMES, sv=SNAMES),
    'C06': dict(w=dict(loop=20, print=8, let=4, goto=2)),
    'C07': dict(w=dict(goto=8, gosub=12, on=12, loop=4, iff=6)),
    'C08': dict(w=dict(iff=25, loop=4, gosub=3, goto=3)),
    'C09': dict(w=dict(print=30, cls=1, input=1), holes={'n1': I(-2, 9), 'n2': I(0, 4)}),
    'C10': dict(w=dict(input=14, linput=8, print=8, aset=3)),
    'C11': dict(w=dict(read=18, restore=7, data=8, loop=4, print=8)),
    'C12': dict(w=dict(deff=14, let=12, print=12), nv=['A', 'B', 'X', 'Z'], depth=3),
    'C13': dict(w=dict(), cmds=14, batch=0, cw=dict(repl=8, delete=8, list=6, listn=5, addline=8, run=4, bad=2)),
    'C14': dict(w=dict(rem=3, data=3), cmds=8, batch=0, cw=dict(save=3, load=3, saveload=8, list=5, run=4, repl=3)),
    'C15': dict(w=dict(goto=6, gosub=5, on=6, iff=8, restore=4, rem=2, data=2), cmds=8, batch=0, cw=dict(renum=8, renum2=12, list=8, run=4, cont=.5)),
    'C16': dict(w=dict(stop=9, loop=6, gosub=5, iff=5), cmds=8, batch=0, cw=dict(cont=14, show=6, assign=3)),
    'C18': dict(w=dict(), err=.3, cmds=10, batch=0, cw=dict(bad=8, stmt=8, run=3, show=3)),
    'C20': dict(w=dict()),
    'C21': dict(w=dict(), err=.35),
    'C22': dict(w=dict(rand=8, let=10)),
    'C23': dict(w=dict(clear=2, dim=3, deff=3, aset=4), cmds=10, batch=0, cw=dict(run=10, clear=4, new=1, assign=4, goto=3)),
    'C24': dict(w=dict(), batch=1),
    'C19': dict(w=dict(), err=.3, cmds=10),
    'C25': dict(w=dict(dim=4, aset=6, slet=8, input=2, deff=3, clear=.6), err=.12, cmds=8),
}
def default(g):
    f = FLAVOUR.get(g.prop)
    if not f: return
    n = 600 if g.deep else 150
    kw = dict(f)
    if g.prop == 'C24':
        for j, o in enumerate((['-q'], [], ['-m', '-q'], ['-t', '-q'], ['-f', '-q'], ['-l', '-q'], ['-n', '-q'], ['-p', '-q'], ['-q', '-k'], ['-t', '-f', '-m'])):
            mix(g, 'mix%d-' % j, n // 8, opts=o, **kw)
        return
    if g.prop == 'C25':
        mix(g, 'mix', n, opts=('-q', '-m'), **kw)
        return
    mix(g, 'mix', n, **kw)
