"""C19-C21: robustness against arbitrary text, spelling variants, rejection of ill-formed programs."""
import re
from .gen import *
from .s_run import SYN, ERRS

# one or more statements of every kind; used as line 20 of CTX
STM = ['PRINT A;"x",A$', 'PRINT TAB(5)"q";SPC(2);', 'LET A=B(2)+1', 'A$=LEFT$("abc",2)', 'A=ABS(-2)*(3+4)', 'B(1)=A^2', 'A$(1)=MID$(A$,1,1)',
       'IF A>2 THEN 30', 'IF A=3 THEN PRINT 1 ELSE PRINT 2', 'IF A$="xy" THEN A=1:PRINT A', 'FOR I=1 TO 2 STEP 1', 'FOR I=A TO 1:NEXT I', 'FOR I=1 TO 2:FOR J=1 TO 2:NEXT J,I',
       'GOSUB 50', 'GOTO 30', 'ON A GOTO 30,30,40', 'ON 2 GOSUB 50,50', 'READ A,A$', 'DATA 5,"q",r', 'RESTORE 40', 'RESTORE', 'DIM C(3),D$(2,4)', 'DIM B(A)', 'DEF FNB(X)=X*2', 'DEF FNC$(X)=CHR$(X+65)+"z"', 'DEF FNC$(X$)=X$+"z"',
       'PRINT FNA(2)', 'RANDOMIZE 5', 'PRINT RND(1)<1', 'REM hello', 'STOP', 'END', 'CLEAR', 'CLS', 'RETURN', 'NEXT', 'PRINT NOT A AND 3 OR 1', 'PRINT A<>B(2);A>=3;A<=3', 'PRINT CHR$(65);ASC("A")', 'PRINT VAL("12");STR$(5)',
       'PRINT INT(2.5E1)', '?A', 'A=1:B=2:PRINT A+B', 'PRINT -A;1.5;.25', 'PRINT "a"+"b"="ab"', 'PRINT LEN(A$)', 'PRINT RIGHT$("abc",A-1)', 'PRINT TIME$<""', 'A=SGN(A)+SQR(4)+LOG(1)', 'PRINT A,,A$;:PRINT']
INP = [('INPUT A', '5\n6\n'), ('INPUT "p";A$,A', 'x,5\ny,6\n'), ('LINE INPUT A$', 'a b,c\nz\n'), ('INPUT B(1),A$(2)', '4,q\n5,r\n')]
def ctx(s, reps=''): return '10 K=K+1:IF K>3 THEN END\n15 A=3:A$="xy":B(2)=4:DEF FNA(X)=X+1\n20 %s\n30 PRINT "e"\n35 END\n40 DATA 1,x,2\n50 RETURN\nRUN\n%s' % (s, reps)
TAIL = 'PRINT A;A$;B(2)\nPRINT "K"\nBYE\n'
PR = Bt(32, 126)

def c19(g):
    deep = g.deep
    forms = [(s, '') for s in STM] + INP
    n = 0
    PR = Bt(32, 126)
    for si, (s, rep) in enumerate(forms):
        for p in range(len(s) + 1):
            n += 1
            if p < len(s) and s[p] == ' ' and not deep: continue
            PR = Bt(32, 126, '2') if ' 30' in s else Bt(32, 126)   # not a jump to itself
            # any character in place of one; any character inserted
            if p < len(s): g.add('sub%02d' % si, ctx(s[:p] + '{b1}' + s[p+1:], rep) + TAIL, {'b1': PR}, maxsteps=2000000)
            if deep or (si + p) % 2 == 0: g.add('ins%02d' % si, ctx(s[:p] + '{b1}' + s[p:], rep) + TAIL, {'b1': PR}, maxsteps=2000000)
            if deep or (si + p) % 5 == 0:
                t = s[:p] + '{b1}{b2}' + s[p+1:]
                g.add('two%02d' % si, 'A=3:A$="xy":B(2)=4:DEF FNA(X)=X+1\n20 END\n30 END\n40 DATA 1,x,2\n50 RETURN\n' + t + '\n' + rep + TAIL, {'b1': PR, 'b2': PR if deep else pick('$(),:;"=A1. ')}, maxsteps=2000000)
        # the statement cut short after any of its characters, as a program line and at the prompt
        for p in range(1, len(s)):
            if deep or (si + p) % 3 == 0: g.add('cut%02d' % si, 'A$="xy"\n' + s[:p] + '{b1}\n' + rep + '10 PRINT "p"\n20 ' + s[:p] + '\nRUN\n' + rep + TAIL, {'b1': PR}, maxsteps=2000000)
    # arbitrary bytes, including NUL, control characters and 128-255, anywhere
    raw = ('b', 0, 255)
    def rawses(id, text, holes, **kw): g.add(id, text + '\n*ZQ9\nBYE\n', holes, mode=1, consume=1, **kw)
    for i, t in enumerate(['{b1}', 'PRINT {b1}', 'PRINT "{b1}"', 'A{b1}=1', 'A${b1}="x"', '10 {b1}', '10 PRINT "{b1}"\nLIST\nRUN', '1{b1}0 PRINT 1\nLIST', '{b1}10 END\nLIST', 'REM {b1}', '10 REM {b1}\nLIST\nRUN', '10 DATA {b1},a{b1}b,"{b1}"\n20 READ A$,B$,C$:PRINT A$;B$;C$;ASC(A$)\nRUN', '10 INPUT A$:PRINT A$\nRUN\n{b1}\nx', '10 INPUT A\nRUN\n{b1}\n5', '10 LINE INPUT A$:PRINT A$;LEN(A$)\nRUN\na{b1}b\nc', 'LOAD "{b1}"', 'SAVE "nodir/{b1}"', 'LIST {b1}', 'LIST 1{b1}2', 'RENUM {b1}', 'RENUM 1{b1}2', '*{b1}', 'R{b1}N', '{b1}UN', 'NEW{b1}', 'CONT{b1}', 'FOR I{b1}=1 TO 2:NEXT', 'IF A{b1}1 THEN PRINT 1', 'PRINT 1{b1}2', 'PRINT "a"{b1}"b"', 'GOTO {b1}', 'DEF FN{b1}(X)=X', 'PRINT FN{b1}(1)', 'DIM {b1}(3)', 'PRINT LEFT${b1}"a",1)', '"{b1}', "PRINT TAB({b1})", '10 PRINT {b1}{b1}\nRUN', 'PRINT A{b1}(1)', '10 IF 1 THEN {b1}\nRUN', '10 X{b1}\n20 {b1}X\nRUN', 'RUN{b1}', 'LOAD{b1}', 'LIST 10-{b1}', '{b1}{b1}{b1}']):
        rawses('raw%02d' % i, t, {'b1': raw})
    for i, t in enumerate(['{b1}{b2}', 'PRINT {b1}{b2}', 'A{b1}{b2}1', '10 {b1}{b2}\nLIST', '"{b1}{b2}', '{b1}{b2}10 PRINT\nLIST', 'LIST {b1}{b2}', 'PRINT 1{b1}{b2}', '10 DATA {b1}{b2}\n20 READ A$:PRINT A$\nRUN', '10 INPUT A:PRINT A\nRUN\n{b1}{b2}\n5', 'PRINT VAL("{b1}{b2}")', 'PRINT ASC("{b1}{b2}")', 'RENUM {b1}{b2}', 'LO{b1}{b2}']):
        rawses('raw2-%02d' % i, t, {'b1': raw, 'b2': raw if deep else ('b', 0, 255, ''.join(map(chr, range(97, 123))))})
    for i, t in enumerate(['10 PRINT "{b1}"', '{b1}0 PRINT 1', '10{b1}PRINT 1', '10 {b1}{b2}', '1{b1}{b2} END', '10 REM{b1}{b2}', '10 DATA "{b1}', '10 PRINT 1\n{b1}\n20 PRINT 2', '10 PRINT 1\n20 P{b1}INT']):
        for o in ((), ('-l',), ('-p',), ('-n',), ('-r',), ('-k',), ('-t',), ('-c',)):
            if deep or o in ((), ('-l',), ('-n',), ('-c',)): g.add('rawfile%02d' % i, 'PRINT 1\nBYE\n', {'b1': raw, 'b2': pick('0A" :')} if '{b2}' in t else {'b1': raw}, files={'p.bas': t + '\n'}, args=['-q'] + list(o) + ['p.bas'], mode=1)
        g.add('rawload%02d' % i, '10 END\nLOAD "f"\nLIST\nRUN\nSAVE "g"\nLOAD "g"\nLIST\n*ZQ9\nBYE\n', {'b1': raw, 'b2': pick('0A" :')} if '{b2}' in t else {'b1': raw}, files={'f': t + '\n'}, mode=1, consume=1)
        g.add('raweof%02d' % i, 'NEW\n' + t, {'b1': raw, 'b2': pick('0A" :')} if '{b2}' in t else {'b1': raw}, mode=1)
    # very long things
    for n in (30, 31, 32, 33, 60, 63, 64, 65, 100, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 600):
        for i, (a, c, z) in enumerate((('PRINT "', 'x', '"'), ('', 'x', '=1'), ('PRINT ', '(', ''), ('PRINT ', '1', ''), ('REM ', 'x', ''), ('10 ', 'x', ''), ('', '9', ''), ('PRINT FN', 'x', '(1)'), ('GOTO ', '9', ''), ('PRINT ', '-', '1'), ('PRINT ', 'NOT ', '1'), ('IF 1 THEN ', 'IF 1 THEN ', 'PRINT 1'), ('LIST ', '1', ''), ('LOAD "', 'q', '"'), ('PRINT 1', '+1', ''), ('PRINT "a"', '+"b"', ''), ('ON 0 GOTO 10', ',10', ''), ('DATA ', '1,', '1'), ('READ A', ',A', ''), ('PRINT ', ',', ''), ('NEXT I', ',I', ''), ('', ':', ''), ('*', 'x', ''), ('DIM A(2)', ',A(2)', ''), ('PRINT ABS(', 'ABS(', ''))):
            if not deep and (n * 7 + i) % 6: continue
            k = n // len(c) + 1 if len(c) > 1 else n
            body = a + c * k + z
            # the command line holds 127 characters: typed, the excess is refused; from a file, lines up to 254 characters count
            g.add('long', '10 PRINT "p"\n' + body + '\nPRINT "{b1}"\nRUN\n' + TAIL, {'b1': pick('AB')}, maxsteps=2000000)
            g.file('longfile', ['10 PRINT "p{b1}"', '20 ' + body, '30 PRINT "e"'], {'b1': pick('AB')}, maxsteps=2000000)
    for n in (1, 7, 8, 9, 10, 15, 16, 17, 18, 40):   # nesting of every kind of stack, in one program and by repetition
        A = {'n1': I(1, 3)}
        g.prog('nest-gosub', ['5 N={n1}', '10 N=N+1:IF N<%d THEN GOSUB 10' % n, '20 IF N>{n1} THEN PRINT N;:N=N-1:IF N>{n1} THEN RETURN', '30 PRINT "e"'], A, after=['PRINT N', 'GOSUB 10', 'PRINT "K"'], maxsteps=2000000)
        g.prog('nest-for', ['%d FOR %s=1 TO {n1}' % (10 + i, 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i % 26] + ('' if i < 26 else '1')) for i in range(n)] + ['90 PRINT "in"', '95 END'], A, after=['NEXT', 'PRINT A', 'FOR Q=1 TO 2:NEXT', 'PRINT "K"'])
        g.prog('nest-paren', ['10 A={n1}', '20 PRINT ' + 'A+(' * n + 'A' + ')' * n], A, after=['PRINT ' + 'A+(' * n + 'A' + ')' * n, 'PRINT "K"'])
        g.prog('nest-str', ['10 A$="{b1}"', '20 PRINT ' + 'A$+(' * n + 'A$' + ')' * n], {'b1': pick('ab')}, after=['PRINT "K"'])
        g.prog('nest-fn', ['10 DEF FNA(X)=X+{n1}', '20 PRINT ' + 'FNA(' * n + '1' + ')' * n], A, after=['PRINT FNA(1)', 'PRINT "K"'])
        g.prog('nest-sub', ['10 A(1)={n1}', '20 PRINT ' + 'A(' * n + '1' + ')' * n], {'n1': I(-1, 2)}, after=['PRINT "K"'])
        g.imm('imm-for', ['FOR I%d=1 TO 2' % i for i in range(n)] + ['PRINT I0', 'NEXT', 'PRINT "K"'], {})
        g.imm('imm-gosub', ['10 END'] + ['GOSUB 10'] * n + ['PRINT "K"', 'RETURN'], {})
        g.imm('imm-fn', ['DEF FNA(X)=FNB(X)+1', 'DEF FNB(X)=X*{n1}'] + ['PRINT FNA(%d)' % i for i in range(n)] + ['PRINT FNB(2)'], {'n1': I(0, 2)})
    # extreme numbers in every numeric position
    for i, t in enumerate(['PRINT {x}', 'A=INT({x})', 'A=B({x})', 'A$=CHR$({x})', 'A$=LEFT$("abc",{x})', 'A$=MID$("abc",{x},1)', 'A$=MID$("abc",1,{x})', 'A$=RIGHT$("abc",{x})', 'PRINT TAB({x});', 'PRINT SPC({x});', 'ON {x} GOTO 20', 'RANDOMIZE {x}', 'DIM C({x})', 'DIM D(1,{x})', 'A=NOT {x}', 'A=1 AND {x}', 'A={x} OR 1', 'A={x}^{x}', 'A=SQR({x})', 'A=LOG({x})', 'A=EXP({x})', 'A=SGN({x})', 'B({x})=1', 'A$({x})="x"', 'IF {x} THEN A=1', 'A=-{x}', 'PRINT STR$({x})', 'A=RND({x})', 'PRINT FNA({x})', 'A=ATN({x})+COS({x})']):
        for k, (v, h) in enumerate((('{n1}', {'n1': S(1e308) if 'STR$' not in t and 'TAB' not in t and 'SPC' not in t else I(-300, 300)}), ('{n1}', {'n1': I(-4294967298, 4294967298) if 'STR$' not in t else I(-500, 500)}), ('(1/0)', {}), ('(-1/0)', {}), ('(0/0)', {}), ('(LOG(2)-{n1})', {'n1': I(-2, 2)}), ('1E309', {}), ('(-1E-320)', {}), ('4294967296', {}), ('2147483648', {}), ('65536', {}))):
            if ('TAB' in t or 'SPC' in t):
                if k in (8, 9, 10): continue
                if k == 1: h = {'n1': I(-4, 40)}
                if k == 0: h = {'n1': H(-4, 20)}
            if t.startswith('A$({x})') and k < 2: h = {'n1': H(-3, 24) if k == 0 else I(-4294967298, -1)}
            if 'DIM' in t and k < 2: h = {'n1': H(-3, 24) if k == 0 else I(-4294967298, -1)}
            g.imm('extreme%02d' % i, ['20 END', 'A=3:DEF FNA(X)=X+1:B(2)=4', t.replace('{x}', v), 'PRINT "K"', 'PRINT B(2)'], h, maxsteps=3000000)
    # errors in a row, commands in odd states
    for i, e in enumerate(SYN):
        g.add('syn%02d' % i, '10 PRINT "p"\n20 %s{b1}\nRUN\n%s{b1}\n' % (e, e) + TAIL, {'b1': pick(' :)1"')}, maxsteps=400000)
    for c in ('LIST', 'RUN', 'CONT', 'NEW', 'RENUM', 'SAVE "t"', 'LOAD "t"', 'COMPILE', 'HELP', 'CLEAR', 'RETURN', 'NEXT', 'READ A', 'RESTORE', 'STOP', 'END', 'GOTO 10', '10', 'PRINT A$(1)', 'DIM B$(4)', 'A$=""', 'LIST 10-20P', 'RESTORE 10', 'GOSUB 10', 'DEF FNA(X)=X', 'PRINT FNA(1)'):
        for d in ('STOP', 'PRINT 1/0;LOG(0):A=CHR$', 'FOR I=1 TO 2:STOP', 'GOSUB 20', 'DIM B$(3):STOP', 'READ Q'):
            if not deep and (len(c) + len(d)) % 3: continue
            g.add('state', '10 %s\n20 A$="{b1}":STOP\n30 DATA 1\nRUN\n%s\n%s\nCONT\nRUN\nNEW\n%s\n%s\n' % (d, c, c, c, c) + 'PRINT "K"\nBYE\n', {'b1': pick('ab')}, maxsteps=400000)
            g.add('state-empty', '%s\n%s\nRUN\n%s\nPRINT "{b1}"\nBYE\n' % (c, c, c), {'b1': pick('ab')}, maxsteps=400000)

# ---------------------------------------------------------------- C20
KW = ['PRINT', 'LET', 'IF', 'THEN', 'ELSE', 'FOR', 'TO', 'STEP', 'NEXT', 'GOTO', 'GOSUB', 'RETURN', 'ON', 'READ', 'DATA', 'RESTORE', 'DIM', 'DEF', 'REM', 'STOP', 'END', 'CLEAR', 'CLS', 'AND', 'OR', 'NOT', 'INPUT', 'LINE', 'RANDOMIZE', 'RND', 'LEFT$', 'MID$', 'RIGHT$', 'ABS', 'INT', 'SGN', 'SQR', 'LOG', 'CHR$', 'ASC', 'VAL', 'STR$', 'LEN', 'TAB', 'SPC', 'EXP', 'SIN', 'COS', 'TAN', 'ATN', 'TIME$']
V20 = [['10 LET A=3:LET B$="Print x"', '20 IF A=3 THEN PRINT "Then";A ELSE PRINT "Else"', '30 FOR I=1 TO 3 STEP 2:PRINT I:NEXT I', '40 GOSUB 70:GOTO 60', '60 PRINT B$:END', '70 PRINT LEFT$(B$,2);MID$(B$,2,2);RIGHT$(B$,1):RETURN'],
       ['10 DIM C(3),D$(2):C(1)=ABS(-4):D$(2)="q"', '20 READ A,A$:PRINT A;A$;C(1);D$(2)', '30 RESTORE:READ B:PRINT B', '40 DATA 7, x Y ', '50 DEF FNA(X)=X*A:PRINT FNA(2)', '60 ON 2 GOTO 70,80', '70 PRINT 7', '80 PRINT 8:REM Print This'],
       ['10 PRINT 1 AND 3 OR 4;NOT 0', '20 PRINT TAB(4)"a";SPC(2)"b",INT(2.5);SGN(-2);SQR(9);LEN("ab")', '30 PRINT CHR$(65);ASC("a");VAL("7");STR$(3)', '40 IF 1<2 AND 2>=2 THEN IF 1<>2 THEN PRINT "in" ELSE PRINT "out"', '50 PRINT "c"', '60 END'],
       ['10 INPUT "Name";N$,Q:PRINT N$;Q', '20 LINE INPUT L$:PRINT L$', '30 RANDOMIZE 4:A=RND(1):RANDOMIZE 4:PRINT A=RND(1)', '40 CLEAR:PRINT A', '50 ON 1 GOSUB 60:END', '60 PRINT EXP(0);LOG(1);ATN(0):RETURN']]
REPL = 'bob , 5\n  some Text \n'
TOK = re.compile(r'"[^"]*"?|[A-Za-z][A-Za-z0-9]*\$?|[0-9.]+|<=|>=|<>|\s+|.')
def toks(s): return TOK.findall(s)
def canon(p, cmd='RUN'): return '\n'.join(p) + '\n' + cmd + '\n' + REPL + 'CONT\nPRINT A;B;I;Q;A$;B$\nBYE\n'

def isquoted(ts, i):
    """REM text, DATA items and strings are literal"""
    st = ''.join(ts[:i])
    return ts[i].startswith('"') or bool(re.search(r'(?i)\bREM\b', st)) or bool(re.search(r'(?i)\bDATA\b[^:]*$', st))

def c20(g):
    deep = g.deep
    def cmp2(id, text, ref, holes=None, **kw):
        g.add(id, text, holes, text1=ref, mode=2, nostderr=1, **kw)
    # letter case of every keyword and name, letter by letter
    for pi, p in enumerate(V20):
        for li, l in enumerate(p):
            ts = toks(l)
            for ti, t in enumerate(ts):
                if not t[0].isalpha() or isquoted(ts, ti): continue
                h = {}; w = ''
                for k, c in enumerate(t):
                    if c.isalpha() and k < 8: h['b%d' % (k + 1)] = pick(c.upper() + c.lower()); w += '{b%d}' % (k + 1)
                    else: w += c
                q = list(p); q[li] = ''.join(ts[:ti]) + w + ''.join(ts[ti+1:])
                if deep or len(t) < 6: cmp2('case%d' % pi, canon(q), canon(p), h)
                else:
                    # long words: two halves
                    for half in (0, 1):
                        hh = {}; w2 = ''
                        for k, c in enumerate(t):
                            if c.isalpha() and (k < 4) == (half == 0): hh['b%d' % (k + 1)] = pick(c.upper() + c.lower()); w2 += '{b%d}' % (k + 1)
                            else: w2 += c.lower() if half else c
                        q[li] = ''.join(ts[:ti]) + w2 + ''.join(ts[ti+1:]); cmp2('case%d' % pi, canon(q), canon(p), hh)
        lower = [''.join(t if isquoted(toks(l), i) else t.lower() for i, t in enumerate(toks(l))) for l in p]
        cmp2('lower%d' % pi, canon(lower, 'run').replace('CONT', 'cont').replace('BYE', 'bye'), canon(p))
        cmp2('upcmd%d' % pi, canon(lower, '{b1}u{b2}').replace('CONT', '{b3}ont'), canon(p), {'b1': pick('rR'), 'b2': pick('nN'), 'b3': pick('cC')})
    # blanks: added (a space or a tab) at every token boundary; removed wherever the neighbours do not run together
    for pi, p in enumerate(V20):
        for li, l in enumerate(p):
            ts = toks(l)
            for ti in range(2, len(ts)):
                if isquoted(ts, ti) and not ts[ti].startswith('"'): continue
                if ti and isquoted(ts, ti - 1) and not ts[ti-1].startswith('"'): continue
                q = list(p); q[li] = ''.join(ts[:ti]) + '{b1}{b2}' + ''.join(ts[ti:])
                cmp2('blank%d' % pi, canon(q), canon(p), {'b1': ('b', 9, 32, ''.join(chr(c) for c in range(10, 32))), 'b2': ('b', 9, 32, ''.join(chr(c) for c in range(10, 32)))})
            def joins(a, b): return (a[-1].isalnum() or a[-1] in '.') and (b[0].isalnum() or b[0] in '.') or (a[-1] in '<>' and b[0] in '<>=')
            for ti in range(2, len(ts) - 1):
                if ts[ti].isspace() and not isquoted(ts, ti) and not joins(ts[ti-1], ts[ti+1]):
                    q = list(p); q[li] = ''.join(ts[:ti]) + ''.join(ts[ti+1:])
                    cmp2('noblank%d' % pi, canon(q), canon(p), {'b9': pick('  ')} if 0 else {})
            sq = ts[0] + ' ' + ''.join('' if t.isspace() and not isquoted(ts, i) and i >= 2 and not joins(ts[i-1], ts[i+1] if i + 1 < len(ts) else ' ') else t for i, t in enumerate(ts[2:], 2))
            q = list(p); q[li] = sq
            cmp2('squeeze%d' % pi, canon(q), canon(p))
            q = list(p); q[li] = '{b1}' + l; cmp2('indent%d' % pi, canon(q), canon(p), {'b1': ('b', 9, 32, ''.join(chr(c) for c in range(10, 32)))})
    # ? for PRINT and omitting LET
    for pi, p in enumerate(V20):
        q = [re.sub(r'(?<!")\bPRINT\b(?=[^"]*(?:"[^"]*"[^"]*)*$)', '?', l) if 'REM' not in l else l for l in p]
        cmp2('query%d' % pi, canon(q).replace('CONT\nPRINT', 'CONT\n?'), canon(p))
        q = [l.replace('LET ', '') for l in p]; cmp2('nolet%d' % pi, canon(q), canon(p))
    for i, (a, b) in enumerate((('A={n1}', 'LET A={n1}'), ('LETA={n1}', 'LETA={n1}'), ('A$="x":B$=A$', 'LET A$="x":LET B$=A$'), ('A({n1})=2:A(1,2)=3' if 0 else 'A({n1})=2', 'LET A({n1})=2'), ('IF A=0 THEN A={n1}', 'IF A=0 THEN LET A={n1}'), ('IF A THEN B=1 ELSE A={n1}', 'IF A THEN LET B=1 ELSE LET A={n1}'), ('?A;', 'PRINT A;'), ('??A' if 0 else '?:?A', 'PRINT:PRINT A'), ('IF A=0 THEN ?{n1}', 'IF A=0 THEN PRINT {n1}'), ('?"a?b"', 'PRINT "a?b"'), ('REM ?\n', 'REM ?\n'))):
        post = '\nPRINT A;B;A(1);A$;B$\nBYE\n'
        cmp2('imm%d' % i, a + post, b + post, {'n1': I(0, 3)})
        cmp2('line%d' % i, '10 ' + a.strip() + '\nRUN' + post, '10 ' + b.strip() + '\nRUN' + post, {'n1': I(0, 3)})
    g.prog('stop', ['10 PRINT 1:{b1}T{b2}p :{b3}nd'], {'b1': pick('sS'), 'b2': pick('oO'), 'b3': pick('eE')}, after=['CONT', 'CONT'])
    # case and blanks inside quotes, DATA and REM are kept
    g.prog('literal', ['10 A$="{b1}{b2}":PRINT A$;LEN(A$)', '20 READ B$,C$:PRINT B$;"|";C$;"|"', '30 DATA {b1}{b2} ,"{b2}{b1}"', '40 REM {b1}{b2}', '50 PRINT "a{b1} b{b2}  c"'], {'b1': Bt(32, 126, '",'), 'b2': Bt(32, 126, '",')}, after=['LIST'])
    g.prog('literal-list', ['10 REM{b1}{b2} :PRINT "x"', '20 print {b1}a$;"{b2}":rem', '30 PRINT   "y"  ;  1'], {'b1': pick(' ab:'), 'b2': Bt(32, 126, '"')}, after=['LIST', 'A$="q"', 'GOTO 20'])
    # names that contain keywords stay names
    for i, w in enumerate(KW + ['LIST', 'RUN', 'NEW', 'BYE', 'FN', 'REMARK', 'FORT', 'ORB', 'TON', 'IFF', 'ENDX', 'STOPS', 'DATAX', 'ONE', 'TOP', 'NOTE', 'ANDY', 'SINE', 'LETTER', 'GOTOX', 'PRINTER', 'INPUTS', 'LINEN', 'DEFN', 'DIMS', 'READY', 'THENX', 'ELSEX', 'NEXTX']):
        base = w.rstrip('$')
        if base == 'FN': continue
        h = {'b1': pick('AXZ09')}
        if w in ('LIST', 'RUN', 'NEW', 'BYE'):
            g.prog('contain', ['10 %s{b1}=5:X%s=6:X%s$="s"' % (base, base, base), '20 PRINT %s{b1};X%s;X%s$' % (base, base, base)], h, after=['PRINT %s{b1}' % base])
        else:
            g.prog('contain', ['10 %s{b1}=5:X%s=6:X%s$="s":X%sY=7' % (base, base, base, base), '20 PRINT %s{b1};X%s;X%s$;X%sY' % (base, base, base, base), '30 IF X%s=6 THEN PRINT "y"' % base, '40 FOR X%s=1 TO 2:NEXT X%s' % (base, base), '50 DIM %s{b1}(2):%s{b1}(1)=X%s:PRINT %s{b1}(1)' % (base, base, base, base)], h, after=['PRINT X%s' % base, 'X%s=1' % base, 'LIST'])
    # crunched
    K = ('-q', '-k')
    CR = [('10 FORI=1TO3STEP2:PRINTI:NEXTI', '10 FOR I=1 TO 3 STEP 2:PRINT I:NEXT I'), ('10 A=3:IFA=3THENPRINT"y"ELSEPRINT"n"', '10 A=3:IF A=3 THEN PRINT "y" ELSE PRINT "n"'), ('10 A=1:IFA>2THEN30ELSE40', '10 A=1:IF A>2 THEN 30 ELSE 40'), ('10 GOSUB40:GOTO30', '10 GOSUB 40:GOTO 30'), ('10 A=6:B=3:PRINTAANDB;AORB;NOTA', '10 A=6:B=3:PRINT A AND B;A OR B;NOT A'), ('10 READA,B$:PRINTA;B$:DATA5,x', '10 READ A,B$:PRINT A;B$:DATA 5,x'), ('10 DIMA(3),B$(2):A(1)=2:PRINTA(1)', '10 DIM A(3),B$(2):A(1)=2:PRINT A(1)'), ('10 DEFFNA(X)=X+1:PRINTFNA(2)', '10 DEF FNA(X)=X+1:PRINT FNA(2)'), ('10 LETA=5:PRINTABS(-A);INT(A)', '10 LET A=5:PRINT ABS(-A);INT(A)'), ('10 ON2GOTO30,40', '10 ON 2 GOTO 30,40'), ('10 A=2:ONAGOSUB40,40', '10 A=2:ON A GOSUB 40,40'), ('10 PRINTTAB(5)"x";SPC(2);"y"', '10 PRINT TAB(5)"x";SPC(2);"y"'), ('10 A$="abc":PRINTLEFT$(A$,2)', '10 A$="abc":PRINT LEFT$(A$,2)'), ('10 RANDOMIZE4:A=RND(1):PRINTA<1', '10 RANDOMIZE 4:A=RND(1):PRINT A<1'), ('10 IFNOT0ANDNOT0THENPRINT1', '10 IF NOT 0 AND NOT 0 THEN PRINT 1'), ('10 RESTORE30:END', '10 RESTORE 30:END'), ('10 FORK=ATOB:NEXTK', '10 FOR K=A TO B:NEXT K'), ('10 A=7:FORI=ATOASTEP-1:?I:NEXT', '10 A=7:FOR I=A TO A STEP -1:?I:NEXT'), ('10 fori=1to2:printi:nexti', '10 FOR I=1 TO 2:PRINT I:NEXT I'), ('10 IFA$=""THENPRINT"e"', '10 IF A$="" THEN PRINT "e"'), ('10 PRINT"IFXTHENY":REMFORI', '10 PRINT "IFXTHENY":REM FORI'), ('10 XORY=5' if 0 else '10 Q=5:PRINTQ', '10 Q=5:PRINT Q'), ('10 INPUTA,B$:PRINTA;B$', '10 INPUT A,B$:PRINT A;B$'), ('10 LINEINPUTA$:PRINTA$', '10 LINE INPUT A$:PRINT A$'), ('10 INPUT"p";A:PRINTA', '10 INPUT "p";A:PRINT A'), ('10 CLEAR:PRINTVAL("5");STR$(6);LEN("ab");ASC("a");CHR$(65)', '10 CLEAR:PRINT VAL("5");STR$(6);LEN("ab");ASC("a");CHR$(65)')]
    for i, (a, b) in enumerate(CR):
        fin = '\n30 PRINT "l3"\n35 END\n40 PRINT "l4":RETURN\nRUN\n5\n7,8\nCONT\nPRINT A;B;A$;B$\nBYE\n'
        cmp2('crunch%02d' % i, a + fin, b + fin, args=K)
        g.add('crunchref%02d' % i, a + fin, {}, args=K)
        # without the option the spaced form behaves the same
        g.add('spaced-k%02d' % i, b + fin, {}, args=K)
        ts = toks(a)
        for k, m in enumerate(re.finditer('[A-Za-z]+', a)):
            if m.start() < 3: continue
            wd = m.group(0); hh = {}; w2 = ''
            if a[:m.start()].count('"') % 2 or 'REM' in a or 'DATA' in a[:m.end()]: continue
            for j, c in enumerate(wd):
                if j < 5: hh['b%d' % (j + 1)] = pick(c.upper() + c.lower()); w2 += '{b%d}' % (j + 1)
                else: w2 += c
            if deep or (i + k) % 3 == 0: cmp2('crunchcase%02d' % i, a[:m.start()] + w2 + a[m.end():] + fin, b + fin, hh, args=K)
        for p in range(3, len(a)):
            if deep or (p + i) % 4 == 0:
                bs = PR if deep else pick('A1 $(:"T')
                if a[:p].endswith('STEP') or a[:p].endswith('ELSE'): bs = pick(' $(:"')       # (a step of zero or a jump to itself never ends)
                g.add('crunchbyte%02d' % i, a[:p] + '{b1}' + a[p+1:] + fin, {'b1': bs}, args=K, maxsteps=400000)
    # every keyword glued to a letter, digit, quote or another keyword on either side, with and without crunching
    for w in KW + ['FN']:
        for o in (('-q',), K):
            g.add('glue', '10 A=1:B=2\n20 A{b1}%s{b2}\n30 %s{b2}A=1\n40 {b1}%sA\n50 PRINT "e"\nRUN\n20\nRUN\n30\nRUN\n40\nRUN\n%s{b2}\nPRINT "K"\nBYE\n' % (w, w, w, w), {'b1': pick('=X1:'), 'b2': pick('A1$( =')}, args=list(o), maxsteps=400000)

# ---------------------------------------------------------------- C21
def c21(g):
    deep = g.deep
    def both(id, line, holes=None, **kw):
        kw.setdefault('maxsteps', 400000)
        g.prog(id, ['10 PRINT "ran"', '20 ' + line, '30 PRINT "e"'], holes, after=['GOTO 10', line if not line.startswith('INPUT') and not line.startswith('LINE') else 'PRINT', 'PRINT "K"'], **kw)
    T = pick('$ ')                    # the type of a variable
    h = lambda n: {'b%d' % (i + 1): T for i in range(n)}
    # every operator and place with every combination of operand types
    for i, (t, n) in enumerate([('A{b1}=B{b2}', 2), ('A{b1}=B{b2}+C{b3}', 3), ('A{b1}=-B{b2}', 2), ('A{b1}=NOT B{b2}', 2), ('A{b1}=(B{b2})', 2), ('A{b1}(C{b2})=B{b3}', 3), ('A{b1}(C{b2},D{b3})=1', 3), ('PRINT A{b1}(B{b2})+C{b3}', 3), ('IF A{b1} THEN PRINT 1', 1), ('IF A{b1}=B{b2} THEN PRINT 1', 2), ('IF A{b1}<B{b2} THEN 30 ELSE 30', 2), ('FOR A{b1}=1 TO 2', 1), ('FOR A=B{b1} TO C{b2}', 2), ('FOR A=1 TO 2 STEP C{b1}', 1), ('NEXT A{b1}', 1), ('ON A{b1} GOTO 30', 1), ('ON A{b1} GOSUB 30', 1), ('RANDOMIZE A{b1}', 1), ('DIM A(B{b1})', 1), ('DIM A{b1}(2,B{b2})', 2), ('DEF FNA(X{b1})=X{b2}', 2), ('DEF FNA(X{b1})=X{b1}+Y{b2}', 2), ('DEF FNA{b1}(X)=Y{b2}', 2), ('PRINT TAB(A{b1})', 1), ('PRINT SPC(A{b1});', 1), ('READ A{b1},B{b2}(C{b3})', 3), ('INPUT A{b1},B{b2}(C{b3})', 3), ('INPUT "p";A{b1}', 1), ('LINE INPUT A{b1}', 1), ('LINE INPUT A{b1}(B{b2})', 2), ('PRINT A{b1};B{b2},C{b3}', 3), ('PRINT A{b1}B{b2}', 2), ('A{b1}=LEFT$(B{b2},C{b3})', 3), ('A{b1}=RIGHT$(B{b2},C{b3})', 3), ('A{b1}=MID$(B{b2},C{b3},D{b4})', 4), ('PRINT A{b1}=B{b2}=C{b3}', 3), ('PRINT RND(A{b1})', 1), ('A{b1}=TIME$', 1), ('A{b1}=RND(1)', 1), ('A{b1}=FNA(B{b2})', 2), ('DEF FNA(X{b1})=1:PRINT FNA(B{b2})', 2), ('A{b1}=FNA$(B{b2})', 2), ('LET A{b1}="x"+B{b2}', 2), ('LET A{b1}=1+B{b2}', 2), ('A{b1}=B{b2}^2', 2), ('DATA A{b1}:RESTORE', 1), ('GOTO A{b1}', 1), ('A{b1}(1)=A{b2}:A{b3}=2', 3), ('PRINT A{b1}(1)(2)' , 1)]):
        both('type%02d' % i, t, h(n), reply='1\n2\n3\n4\n' if t.startswith(('INPUT', 'LINE')) else '')
    for o in ['+', '-', '*', '/', '^', '=', '<>', '<', '<=', '>', '>=', 'AND', 'OR']:
        both('op', 'PRINT A{b1} %s B{b2}' % o, h(2)); both('op3', 'PRINT A{b1} %s B{b2} + C{b3}' % o, h(3)); both('op3b', 'PRINT A{b1} + (B{b2} %s C{b3})' % o, h(3)); both('opstr', 'A{b3}=A{b1} %s B{b2}' % o, h(3))
    for f in ['ABS', 'ASC', 'ATN', 'CHR$', 'COS', 'EXP', 'INT', 'LEN', 'LOG', 'SGN', 'SIN', 'SQR', 'STR$', 'TAN', 'VAL', 'LEFT$', 'RIGHT$', 'MID$', 'RND', 'TIME$', 'FNA', 'FNA$', 'TAB', 'SPC', 'B', 'B$', 'HEX$', 'INKEY$', 'FIX', 'SPACE$', 'USR', 'GET$']:
        both('arg1', 'PRINT %s(A{b1})' % f, h(1)); both('argres', 'C{b2}=%s(A{b1})' % f, h(2))
        if f in ('RND', 'TIME$'):
            for c in ('( ' if f == 'RND' else '( ,'):
                for e in ' $': both('args', 'PRINT %s%sA%s{b3}1{b4}%s' % (f, c, e, '<9' if f == 'RND' else ''), {'b3': pick(',)+ '), 'b4': pick(') ,')})
        else: both('args', ('PRINT %s{b1}A{b2}{b3}1{b4}') % f, {'b1': pick('( ,'), 'b2': T, 'b3': pick(',)+ '), 'b4': pick(') ,')})
        both('args0', 'PRINT %s{b1}{b2}' % f, {'b1': pick('( ;+'), 'b2': pick(') ;1')}); both('args3', 'PRINT %s(A{b1},B{b2},C{b3}{b4}' % f, dict(h(3), b4=pick('),')))
        both('assign', '%s=A{b1}' % f, h(1)); both('assign2', '%s(1)=A{b1}' % f, h(1)); both('infor', 'FOR %s=1 TO 2' % f); both('inread', 'READ %s' % f); both('dimf', 'DIM %s(3)' % f); both('nextf', 'NEXT %s' % f)
        both('deff', 'DEF %s(X{b1})=X{b2}' % f, h(2))
    # structure: a symbolic character in the place of every punctuation mark and between tokens
    P = pick(' (),;:=+"$')
    for si, s in enumerate(STM):
        ts = toks(s)
        for k, t in enumerate(ts):
            pre, post = ''.join(ts[:k]), ''.join(ts[k+1:])
            if not deep and (si + k) % 2 and t.isspace(): continue
            both('tok%02d' % si, pre + '{b1}' + post, {'b1': P})              # token replaced
            if deep or k % 2 == 0: both('dup%02d' % si, pre + t + ' {b1} ' + post if 0 else pre + t + '{b1}' + post, {'b1': P})   # inserted after
        for w in ('THEN', 'ELSE', 'TO', 'STEP', 'AND', 'NOT', 'PRINT', 'FOR', '1', '"s"', 'A', 'A$', '-'):
            if deep or (si + len(w)) % 3 == 0:
                for k in range(0, len(ts), 1 if deep else 3): both('put%02d' % si, ''.join(ts[:k]) + ' ' + w + '{b1}' + ''.join(ts[k:]), {'b1': pick(' :')})
    # IF forms
    for i, t in enumerate(['IF A{b1}THEN{b2}30', 'IF A THEN {b1}30{b2}', 'IF A THEN 30{b1}ELSE{b2}30', 'IF A THEN PRINT 1{b1}ELSE{b2}PRINT 2', 'IF A THEN PRINT 1 ELSE PRINT 2{b1}ELSE PRINT 3', 'IF A THEN IF B THEN PRINT 1 ELSE PRINT 2{b1}ELSE PRINT 3', 'IF A THEN{b1}{b2}', 'IF A THEN 30{b1}PRINT 1', 'IF A THEN PRINT 1{b1}ELSE 30{b2}PRINT 2', 'ELSE{b1}PRINT 1', 'PRINT 1{b1}ELSE PRINT 2', 'IF A GOTO{b1}30', 'IF A{b1}GOSUB 30', 'IF{b1}THEN 30', 'THEN{b1}30', 'IF A THEN REM{b1}ELSE PRINT 2', 'IF A THEN DATA 1{b1}ELSE PRINT 2', 'IF A THEN END{b1}ELSE END', 'IF A THEN FOR I=1 TO 2{b1}ELSE NEXT', 'IF A THEN DEF FNA(X)=X{b1}ELSE PRINT 2', 'IF A THEN{b1}ELSE PRINT 2', 'IF A THEN PRINT 1{b1}{b2}']):
        both('if%02d' % i, t, {'b1': P, 'b2': P} if '{b2}' in t else {'b1': P})
    # names: scalar, array and function uses of one name
    for i, (a, b) in enumerate([('A(1)=2', 'A{b1}3'), ('FNA=5', 'DEF FNA(X)=X'), ('DEF FNA(X)=X', 'FNA{b1}1)=3'), ('DIM FNA(3)', 'PRINT FNA{b1}1)'), ('DEF FNA(X)=X', 'PRINT FNA{b1}'), ('PRINT FNA(1)', 'DIM FNA(2)'), ('DIM A(2)', 'DEF A{b1}X)=X'), ('DEF FNA(X)=X', 'DIM FNA{b1}2)'), ('PRINT FNA(1)', 'DEF FNA(X)=X'), ('DEF FNA$(X)="q"', 'PRINT FNA$(1);FNA{b1}1)'), ('A(1)=2', 'PRINT A(1,2){b1}'), ('DIM A(2)', 'PRINT A(1{b1}1)'), ('DIM A(2,2)', 'PRINT A(1{b1}'), ('DEF FNA(X)=X', 'PRINT FNA(1{b1}2)'), ('A=1', 'A(1)=2:PRINT A{b1}'), ('X=1', 'DEF FNA(X{b1})=X'), ('DEF FNA(FNB)=1', 'PRINT 1'), ('DEF FNA(A(1))=1', 'PRINT 1'), ('DEF FNA()=1', 'PRINT 1'), ('DEF FNA=1', 'PRINT 1'), ('DEF FNA(X,Y)=1', 'PRINT 1'), ('DEF FN(X)=1', 'PRINT 1'), ('DEF FNA(X)=X:DEF FNA(Y)=Y*2', 'PRINT FNA(2)'), ('DEF FNA(X)=FNB(X)', 'DEF FNB(X)=1:PRINT FNB(1)'), ('LET FNA(1)=2', 'PRINT FNA(1)'), ('READ FNA(1)', 'PRINT FNA(1)')]):
        for order in (0, 1):
            x, y = (a, b) if order == 0 else (b, a)
            g.prog('use%02d' % i, ['10 PRINT "ran"', '20 ' + x, '30 ' + y, '40 PRINT "e"'], {'b1': pick(' ($=,)')} if '{b1}' in a + b else {}, after=['GOTO 10', x, y, 'PRINT "K"', '20', 'RUN', '30', 'RUN'], maxsteps=400000)
            g.imm('useimm%02d' % i, [x, y, x, 'PRINT "K"', 'CLEAR', y, x], {'b1': pick(' ($=,)')} if '{b1}' in a + b else {}, maxsteps=400000)
    # several offending lines: the first is the one reported; nothing runs, by any way of starting the program
    for i, e in enumerate(SYN + ['PRINT A${b1}1', 'A{b1}="x"', 'FOR I{b1}1 TO 2']):
        hh = {'b1': P} if '{b1}' in e else {}
        g.file('batch%02d' % i, ['10 PRINT "ran"', '20 ' + e, '30 PRINT ('], hh, maxsteps=400000)
        g.file('batchp%02d' % i, ['10 PRINT "ran":A=5', '20 PRINT 1:' + e], hh, opts=('-q', '-p'), maxsteps=400000)
        g.prog('first%02d' % i, ['5 PRINT "ran":A=5', '10 ' + e, '20 PRINT )', '30 A$=5'], hh, after=['PRINT A', 'GOTO 5', 'GOSUB 5', 'CONT', 'COMPILE', '20', '30', 'RUN', '10', 'RUN', 'PRINT A'], maxsteps=400000)
        g.prog('last%02d' % i, ['5 PRINT "ran":A=5:END', '10 GOTO 30', '30 PRINT "e"', '40 REM', '65535 IF 0 THEN PRINT "x":' + e], hh, after=['PRINT A', 'RUN', '65535', 'RUN'], maxsteps=400000)
    which = {'b1': pick('1)'), 'b2': pick('1)'), 'b3': pick('1)')}
    g.prog('which', ['10 PRINT {b1}', '20 PRINT {b2}', '30 PRINT {b3}'], which, after=['RUN', '{b1}0', 'COMPILE', 'RUN'])
    g.file('which', ['10 PRINT {b1}', '20 PRINT {b2}', '30 PRINT {b3}'], which)
    g.prog('after-ok', ['10 PRINT "a":STOP', '20 PRINT {b1}'], {'b1': pick('1)')}, after=['15 PRINT {b1}{b1}', 'RUN', 'CONT', '15', 'RUN', 'CONT'])
    g.prog('unclosed', ['10 PRINT "abc{b1}', '20 PRINT "d"'], {'b1': Bt()})
    g.prog('paren', ['10 PRINT {b1}1{b2}+{b3}2{b4}*3{b5}'], {'b%d' % i: pick('() ') for i in range(1, 6)}, after=['PRINT "K"'])
    g.prog('paren2', ['10 A=ABS{b1}{b2}-1{b3}{b4}+1'], {'b%d' % i: pick('() ') for i in range(1, 5)}, after=['PRINT A'])
    g.prog('oper', ['10 PRINT 1{b1}{b2}2'], {'b1': pick('+-*/^<>= '), 'b2': pick('+-*/^<>= ')}, after=['PRINT "K"'])
    g.prog('seps', ['10 PRINT 1{b1}{b2}{b3}2'], {'b%d' % i: pick(',;: "') for i in range(1, 4)}, after=['PRINT "K"'])
    g.prog('number', ['10 PRINT {b1}{b2}{b3}'], {'b1': pick('01.E+-'), 'b2': pick('05.Ee+-'), 'b3': pick('27.E+-$')}, after=['PRINT "K"'])
    g.prog('lineref', ['10 GOTO {b1}{b2}', '20 PRINT "two"', '99 PRINT "n"'], {'b1': pick('29+-.$A" '), 'b2': pick('09.$A :')}, after=['PRINT "K"'], maxsteps=200000)
    # a well-formed program of everything is accepted and has no type error at run time
    g.prog('wellformed', ['1 N={n1}'] + ['%d %s' % (10 + i, s) for i, s in enumerate(x for x in STM if not x.startswith(('GOTO', 'IF A>', 'ON A GOTO', 'STOP', 'END', 'RETURN', 'NEXT', 'CLEAR', 'FOR I=1 TO 2 STEP', 'GOSUB', 'ON 2', 'RESTORE 40', 'PRINT FNA', 'DEF FNC$(X$)', 'DIM B(A)')))], {'n1': I(0, 1)}, after=['PRINT "K"'], maxsteps=30000000)
