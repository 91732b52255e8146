"""Symbolic histories: a program reads operation numbers and carries out the operations one after another, showing
the state after each. The numbers are symbolic, so every sequence of the given length over the operations is decided."""
from .gen import *

def hist(g, id, ops, n, init=(), show=None, prefix=(), after=(), tail=(), by='READ', hold=None, start=1, **kw):
    """ops: texts of lines (each may be several lines separated by \\n; the last goes on with GOTO 20 by itself)."""
    L = ['%d %s' % (k + 1, t) for k, t in enumerate(init)]
    # (a chain of IFs, not ON ... GOTO: each test forks, so that the operation is concrete when it is carried out)
    L += ['20 %s P' % by] + ['%d IF P=%d THEN %d' % (21 + k, k + 1, 1000 + 10 * k) for k in range(len(ops))] + ['48 PRINT "none":END']
    if show: L += ['50 %s' % show, '60 GOTO 20']
    for k, o in enumerate(ops):
        for j, t in enumerate(o.split('\n')): L.append('%d %s' % (1000 + 10 * k + j, t.replace('@', '50' if show else '20')))
    holes = {'n%d' % (i + 1): I(1, len(ops)) for i in range(n)}
    seq = ['%d' % p for p in prefix] + ['{n%d}' % (i + 1) for i in range(n)] + ['%d' % p for p in tail]
    rep = ''
    if by == 'READ': L.append('9000 DATA ' + ','.join(seq))
    else: rep = '\n'.join(seq) + '\n'
    if hold: holes.update(hold)
    kw.setdefault('maxpaths', 20000); kw.setdefault('maxsteps', 3000000)
    if by == 'READ': return g.prog(id, L, holes, after=list(after), **kw)
    return g.prog(id, L, holes, after=[], reply=rep + '%d\n' % (len(ops) + 1) + ''.join(a + '\n' for a in after), **kw)

def c06(g):
    n = 3 if g.deep else 2
    ops = ['FOR I=1 TO 2:GOTO @', 'FOR J=3 TO 1 STEP -1:GOTO @', 'FOR K=1 TO 3:GOTO @', 'NEXT:GOTO @', 'NEXT I:GOTO @', 'NEXT J:GOTO @', 'NEXT K:GOTO @', 'NEXT J,I:GOTO @', 'I=I+1:GOTO @', 'FOR L=5 TO 5:GOTO @', 'NEXT L:GOTO @']
    for p in ((), (1,), (1, 2), (2, 1), (1, 2, 3), (3, 1, 2), (1, 2, 3, 10), (1, 2, 1), (1, 2, 3, 5), (1, 2, 3, 2), (10, 3, 2, 1), (1, 2, 3, 10, 7), (1, 2, 4, 3), (10, 1, 2, 3, 6)):
        for t in ((4, 4, 4), (5, 6, 7)):
            hist(g, 'hist', ops, n, show='PRINT I;J;K;L', prefix=p, tail=t, after=['PRINT I;J;K;L', 'NEXT'])

def c07(g):
    n = 3
    ops = ['GOSUB 20:PRINT "a":GOTO @', 'RETURN', 'PRINT "m";:ON 2 GOSUB 20,20:PRINT "b":GOTO @', 'IF 1 THEN GOSUB 20:PRINT "c" ELSE PRINT "n"\nGOTO @', 'FOR I=1 TO 2:GOSUB 20:PRINT "d";I:NEXT:GOTO @', 'NEXT:GOTO @', 'IF 0 THEN PRINT "n" ELSE GOSUB 20:PRINT "e"\nPRINT "f":GOTO @', 'ON 3 GOSUB 20,20:PRINT "g":GOTO @', 'GOTO @']
    for p in ((), (1,), (1, 3), (4, 1), (5,), (7, 5), (1, 3, 4, 7), (3, 3, 3, 3, 3, 3), (1, 1, 1, 1, 1, 1, 1)):
        hist(g, 'hist', ops, n, show='PRINT ".";', prefix=p, tail=(2, 2), after=['PRINT I', 'RETURN'])

def c04(g):
    n = 3 if g.deep else 2
    show = 'PRINT A(0);A(1);A(2)'
    ops = ['A(1)=A(1)+1:GOTO @', 'A(0)=5:GOTO @', 'DIM A(2):GOTO @', 'DIM A(12):A(12)=4:PRINT A(12):GOTO @', 'A(2)=A(1)*2+A(0):GOTO @', 'B(1,0)=B(0,1)+1:B(0,1)=B(1,0):PRINT B(0,0);B(0,1);B(1,0);B(1,1):GOTO @', 'DIM B(1,1):PRINT B(1,0):GOTO @', 'A(10)=7:PRINT A(10):GOTO @', 'A(A(1))=9:GOTO @', 'CLEAR:GOTO @', 'DIM A(2,2):GOTO @', 'A=3:PRINT A:GOTO @']
    sshow = 'PRINT S$(0);"|";S$(1);"|";T$(1,0);"|";T$(0,1);"|";T$(1,1);"|"'
    sops = ['S$(1)=S$(1)+"a":GOTO @', 'S$(0)=S$(1)+"b":GOTO @', 'S$(1)="":GOTO @', 'T$(1,0)=S$(0)+"c":GOTO @', 'T$(0,1)=T$(1,0):GOTO @', 'T$(1,0)="":GOTO @', 'DIM S$(2):GOTO @', 'DIM T$(1,1):GOTO @', 'T$(1,1)=T$(0,1)+T$(1,0):GOTO @', 'S$(1)=T$(1,1):GOTO @', 'DIM S$(11):S$(11)=S$(0)+"k":PRINT S$(11):GOTO @', 'CLEAR:GOTO @', 'T$(0,0)=S$(1):PRINT T$(0,0):GOTO @', 'T$(1,1)="":S$(0)="":GOTO @']
    for p in ((), (1, 2), (1, 6), (4, 1), (7, 6), (8, 1), (3, 1, 5), (1, 1, 9), (1, 2, 10)):
        hist(g, 'hist', ops, n, show=show, prefix=p, tail=(1, 5), after=['PRINT A(0);A(1);A(2);B(1,1)'])
    for p in ((), (1, 2), (1, 2, 4), (1, 2, 4, 5), (1, 2, 4, 5, 9), (7, 1), (8, 2, 4), (1, 2, 4, 5, 9, 10)):
        hist(g, 'hist-str', sops, n, show=sshow, prefix=p, tail=(1, 9), after=[sshow])

def c02(g):
    n = 3 if g.deep else 2
    show = 'PRINT A$;"|";B$;"|";S$(1);"|";S$(2);"|"'
    ops = ['A$=B$:GOTO @', 'B$=A$+"x":GOTO @', 'A$="":GOTO @', 'S$(1)=A$:GOTO @', 'S$(2)=S$(1)+B$:GOTO @', 'A$=S$(2):GOTO @', 'A$=MID$(A$+"pqr",2,2):GOTO @', 'B$=LEFT$(B$,LEN(B$)/2-.25):GOTO @', 'B$=RIGHT$(S$(2)+A$,1):GOTO @', 'A$=A$+A$:GOTO @', 'S$(1)=S$(2):S$(2)="":GOTO @', 'IF A$<B$ THEN PRINT "lt":A$=A$+"z"\nGOTO @', 'IF S$(1)=A$ THEN PRINT "eq":S$(1)="w"+B$\nGOTO @']
    ops[7] = 'B$=LEFT$(B$,INT(LEN(B$)/2)):GOTO @'
    for p in ((), (2,), (2, 1), (2, 4), (2, 1, 2), (2, 4, 5), (2, 1, 10, 4), (7, 4, 5, 11)):
        hist(g, 'hist', ops, n, init=('A$="{b1}":B$="d"',), show=show, prefix=p, tail=(1, 4), after=[show], hold={'b1': pick('abc')})

def c05(g):
    n = 3 if g.deep else 2
    show = 'PRINT A;A(0);A$;A$(0);B1;B1$;AB'
    ops = ['A=A+1:GOTO @', 'a(0)=A+10:GOTO @', 'A$=a$+"s":GOTO @', 'A$(0)=A$+"t":GOTO @', 'B1=A(0)+100:GOTO @', 'b1$=A$(0)+"u":GOTO @', 'ab=A+B1:GOTO @', 'DIM A(3):GOTO @', 'DIM a$(3):GOTO @', 'CLEAR:GOTO @', 'FOR A=1 TO 2:NEXT:GOTO @', 'DEF FNA(A)=A*3:PRINT FNA(2):GOTO @', 'READ B1$:GOTO @']
    for p in ((), (1, 2, 3), (1, 2, 3, 4, 5, 6, 7), (1, 3, 9), (2, 8)):
        hist(g, 'hist', ops[:12], n, show=show, prefix=p, tail=(1, 3), after=[show])

def c11(g):
    n = 3 if g.deep else 2
    show = 'PRINT A;A$;B'
    dat = ['200 DATA 1,2', '210 REM', '220 DATA "three",4 , five', '230 PRINT "no":DATA 6', '240 DATA 7,8,9,10,11,12']
    ops = ['READ A:GOTO @', 'READ A$:GOTO @', 'READ A,A$:GOTO @', 'RESTORE:GOTO @', 'RESTORE 220:GOTO @', 'RESTORE 240:GOTO @', 'RESTORE 230:GOTO @', 'READ A$,A$,B:GOTO @', 'RESTORE 200:READ A:GOTO @', 'RESTORE 210:GOTO @', 'RESTORE 225:GOTO @', 'CLEAR:GOTO @', 'READ A$(B),B:PRINT A$(0):GOTO @', 'GOTO @']
    for p in ((), (1,), (1, 1), (5,), (7,), (1, 1, 2), (6, 2, 2), (5, 2, 1, 2, 1), (10, 8)):
        hist(g, 'hist', ops, n, init=(), show=show, prefix=p, tail=(2, 1), by='INPUT', before=dat, after=['READ A$:PRINT A$', 'RESTORE', 'READ A:PRINT A', 'READ A:PRINT A', 'READ A$:PRINT A$'])

def c12(g):
    n = 3 if g.deep else 2
    show = 'PRINT X;Y;A'
    ops = ['DEF FNA(X)=X*2+Y:GOTO @', 'DEF FNA(Y)=X+Y*10:GOTO @', 'DEF FNB(X)=FNA(X):GOTO @', 'A=FNA(X+1):GOTO @', 'Y=FNA(Y+1)+FNA(2):GOTO @', 'X=X+1:GOTO @', 'CLEAR:GOTO @', 'DEF FNA(Z)=Z:PRINT FNA(X);Z:GOTO @', 'A=FNB(1):GOTO @', 'DEF FNB(X)=X-1:A=FNB(FNA(3)):GOTO @', 'DEF FNA$(X)=LEFT$("abcdef",X):PRINT FNA$(X):GOTO @', 'DIM X(3):X(X)=FNA(X):PRINT X(0);X(1):GOTO @', 'FOR X=1 TO 2:A=FNA(X):NEXT:GOTO @']
    for p in ((), (1,), (2,), (1, 6), (1, 5), (8,), (1, 10), (6, 2, 4), (11, 6, 1)):
        hist(g, 'hist', ops, n, show=show, prefix=p, tail=(4,), after=['PRINT FNA(5)', show])

def c09(g):
    n = 3
    ops = ['PRINT "abc";:GOTO @', 'PRINT P;:GOTO @', 'PRINT ,:GOTO @', 'PRINT:GOTO @', 'PRINT TAB(12);:GOTO @', 'PRINT SPC(3);:GOTO @', 'PRINT "x"TAB(5)"y",:GOTO @', 'PRINT -1.5,"q":GOTO @', 'PRINT "":GOTO @', 'PRINT TAB(8);"12345678";:GOTO @', 'PRINT "",SPC(0);TAB(17)"z";:GOTO @']
    if g.deep: n = 4
    for p in ((), (1,), (10,), (3, 2)):
        hist(g, 'hist', ops, n, prefix=p, after=['PRINT "K",1'])
    for p in ((), (1, 3)):  # with INPUT, which leaves the cursor at the start of a line
        hist(g, 'hist-input', ops, 2, prefix=p, by='INPUT', after=['PRINT "K",1'])

def c08(g):
    n = 3 if g.deep else 2
    ops = ['IF X THEN PRINT "t":X=0 ELSE PRINT "e":X=1\nPRINT "n":GOTO @', 'IF X>Y THEN IF X>1 THEN PRINT "a" ELSE PRINT "b":X=X-1\nGOTO @', 'IF Y THEN @ ELSE 1021\nPRINT "f":Y=Y+1:PRINT "g":GOTO @', 'FOR I=1 TO 2:IF I=X THEN PRINT "i1":NEXT ELSE PRINT "i2":NEXT:PRINT "i3"\nPRINT I:GOTO @', 'X=X+1:IF X=2 THEN X=-1:Y=Y-1\nGOTO @', 'IF NOT X THEN GOSUB 500:PRINT "u" ELSE GOSUB 500\nPRINT "v":GOTO @', 'PRINT "w":IF X THEN PRINT "x":IF Y THEN PRINT "y" ELSE PRINT "z"\nGOTO @', 'IF X THEN IF Y THEN PRINT "1" ELSE PRINT "2":Y=2\nPRINT "3":GOTO @', 'FOR I=1 TO 2:FOR J=1 TO 2:IF I=J THEN PRINT "d";:NEXT:NEXT ELSE PRINT "o";:NEXT:NEXT\nPRINT:GOTO @', 'GOSUB 510:PRINT "p":GOTO @']
    for p in ((), (5,), (5, 5), (3,), (3, 1)):
        hist(g, 'hist', ops, n, show='PRINT X;Y', prefix=p, tail=(1, 3), before=['500 IF X=1 THEN RETURN ELSE PRINT "s":X=1:RETURN', '510 IF X THEN PRINT "q":RETURN ELSE IF Y THEN PRINT "r":RETURN', '520 PRINT "s":RETURN'], after=['PRINT X;Y'])

def c10(g):
    n = 2
    ops = ['INPUT A:GOTO @', 'INPUT A$:GOTO @', 'LINE INPUT B$:GOTO @', 'INPUT "p";A,A$:GOTO @', 'INPUT A$,B$:GOTO @', 'INPUT A(A):PRINT A(0);A(1):GOTO @', 'PRINT "z";:GOTO @', 'INPUT "",A:GOTO @'] 
    ops = [o for o in ops if '"",A' not in o]
    for i, rep in enumerate(('1\n2,x\nq\n3,4\n{b1}\n1,2\n5\n6\n7,8\n', '{b1},2\n\n,\n1\n2\n3,4\n5,6,7\n8\n1,2\n', '"a,b",c\n-1\n{b1}\n1E2\n2\n 3 , 4 \n5\n6,7\n')):
        for p in ((), (1,), (4,), (7, 2)):
            L = hist(g, 'hist', ops, n, show='PRINT A;A$;"|";B$;"|"', prefix=p, tail=(1,), hold={'b1': pick('01x,')})
            L.text = L.text.replace('\nRUN\n', '\nRUN\n' + rep).replace('BYE\n', 'PRINT "K"\nBYE\n')

def c01(g):
    for k in range(1, 8):
        m = '-' * k
        g.prog('neg-run', ['5 X={n1}', '10 PRINT %sX;%s2;3%s2;(%sX)^2;%sX^2;X*%sX' % (m, m, m, m, m, m), '20 PRINT NOT %sX;2*%sX;ABS(%sX);%s(X+1);A(%s2*0)' % (m, m, m, m, m)], {'n1': I(-2, 3)}, after=['PRINT %s{n1}' % m])
        t = 'NOT ' * k
        g.prog('not-run', ['5 X={n1}', '10 PRINT %sX;%s(X=1);1 AND %sX;%sX>1;(%sX)+1' % (t, t, t, t, t)], {'n1': I(-2, 3)})
        o = '(' * k; c = ')' * k
        g.prog('paren-run', ['5 X={n1}', '10 PRINT %sX%s*2;2*%sX+1%s*2;-%s-X%s;%sX-1%s^2;LEN(%s"ab"%s+"c")' % (o, c, o, c, o, c, o, c, o, c)], {'n1': I(-2, 3)})
    ops = ['X=-X:GOTO @', 'X=X*2+1:GOTO @', 'X=NOT X:GOTO @', 'X=X AND 6:GOTO @', 'X=X OR 9:GOTO @', 'X=(X>3)-(X<0):GOTO @', 'X=X/2:GOTO @', 'X=INT(X):GOTO @', 'X=X-X^2:GOTO @', 'X=ABS(X)+SGN(X):GOTO @', 'X=SQR(X*X):GOTO @', 'X=--X-1-1:GOTO @']
    for x in ('-3', '0', '1', '2.5', '7', '-.75', '1E9', '40000'):
        for p in ((), (7,), (3, 7)):
            hist(g, 'hist', ops, 3 if g.deep else 2, init=('X=%s' % x,), show='PRINT X', prefix=p, tail=(5,), after=['PRINT X'])

def c22(g):
    ops = ['RANDOMIZE 1:GOTO @', 'RANDOMIZE 2:GOTO @', 'A=RND(1):PRINT A:GOTO @', 'B=RND(1)+RND(1):PRINT B:GOTO @', 'RANDOMIZE X:X=X+1:GOTO @', 'RANDOMIZE:GOTO @', 'PRINT RND(1)<1;RND(1)>=0:GOTO @', 'CLEAR:GOTO @']
    for p in ((), (1,), (1, 3), (6,), (2, 4)):
        hist(g, 'hist', ops, 2, prefix=p, tail=(3, 4), after=['PRINT RND(1)'])

ERR = ['PRINT LOG(0)', 'A$=CHR$(-1)', 'B(99)=1', 'NEXT', 'RETURN', 'GOTO 7', 'READ Q', 'PRINT FND(1)', 'PRINT A$+"x"+', 'A=A$', 'RESTORE 7', 'DIM B(-1)', 'ON A+.5 GOTO 10', 'PRINT FNA(LOG(0))', 'PRINT MID$("a",0)', 'RANDOMIZE -1', 'FOR', 'X Y']
def c18(g):
    cm = ERR + ['RUN', 'GOTO 30', 'GOSUB 40', 'CONT', 'A=A+{n1}', 'A$=A$+"{b1}"', 'B(2)=B(2)+A', 'DEF FNA(X)=X*2', 'FOR I=1 TO 2:PRINT I:NEXT', 'FOR J=1 TO 3', 'CLEAR', '25 PRINT "n"', '25', 'LIST', 'READ A$', 'RESTORE', 'INPUT Z$']
    prog = ['10 A=A+1:B(1)=A:DEF FNA(X)=X+A', '20 PRINT "p";FNA(1);A$;B(1);B(2)', '30 STOP', '35 PRINT "q":END', '40 PRINT "s":A=A+LOG(A-2):RETURN', '50 DATA "d",2']
    k = 0
    for i, a in enumerate(cm):
        for j, b in enumerate(cm):
            k += 1
            if not g.deep and (i * 7 + j * 3) % 4: continue
            c = cm[(i * 5 + j * 11 + 2) % len(cm)]
            sq = [a, b, c]
            t = sum([[x] + (['{b1}r'] if x.startswith('INPUT') else []) for x in sq], [])
            g.imm('hist', prog + ['RUN'] + t + ['PRINT A;A$;B(1);B(2);FNA(3)', 'CONT', 'LIST', 'RUN'], {'n1': I(0, 2), 'b1': pick('ab')})

def c23(g):
    cm = ['RUN', 'CLEAR', 'NEW', 'A=A+{n1}', 'A$=A$+"{b1}"', 'B(1)=B(1)+2', 'DIM B(3)', 'DEF FNA(X)=X+7', 'PRINT FNA(1)', 'GOTO 20', 'GOSUB 20', 'FOR I=1 TO 3', 'NEXT', 'READ Q:PRINT Q', 'RESTORE', 'CONT', '15 A=A+10', '15', 'RENUM', 'LOAD "f.bas"', 'SAVE "t.bas"', 'COMPILE', 'PRINT (', 'PRINT LOG(0)', 'RUN 20', 'RETURN', 'STOP', 'END', 'S$(1)=S$(1)+"k":PRINT S$(1)']
    prog = ['10 A=A+1:PRINT A;A$;B(1);I', '20 B(1)=B(1)+1:A$=A$+"{b1}":READ Z:PRINT Z;', '30 FOR I=1 TO 2:STOP', '40 PRINT I:NEXT', '50 DATA 5,6,7,8']
    for i, a in enumerate(cm):
        for j, b in enumerate(cm):
            if not g.deep and (i * 5 + j * 3) % 3: continue
            c = cm[(i * 7 + j * 13 + 4) % len(cm)]
            g.imm('hist', prog + [a, b, c, 'PRINT A;A$;B(1);I', 'RUN', 'LIST'], {'n1': I(1, 2), 'b1': pick('ab')}, files={'f.bas': '10 PRINT "f";A;A$\n20 A=5:STOP\n30 PRINT "g";A\n'})

def c16(g):
    cm = ['CONT', 'RUN', 'A=A+{n1}', 'GOTO 40', 'GOSUB 60', '25 PRINT "n"', '25', '20', 'CLEAR', 'NEW', 'PRINT LOG(0)', 'LIST', 'PRINT (', 'RENUM 10', 'FOR Q=1 TO 2:NEXT', 'STOP', 'END', 'SAVE "t.bas"', 'LOAD "f.bas"', 'COMPILE', 'RESTORE', 'READ Z:PRINT Z', 'I=3', 'RENUM 5,10,0', '99999999999 X', 'LOAD "no.bas"', 'A$=A$+"{b1}"', 'INPUT Z', 'NEXT', 'RETURN', 'DEF FNA(X)=X-A', 'GOTO 20', 'DIM B(2)', 'HELP' if 0 else '*LIST' if 0 else 'PRINT A;A$']
    prog = ['10 DEF FNA(X)=X+A:A=1:FOR I=1 TO 3', '20 PRINT I;A$;:STOP:PRINT FNA(I)', '30 NEXT:GOSUB 60:PRINT "e":READ Z:PRINT Z', '40 PRINT "f":STOP:PRINT A;I', '50 END', '60 PRINT "s";:STOP:PRINT "t":RETURN', '70 DATA 4,5']
    for i, a in enumerate(cm):
        for j, b in enumerate(cm):
            if not g.deep and (i * 3 + j * 5) % 3: continue
            sq = sum([[x] + (['{b2}'] if x.startswith('INPUT') else []) for x in (a, b)], [])
            g.imm('hist', prog + ['RUN'] + (['CONT'] * ((i + j) % 4)) + sq + ['CONT', 'CONT', 'PRINT A;A$;I', 'CONT', 'CONT'], {'n1': I(0, 1), 'b1': pick('ab'), 'b2': pick('12')}, files={'f.bas': '10 PRINT "f":STOP\n20 PRINT "g"\n'})

def c13(g):
    cm = ['10 PRINT "a{b1}"', '20 PRINT "b{b1}"', '15 GOTO 30', '30 END', '10', '20', '15', 'RUN', 'LIST', 'LIST {b2}0', 'NEW', 'RENUM', 'RENUM 5,20', 'SAVE "t.bas"', 'LOAD "t.bas"', 'LOAD "f.bas"', '5 REM {b1}', '0 PRINT', '99999999999 END', '10PRINT"t"', '  20   PRINT  "u"', 'COMPILE', '40 PRINT (', '40', 'CLEAR', '10 ', '010 PRINT "z"']
    for i, a in enumerate(cm):
        for j, b in enumerate(cm):
            if not g.deep and (i * 7 + j * 3) % 3: continue
            c = cm[(i * 5 + j * 11 + 3) % len(cm)]; d = cm[(i * 13 + j * 7 + 1) % len(cm)]
            g.imm('hist', ['20 PRINT "o{b1}"', '30 PRINT "p"', a, b, c, d, 'LIST', 'RUN', 'LIST {b2}5-', 'LIST -{b2}0'], {'b1': pick('ab'), 'b2': pick('123')}, files={'f.bas': '10 PRINT "f"\n25 PRINT "g"\n'})

def c14(g):
    cm = ['SAVE "t.bas"', 'LOAD "t.bas"', 'LOAD "f.bas"', 'LOAD "bad.bas"', 'LOAD "no.bas"', 'SAVE "nodir/t.bas"', 'NEW', '15 PRINT "n{b1}"', '10', 'RUN', 'RENUM', 'SAVE "u.bas"', 'LOAD "u.bas"', 'CLEAR', 'A=A+1', 'LOAD "dup.bas"', 'LIST', 'SAVE', 'LOAD']
    for i, a in enumerate(cm):
        for j, b in enumerate(cm):
            if not g.deep and (i * 5 + j * 3) % 2: continue
            c = cm[(i * 7 + j * 11 + 2) % len(cm)]
            g.imm('hist', ['10 PRINT "{b1}";A', '20 PRINT "two"', a, b, c, 'LIST', 'RUN', 'LOAD "t.bas"', 'LIST'], {'b1': Bt(32, 126, '"')}, files={'f.bas': '10 PRINT "f";A\n25 PRINT "{b1}"\n', 'bad.bas': '10 PRINT "x"\nPRINT\n30 END\n', 'dup.bas': '10 PRINT "x"\n10 PRINT "y"\n'})

def c25(g):
    cm = ERR + ['RUN', 'CLEAR', 'NEW', 'A$=A$+"{b1}"', 'S$(1)=S$(1)+A$', 'DIM S$(3)', 'DIM T$(2,2):T$(1,1)="x"', 'DEF FNA$(X)=LEFT$("abc",X):PRINT FNA$(2)', 'DEF FNA(X)=X', 'FOR I=1 TO 3', 'NEXT', 'GOSUB 20', 'CONT', '15 PRINT "n"', '10', 'RENUM', 'SAVE "t.bas"', 'LOAD "t.bas"', 'LOAD "no.bas"', 'COMPILE', 'READ A$', 'IF A$="a" THEN PRINT "y" ELSE PRINT "z"', 'PRINT A$;LEN(A$+"q");VAL("3"+A$)']
    prog = ['10 A$=A$+"{b1}":PRINT A$', '20 S$(2)=A$+"z":STOP', '30 PRINT FNA$(1)+S$(2)+S$(9):RETURN', '40 DATA "dd",e']
    for i, a in enumerate(cm):
        for j, b in enumerate(cm):
            if not g.deep and (i * 3 + j * 7) % 4: continue
            c = cm[(i * 11 + j * 5 + 2) % len(cm)]
            g.add('hist', '\n'.join(prog + [a, b, 'RUN', c, b]) + '\nBYE\n', {'b1': pick('ab')}, args=['-q', '-m'])

def c17(g):
    """SIGINT at any point of richer programs; each SIN is a point where the program certainly runs."""
    n = 160 if g.deep else 70
    P = [ # program, silent commands given after the break, commands at the end
        (['10 FOR I=1 TO 2:FOR J=3 TO 2 STEP -1', '20 FOR K=1 TO 2:S=SIN(K):PRINT I;J;K;:NEXT:NEXT', '30 NEXT:PRINT "e"'], ['NEXT', 'PRINT I;J;K']),
        (['10 FOR I=1 TO 2:FOR J=1 TO 1:FOR K=1 TO 1:FOR L=1 TO 2:S=SIN(L):PRINT L;:NEXT L,K,J,I'], ['NEXT', 'PRINT I;J;K;L']),
        (['10 FOR I=1 TO 2:FOR J=1 TO 3:S=SIN(J):IF J=2 THEN NEXT I:GOTO 30', '20 NEXT', '30 PRINT I;J'], ['NEXT', 'PRINT I;J']),
        (['10 GOSUB 100:PRINT "a"', '20 GOSUB 110:PRINT "b":GOTO 99', '100 GOSUB 110:S=SIN(1):PRINT "c":RETURN', '110 GOSUB 120:PRINT "d":RETURN', '120 S=SIN(2):PRINT "e":RETURN'], ['RETURN', 'PRINT "z"']),
        (['10 FOR I=1 TO 2:GOSUB 100:NEXT:GOTO 99', '100 FOR J=1 TO 2:S=SIN(J):GOSUB 110:NEXT:PRINT "f";:RETURN', '110 PRINT I;J;:S=SIN(I):RETURN'], ['RETURN', 'NEXT']),
        (['10 DEF FNA(X)=X+SIN(X)*0+Y', '15 DEF FNB(Y)=Y*SIN(Y)*0+X', '20 X=1:Y=2', '30 A=FNB(FNA(3))+FNA(4):PRINT A;X;Y', '40 PRINT FNB(1);FNA(X);X;Y'], ['PRINT FNB(2);X;Y']),
        (['10 DEF FNA$(X)=LEFT$("abc"+A$,X+SIN(X)*0)+A$', '20 A$="q":A$=FNA$(2)+FNA$(1)+"r"', '30 PRINT A$;LEN(FNA$(3)+FNA$(0));X'], ['PRINT FNA$(4)']),
        (['10 S=SIN(1):IF S>0 THEN PRINT "t";:S=SIN(2):PRINT "u" ELSE PRINT "v":S=SIN(3)', '20 IF S<0 THEN 30 ELSE 40', '30 PRINT "w"', '40 S=SIN(4):PRINT "x"'], []),
        (['10 READ A,A$:S=SIN(A):PRINT A;A$', '20 READ B:S=SIN(B):RESTORE 60:READ C$:PRINT B;C$', '30 S=SIN(2):RESTORE:READ A:PRINT A', '50 DATA 1,"two,x",3', '60 DATA four'], ['READ A$:PRINT A$']),
        (['10 DIM A(3),A$(2):FOR I=0 TO 3:A(I)=I+SIN(0):A$(I/2)=A$(I/2)+"k":NEXT', '20 FOR I=0 TO 3:PRINT A(I);A$(INT(I/2));:NEXT:S=SIN(1)', '30 CLEAR:S=SIN(2):PRINT A(1);A$(0);S>0'], ['PRINT A(0)']),
        (['10 ON 2 GOSUB 100,110:ON 1 GOSUB 100:S=SIN(1)', '20 ON 3 GOTO 99:ON 2 GOTO 99,30', '25 PRINT "no"', '30 PRINT "f":GOTO 99', '100 PRINT "g":S=SIN(1):RETURN', '110 PRINT "h":RETURN'], ['RETURN']),
        (['10 PRINT "abc";:S=SIN(1):PRINT TAB(6);"d",:S=SIN(2):PRINT "e",SIN(0);', '20 PRINT SPC(2);"f":PRINT "",:S=SIN(3):PRINT "g"'], []),
        (['10 INPUT A$:S=SIN(1):PRINT A$:INPUT "p";B$:PRINT B$', '20 S=SIN(2):LINE INPUT C$:PRINT C$;S>0'], []),
        (['10 PRINT "a":S=SIN(1):STOP:PRINT "b":S=SIN(2):STOP', '20 PRINT "c":S=SIN(3):PRINT "d"'], []),
        (['10 FOR I=1 TO 2:S=SIN(I):STOP:S=SIN(I):PRINT I;:NEXT', '20 S=SIN(1)'], ['NEXT']),
        (['10 S=SIN(1):RANDOMIZE 5:A=RND(1):S=SIN(2):B=RND(1):RANDOMIZE 5', '20 PRINT A=RND(1);B=RND(1)'], []),
        (['10 A=3:S=SIN(A):A=A+1:S=SIN(A):A$=STR$(A)+CHR$(64+A):PRINT A$', '20 S=SIN(1):PRINT LOG(-A)', '30 PRINT "no"'], ['PRINT A;A$']),
        (['10 REM', '20 DATA 5', '30 DEF FNA(X)=SIN(X)', '40 A=FNA(1)>0', '50 REM'], []),
        (['10 LET A=SIN(1)'], ['PRINT A>0']),
        (['10 PRINT SIN(0)'], []),
        (['10 GOTO 30', '20 END', '30 PRINT "x";:S=SIN(1)', '40 GOTO 20'], []),
        (['10 S=SIN(1):GOSUB 20', '20 PRINT "s":K=K+1:IF K<3 THEN S=SIN(K):RETURN'], ['RETURN', 'PRINT K']),
        (['10 WHILE=1:S=SIN(WHILE):A$=A$+"x":IF LEN(A$)<3 THEN 10', '20 PRINT A$'], []),
        (['10 B(1,1)=SIN(0)+2:B(B(1,1)-1,0)=4:S=SIN(1):PRINT B(1,1);B(1,0)', '20 DIM B(2)'], ['PRINT B(1,0)']),
        (['10 A$="p":S=SIN(1):B$=A$:A$=A$+B$+"q":S=SIN(2):C$(1)=A$:A$="":S=SIN(3):PRINT A$;B$;C$(1)'], ['PRINT A$;B$;C$(1)']),
        (['10 IF SIN(1)>0 THEN IF SIN(2)<0 THEN PRINT "1" ELSE PRINT "2":S=SIN(3)', '20 PRINT "3";', '30 IF SIN(1)<0 THEN PRINT "4"'], []),
    ]
    P[22] = (['10 W=1:S=SIN(W):A$=A$+"x":IF LEN(A$)<3 THEN 10', '20 PRINT A$'], [])
    for i, (p, end) in enumerate(P):
        st = sum(l.count('STOP') for l in p) + (1 if i == 14 else 0); ii = sum(l.count('INPUT ') for l in p)
        body = '\n'.join(p) + '\n99 PRINT A;I;J;X;A$\nRUN\n'
        fin = ''.join(e + '\n' for e in end) + 'BYE\n'
        t = body + 'CONT\n' * (1 + st + ii)
        g.add('sin%02d' % i, t + fin, {}, interrupt=n, int_until=len(t), maxpaths=n * 3, timeout=60)
        if ii: continue
        t = body + 'CONT\n' * (2 + st)
        g.add('two%02d' % i, t + fin, {}, interrupt=n if g.deep else 30, int2=8 if g.deep else 4, int_until=len(t), maxpaths=3000, timeout=60)
        if not st: # commands between the break and CONT
            for c in (['Q=Q+1', 'Q$="zz"'], ['FOR Z=1 TO 3:NEXT', 'DEF FNZ(X)=X', 'LET Z$=FNZ$', 'DIM Z(3)'][:2] + ['DIM Z(3)'], ['Z(2)=SIN(Q)', 'IF Q THEN Q$=CHR$(65)+STR$(Q)']):
                if g.deep or i % 3 == len(c[0]) % 3: g.add('cmd%02d' % i, body + '\n'.join(c) + '\nCONT\n' + fin, {}, interrupt=n if g.deep else 30, int_np=1, int_until=len(body), maxpaths=n * 3, timeout=60)
    E = [['10 S=SIN(1):GOTO 10'], ['10 FOR I=1 TO 2 STEP 0:S=SIN(1):NEXT'], ['10 FOR I=1 TO 2 STEP 0:S=SIN(1)', '20 NEXT I'], ['10 GOSUB 20:GOTO 10', '20 S=SIN(1):RETURN'], ['10 DEF FNA(X)=SIN(X)', '20 A=FNA(1):GOTO 20'], ['10 IF SIN(1)>0 THEN 10 ELSE 10'], ['10 IF SIN(1)<0 THEN 20 ELSE 10', '20 PRINT "no"'], ['10 S=SIN(1):ON 1 GOTO 10'], ['10 S=SIN(1)', '20 GOTO 10'], ['10 FOR I=1 TO 9:FOR J=1 TO 2 STEP 0:FOR K=1 TO 2:S=SIN(K)', '20 NEXT K,J,I'], ['10 PRINT "x";:S=SIN(1)', '20 ON 2 GOTO 99,10'], ['10 A$=LEFT$(A$+"x",3):S=SIN(1):RESTORE:READ B$:GOTO 10', '20 DATA q'], ['10 DEF FNA$(X)=LEFT$("ab",SIN(X)*0+1)', '20 PRINT FNA$(1)+FNA$(2);', '30 GOTO 20'], ['10 S=SIN(1)', '20 IF 1 THEN 10'], ['10 REM', '20 S=SIN(1):REM', '30 GOTO 10'], ['10 FOR I=1 TO 3:S=SIN(1):I=1:NEXT'], ['10 ON 1 GOSUB 20', '15 GOTO 10', '20 S=SIN(1)', '30 RETURN']]
    for i, p in enumerate(E):
        for opt in ((), ('-l',), ('-z',), ('-k',)) if g.deep else ((),):
            g.add('endless%02d' % i, '\n'.join(p) + '\nRUN\nPRINT S\nPRINT "x"\n*ZQ9\nBYE\n', {}, mode=1, consume=1, interrupt=30, int_run=1, maxpaths=100, maxsteps=2000000, args=['-q'] + list(opt))
    g.add('list', '\n'.join('%d REM line %d' % (k * 10, k) for k in range(1, 12)) + '\nLIST\nPRINT 1\n*ZQ9\nBYE\n', {}, mode=1, consume=1, interrupt=20, maxpaths=100)
