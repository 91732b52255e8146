"""Deeper variants: programs carried out inside open loops and subroutines, rich states around errors, long bodies, many lines,
every operand position with every kind of operand."""
import re
from .gen import *

CTX = '1 FOR Z1=1 TO 1:FOR Z2=1 TO 1:FOR Z3=1 TO 1\n2 GOSUB 4:NEXT:NEXT:NEXT:END\n4 GOSUB 6:RETURN\n6 GOSUB 8:RETURN\n8 PRINT "c";\n'
def ctx(g, every):
    """The same sessions with the program run inside three loops and three subroutine calls, the cursor in column 2."""
    n = 0
    for s in list(g.out):
        if s.mode or s.opts.get('interrupt') or s.files or '\nRUN\n' not in s.text or '.hist' in s.id or 'CLEAR' in s.text: continue
        if re.search(r'(?m)^ *[1-8]\b', s.text) or not re.match(r'\d\d', s.text): continue
        n += 1
        if not g.deep and n % every: continue
        g.add('ctx-' + s.id.split('.', 1)[1], CTX + s.text, dict(s.holes), args=list(s.args), **s.opts)

def c05(g):
    al = pick('0123456789ABYZ')
    for b in ('AB', 'A1', 'ABC', 'X', 'LONGNAME', 'A9B'):
        g.prog('digit-str', num(['%s{b1}$="x":%s$="y":%s{b1}="z"' % (b, b, b) if 0 else '%s{b1}$="x":%s$="y":%s{b1}=1:%s=2' % (b, b, b, b), 'PRINT %s{b1}$;%s$;%s{b1};%s;%s0$;%s00$' % (b, b, b, b, b, b), '%s{b1}0$="u":%s0{b1}$="v"' % (b, b), 'PRINT %s{b1}0$;%s0{b1}$;%s{b1}$;%s$' % (b, b, b, b)]), {'b1': al})
        g.prog('digit-arr', num(['%s{b1}$(1)="x":%s$(1)="y":%s{b1}(1)=1:%s(1)=2' % (b, b, b, b), 'PRINT %s{b1}$(1);%s$(1);%s{b1}(1);%s(1);%s{b1}$;%s' % (b, b, b, b, b, b)]), {'b1': al})
        g.prog('digit-fn', num(['DEF FN%s{b1}(X)=X+1:DEF FN%s(X)=X+2:DEF FN%s$(X)="s":DEF FN%s{b1}$(X)="t"' % (b, b, b, b), 'PRINT FN%s{b1}(1);FN%s(1);FN%s$(1);FN%s{b1}$(1)' % (b, b, b, b)]), {'b1': al})

def c08(g):
    cs = ['SQR(-1)', '1E-60', '1E-320', '-1E-60', '1E-308/1E10', '0*-1', '1E308*10', '-1E308*10', '(1E308*10)-(1E308*10)', '.5', '-.4', '.1+.2-.3', '1E-300*1E-300', '4294967296', '18446744073709551616', '65536', '256', '.9999999', 'LOG(1)', 'SIN(0)', 'COS(0)-1', '2^-1.5' if 0 else '2^.5', 'NOT SQR(4)', '"a"="a"', '(1=1)+(2=2)', 'ABS(-0)', 'INT(.5)', 'X', 'A$=""', 'FNA(0)', 'FNA(1E-50)']
    for c in cs:
        g.prog('cond', num(['DEF FNA(Q)=Q/2', 'IF %s THEN PRINT "t";:PRINT "u" ELSE PRINT "e";:PRINT "f"' % c, 'IF %s THEN 60' % c, 'PRINT "n"', 'IF %s THEN 70 ELSE 80' % c, 'IF NOT %s THEN PRINT "o" ELSE PRINT "p"' % c if not c.startswith('NOT') else 'REM', 'PRINT "q"', 'X={n1}:IF (%s) AND X THEN PRINT "b"' % c if 'SQR(-1)' not in c and '1E308' not in c and '4294967296' not in c and '1844' not in c else 'X={n1}', 'IF X OR X THEN PRINT "g";:IF %s THEN PRINT "h";:PRINT "i" ELSE PRINT "j"' % c, 'IF %s THEN PRINT "s":PRINT "r"' % c, 'PRINT "k"']), {'n1': I(0, 1)}, after=['IF %s THEN PRINT "t" ELSE PRINT "e"' % c, 'IF %s THEN PRINT "u"' % c, 'IF 1 THEN IF %s THEN PRINT "v":PRINT "w"' % c])
    for h in (S(1e308), S(1e-100), D(1e308), D(1e-300), S(1e20), H(-3, 3)):
        g.prog('cond-any', num(['X={n1}', 'IF X THEN PRINT "t" ELSE PRINT "e"', 'IF X THEN 50', 'PRINT "z":GOTO 60', 'PRINT "w"', 'IF NOT (X=0) THEN PRINT "v" ELSE PRINT "u"', 'IF -X THEN PRINT "m":PRINT "l" ELSE PRINT "k":PRINT "j"', 'IF {n1} THEN IF X THEN PRINT "1" ELSE PRINT "2"']), {'n1': h}, after=['IF {n1} THEN PRINT "i" ELSE PRINT "d"'])

def c09(g):
    for c in (9, 10, 13, 8, 7, 27, 12, 127, 0, 1, 31, 32, 65, 128, 200, 255):
        for d in ('"de"', '""', 'CHR$(%d)' % c, '"0123456789012345678901234567890"'):
            g.prog('ctl', num(['A$="abc"+CHR$(%d)+%s' % (c, d), 'PRINT A$,"x"', 'PRINT A$;TAB(10);"y"', 'PRINT "q";A$;SPC(2);"w",CHR$(%d);TAB(5);"z"' % c, 'PRINT "e";CHR$(%d);' % c, 'PRINT "f",1', 'PRINT TAB(3)A$TAB({n1})"u"']), {'n1': I(0, 20)}, after=['PRINT A$,A$;TAB(9)"k"'])
    g.prog('ctl-any', num(['A$="abc"+CHR$({n1})+"de"', 'PRINT A$,"x"', 'PRINT A$;TAB(10);"y"']), {'n1': I(1, 255)})

def c12(g):
    for n in (1, 4, 8, 9, 10, 11, 12, 14, 15, 16, 20, 24, 30) + ((31, 32, 40, 48) if g.deep else ()):
        g.prog('body', ['10 DEF FNA(X)=X' + '+1' * n, '20 DEF FNB(X)=Y' + '-X' * n, '25 Y={n1}', '30 PRINT FNA({n1});FNB(2);FNA(FNB(1));Y'], {'n1': I(-9, 9)})
        g.prog('body-str', ['10 DEF FNA$(X)=CHR$(X)' + '+"a"' * n, '20 DEF FNB$(X)=A$' + '+A$' * n, '25 A$="{b1}"', '30 PRINT FNA$(65);FNB$(2);LEN(FNA$(66)+FNB$(1));FNA$({n1})'], {'n1': I(65, 70), 'b1': pick('ab"' if 0 else 'ab')})
        g.prog('body-nest', ['10 DEF FNA(X)=' + '(' * min(n, 14) + 'X' + '*2)' * min(n, 14) + '+SQR(ABS(X)*ABS(X))', '30 PRINT FNA({n1});FNA(FNA(1))'], {'n1': I(-9, 9)})
    for a in ('"a"', '"a"+B$', 'LEFT$("abc",X)', 'B$', 'CHR$(64+X)', 'STR$(X)', '"q{b1}"', 'MID$(B$,X,2)', '""'):
        for b in ('"b"', 'B$+"c"', 'RIGHT$("xyz",X)'):
            g.prog('redef-str', ['10 B$="p{b1}":X=7', '20 DEF FNA$(X)=%s' % a, '30 PRINT FNA$(1);"|";', '40 DEF FNA$(Y)=%s' % b, '50 PRINT FNA$(2);"|";FNA$(1)+FNA$(2);X', '60 DEF FNA$(X)=%s:DEF FNA(X)=X' % a, '70 PRINT FNA$(FNA(1));X;Y'], {'b1': Bt(32, 126, '"')}, after=['PRINT FNA$(2);X'])
    for a, b in (('X', 'X+1'), ('X*Y', '5'), ('5', 'Z'), ('SQR(X)', '-X'), ('LEN("abc")', 'X=1'), ('VAL("3")+X', 'NOT X')):
        for n in range(3): g.prog('redef', ['10 X=7:Y=3:Z=2'] + ['%d PRINT "k";' % (11 + k) for k in range(n)] + ['20 DEF FNA(X)=%s' % a, '30 PRINT FNA({n1});', '40 DEF FNA(Y)=%s' % b, '50 PRINT FNA({n1});FNA(1)+FNA(2);X;Y', '60 IF N<1 THEN N=N+1:GOTO 20'], {'n1': I(0, 4)}, after=['PRINT FNA(2);X;Y'])
    for e in ('1+FNA(3)', 'FNA(FNA(1))', 'FNA(1)+FNA(FNA(X))*FNA(2)', '-FNA(X)', 'A(FNA(0))+A(1)*FNA(1)', 'LEN("a")+FNA(LEN("bc"))', '(1+(2*(3+FNA(X))))', 'FNA(FNB(FNA(X)))', 'X+FNA(X)+X', 'X*FNA(-X)-X', 'FNA(X=1)=X', 'NOT FNA(X)', '2^FNA(1)', 'FNB(X)+FNA(X)'):
        g.prog('within', num(['DEF FNA(X)=X+1:DEF FNB(Y)=Y*2+X', 'PRINT %s;X' % e, 'X={n1}:A(1)=4', 'PRINT %s;X' % e, 'CLEAR:DEF FNA(X)=X-1:DEF FNB(X)=X', 'PRINT %s;X' % e]), {'n1': I(-2, 3)}, after=['PRINT %s;X' % e])

def c14(g):
    ch = pick(' .-_09aZ~#$%&()+,;=@^!')
    for nm in ('a{b1}b', '{b1}a', 'a{b1}', 'a b{b1}c.bas', 'x.{b1}', 'a.bas{b1}'):
        if nm.startswith('{'): c2 = pick('-_09aZ~#$%&()+,;=@^!')
        else: c2 = ch
        g.imm('name', ['10 PRINT "one"', 'SAVE "%s"' % nm, 'NEW', '20 PRINT "two"', 'LOAD "%s"' % nm, 'LIST', '30 END', 'SAVE "%s"  ' % nm, 'NEW', 'LOAD   "%s"' % nm, 'LIST', 'RUN', 'LOAD "a"', 'LIST'], {'b1': c2}, maxpaths=2000)
        g.imm('name-bad', ['10 PRINT "one"', 'SAVE "%s" {b2}' % nm, 'SAVE "%s" "' % nm, 'SAVE %s' % nm, 'LOAD %s"' % nm, 'LOAD "%s' % nm, 'SAVE "" ', 'LIST', 'LOAD "%s"' % nm, 'LIST'], {'b1': pick('a b.'[:4]) if not nm.startswith('{') else pick('ab'), 'b2': pick('xP":,')}, maxpaths=2000)

STATE = ['10 A=A+1:A$="s{b1}":B(2)=5:C$(1)="w":DEF FNA(X)=X*2+A:DEF FNB$(X)=LEFT$(A$,X)', '20 READ D:FOR I=1 TO 2:FOR J=1 TO 2:FOR K=1 TO 2:FOR L=1 TO 2:FOR M=1 TO 2', '30 GOSUB 50:PRINT "r1"', '35 STOP', '40 DATA 7,8,"nine",10,11', '50 GOSUB 60:PRINT "r2":RETURN', '60 GOSUB 70:PRINT "r3":RETURN', '70 @:PRINT "r4":RETURN']
PROBE = ['PRINT "z",1', 'PRINT A;A$;B(2);C$(1);D;FNA(3);FNB$(2);X', 'READ E:PRINT E', 'PRINT I;J;K;L;M', 'CONT']
ERRS = ['PRINT LOG(0)', 'PRINT "ab";LOG(0)', 'PRINT "ab",A$+STRING', 'A$=CHR$(-1)', 'B(99)=1', 'PRINT B(1);B(11)', 'NEXT Q', 'GOTO 7', 'READ D,E,F,G,H', 'RESTORE 7', 'PRINT FND(1)', 'DIM B(5)', 'A=A$', 'PRINT )', 'A$=A$+A$+', 'FOR Q', 'IF THEN', 'ON 1', 'GOSUB', 'INPUT', 'PRINT "abc', 'X Y', 'LET', 'DEF FNA(X)=', 'ON A+.5 GOTO 10', 'PRINT MID$("a",0)', 'RANDOMIZE -1', 'PRINT FNA(LOG(0))', 'PRINT FNB$(-1)', 'PRINT "q";A$+C$(12)', 'C$(1)=A$+CHR$(300)', 'PRINT LEFT$(A$+A$,-1)', 'PRINT SQR(B(77))', 'FOR Q=1 TO LOG(0)', 'IF LOG(0) THEN 10', 'ON LOG(0) GOTO 10', 'DIM Z(LOG(0))', 'PRINT TAB(-1);"x"', 'PRINT SPC(300)', 'PRINT ASC(""),CHR$(256)', 'PRINT VAL("x")+LOG(-1)', 'Z$=Y$(1,2)+Y$(1)', 'PRINT #', '@', 'PRINT 1E999', 'A(1,2,3)=1', 'PRINT A$+A$+A$+A$+A$+A$+A$+A$+A$+A$', 'NEW 5', 'LIST X', 'SAVE', 'LOAD', 'LOAD "no"', 'RENUM X', 'CONT 5', 'PRINT 1+(2*(3+LOG(0)))', 'PRINT "p";"q";"r"+CHR$(-5)', 'GOSUB 7', 'GOSUB 60:PRINT', 'RETURN 5', 'NEXT I,Q', 'PRINT (((((((((((((((((1)))))))))))))))))', 'PRINT 1+(1+(1+(1+(1+(1+(1+(1+(1+(1+(1+(1+(1+(1+(1+(1+(1+(1))))))))))))))))', 'PRINT "a"+("b"+("c"+("d"+("e"+("f"+("g"+("h"+("i"))))))))' if 0 else 'PRINT "a"<("b"<1)', 'POKE 1,2,3', 'DATA', 'INPUT 5', 'CLS X', 'STOP 5', 'RUN X', 'RUN 7', 'END 3']
def c18(g):
    for i, e in enumerate(ERRS):
        stmt = not re.match('NEW|LIST|SAVE|LOAD|RENUM|CONT|RUN', e)
        big = ['15 A$="{b1}' + 'x' * 59 + '"'] if i % 2 and 'CHR$' not in e or 'A$+A$+A$' in e else []
        base = [l.replace('@', 'STOP') for l in STATE]
        # an error at the prompt while the program is stopped deep inside
        g.imm('deep-imm', base + ['RUN', 'PRINT "abc";', e] + PROBE[:4] + ['CONT', 'CONT'] + PROBE + ['NEXT', 'NEXT J', 'PRINT I;J;K;L;M', 'RETURN', 'CONT', 'RUN'], {'b1': pick('ab')})
        # twice, and with more state afterwards
        if g.deep or i % 2 or 'A$+A$+A$' in e: g.imm('deep-imm2', base + big + ['RUN', e, e, 'PRINT "abc";', e, 'PRINT TAB(6);"k"', 'A$=A$+"{b1}"', 'READ F', e, 'READ G$:PRINT F;G$', 'CONT', 'NEXT M', 'NEXT L', 'NEXT K', 'PRINT I;J;K;L;M;A$'], {'b1': pick('ab')})
        # an error inside the program, in the third subroutine
        if stmt and (':' not in e): g.imm('deep-run', [l.replace('@', e.replace('LOG(0)', 'LOG(A-1)') if i % 2 else e) for l in STATE] + big + ['RUN'] + PROBE + ['RETURN', 'RETURN', 'RETURN', 'NEXT', 'NEXT K', 'PRINT I;J;K;L;M', 'RUN'], {'b1': pick('ab')})

def c16(g):
    cm = ['PRINT 1', 'A=A+1', 'NEXT', 'NEXT K', 'RETURN', 'READ E', 'RESTORE', 'PRINT LOG(0)', 'PRINT )', 'LIST 70', 'DEF FNA(X)=X', 'FOR Q=1 TO 3', 'FOR J=5 TO 6', 'PRINT "abc";', '75 REM', 'RENUM', 'DIM Q(3)', 'A$=A$+"k"', 'GOSUB 60', 'CLEAR', 'SAVE "t"', 'FOR I=1 TO 3:NEXT', 'PRINT FNA(2)+FNA(1);FNB$(1)', 'ON 2 GOSUB 60,50', 'INPUT Z', 'RANDOMIZE 5', 'COMPILE', '70', '', '*x', 'IF A THEN PRINT "y" ELSE PRINT "n"', 'C$(1)="v":B(2)=B(2)+1']
    base = [l.replace('@', 'STOP') for l in STATE]
    for i, c in enumerate(cm):
        r = ['4'] if c == 'INPUT Z' else []
        g.imm('deep-stop', base + ['RUN', c] + r + ['CONT', 'PRINT I;J;K;L;M;A;A$;B(2);C$(1)', 'CONT', 'PRINT "e"', 'CONT', 'NEXT', 'NEXT I', 'PRINT I;J;K;L;M'], {'b1': pick('ab')})
        if g.deep or i % 2 == 0: g.imm('deep-stop2', [l.replace('35 STOP', '35 NEXT M:NEXT:NEXT K,J,I:PRINT "end";I;J;K;L;M') for l in base] + ['RUN', 'CONT'] + ['CONT'] * (i % 7) + [c] + r + ['CONT'] * (34 - i % 7) + ['PRINT I;J;K;L;M;A;A$'], {'b1': pick('ab')})

def sizes(g, prop):
    """Programs of many lines, replaced, cleared, saved, loaded."""
    for n in (127, 128, 129, 130, 200, 255, 256, 257) if g.deep or prop == 'C13' else (128, 129, 257):
        L = ['%d REM' % k for k in range(1, n)] + ['%d PRINT "{b1}"' % n]
        h = {'b1': pick('ab')}
        g.imm('size%d' % n, L + ['NEW', 'LIST', 'RUN', '5 PRINT "{b1}"', 'LIST', 'RUN'], h)
        g.imm('size%d' % n, L + ['RUN', 'LIST %d' % (n - 2), '%d PRINT "n"' % (n + 1), '1', '%d' % (n // 2), 'RUN', 'LIST -3', 'LIST %d' % n, 'RENUM', 'LIST %d0' % (n - 3), 'RUN'], h)
        g.imm('size%d' % n, L + ['SAVE "f"', 'NEW', 'LOAD "f"', 'LIST %d' % (n - 1), 'RUN', 'NEW', 'LIST', 'RUN', '1 PRINT "{b1}"', 'LOAD "g"', 'LIST', 'RUN'], h, files={'g': '10 PRINT "{b1}"\n'})
def c13(g): sizes(g, 'C13')
def c19(g):
    sizes(g, 'C19')

def c20(g):
    cs = '.0123456789Ee+- xX$%,()'
    for t in ('1.23{b1}4{b2}', '12345{b1}6{b2}7', '.12345{b1}6', '1.2345{b1}{b2}', '1E{b1}{b2}3', '12{b1}E{b2}2', '0{b1}{b2}0', '.{b1}{b2}', '1.{b1}.{b2}', '123456789{b1}{b2}1', '1.234.5{b1}', '1..2{b1}', '1E1.{b1}', '5.E{b1}1', '1.5E+{b1}', '1.5E-{b1}{b2}', '1.2345678{b1}.{b2}'):
        h = {'b1': pick(cs)}
        if '{b2}' in t: h['b2'] = pick(cs) if g.deep else pick('.05E+-x')
        g.imm('numtok', ['PRINT %s' % t, 'PRINT "K"'], h, maxpaths=4000)
        g.imm('numtok-prog', ['10 A=%s' % t.replace('{b2}', '2'), '20 PRINT A', 'LIST', 'RUN'], {'b1': h['b1']}, maxpaths=4000)

def c21(g):
    N = ['1', 'A', 'A(1)', 'LEN("b")', 'ASC("b")', 'VAL("3")', 'SQR(4)', 'FNA(1)', '-1', '(1)', '1+1', 'NOT 1', 'ABS(1)', 'A=1', '"a"="b"', 'RND(1)>2', '2^2', 'INT(1.5)']
    S_ = ['"s"', 'A$', 'A$(1)', 'LEFT$("s",1)', 'MID$("sx",1,1)', 'CHR$(65)', 'STR$(1)', 'FNA$(1)', '"s"+"t"', 'RIGHT$("s",1)', 'STR$(1)+A$']
    B = ['1', 'A', '"s"', 'A$', 'LEN("b")', 'LEFT$("s",1)', 'FNA(1)', 'FNA$(1)', 'A(1)', 'A$(1)', '1=1', '-1', '"s"+"t"', '1+1', '(1)', '"a"="b"'] if not g.deep else N + S_
    C = ['DEF FNB$(X)=@', 'DEF FNB(X)=@', 'B$=@', 'B=@', 'B$(@)="x"', 'B(@)=1', 'B$(1)=@', 'B(1)=@', 'LET B$=@', 'PRINT "a"+@', 'PRINT @+"a"', 'PRINT "a"+"b"+@', 'PRINT 1+@', 'PRINT @-1', 'PRINT @*2', 'PRINT 2^@', 'PRINT -@', 'PRINT NOT @', 'PRINT "a"<@', 'PRINT @=1', 'PRINT 1<>@', 'PRINT @>="a"', 'PRINT 1 AND @', 'PRINT @ OR 0', 'PRINT LEFT$(@,1)', 'PRINT LEFT$("a",@)', 'PRINT MID$(@,1)', 'PRINT MID$("a",@,1)', 'PRINT MID$("a",1,@)', 'PRINT RIGHT$(@,@)', 'PRINT LEN(@)', 'PRINT ASC(@)', 'PRINT VAL(@)', 'PRINT CHR$(@+64)', 'PRINT STR$(@)', 'PRINT ABS(@)', 'PRINT SQR(@)', 'PRINT FNA(@)', 'PRINT FNA$(@)', 'PRINT TAB(@);"x"', 'PRINT SPC(@);"x"', 'IF @ THEN PRINT "y"', 'IF @ THEN 30 ELSE 30', 'FOR I=@ TO 1:NEXT', 'FOR I=1 TO @:NEXT', 'FOR I=1 TO 1 STEP @:NEXT', 'ON @ GOTO 30', 'ON @ GOSUB 40', 'DIM D(@)', 'DIM D$(2,@)', 'PRINT (@)', 'PRINT (@)+(@)', 'PRINT @;@', 'RANDOMIZE @', 'PRINT INSTR(@,"a")' if 0 else 'PRINT SGN(@)', 'B(1,@)=2', 'PRINT B$(@,1)', 'INPUT @', 'READ @', 'FOR @=1 TO 1:NEXT', 'GOTO @', 'RESTORE @', 'DIM @', 'NEXT @', 'PRINT RND(@)>2', 'PRINT INT(@)', 'PRINT LOG(@)', 'PRINT EXP(@)>0', 'PRINT SIN(@)>2', 'PRINT ATN(@)>9', 'PRINT TAN(@)>99', 'PRINT COS(@)>2']
    for i, c in enumerate(C):
        for j, b in enumerate(B):
            if c.startswith('INPUT') and 'FN' in b or 'STEP' in c and b == '"a"="b"': continue
            t = c.replace('@', b)
            g.imm('operand', ['10 PRINT "r{b1}"', '12 A=1:A(1)=1', '15 DEF FNA(X)=X:DEF FNA$(X)="f"', '20 ' + t, '25 END' if 'INPUT' not in t else '25 PRINT "i"', '30 PRINT "e":END', '40 RETURN', 'RUN', 'PRINT "K"', t] + (['5'] if 'INPUT' in t else []) + ['PRINT "L"'], {'b1': Bt(32, 126, '"')}, maxsteps=400000)

CORPUS = [
    ['10 FOR I=1 TO 2:FOR J=2 TO 1 STEP -1:PRINT I;J,:NEXT J,I', '20 PRINT:PRINT TAB(5);"x";SPC(2);"y",Tab(20)"z"', '30 A=1+(2*(3-(4/(5+(6^(1+1)))))):PRINT A;spc(1);-A,"w"', '40 PRINT "ab"+("c"<"d")' if 0 else '40 PRINT "ab"+LEFT$("cd"+MID$("efg",2,1),2),1'],
    ['10 DEF FNA(X)=X*2+Y:DEF FNB$(N)=LEFT$("hello",N)+"!"', '20 Y=3:X={n1}:PRINT FNA(FNA(1)+X);FNB$(2);LEN(FNB$(FNA(0)))', '30 IF FNA(1)>X THEN PRINT "t":GOTO 50 ELSE PRINT "e":GOTO 50', '40 PRINT "no"', '50 PRINT X;Y,FNB$(3)+"q"'],
    ['10 GOSUB 100:ON 2 GOSUB 110,120:PRINT "m"', '20 ON {n1} GOTO 40,50', '30 PRINT "n"', '40 PRINT "f":GOSUB 100', '50 PRINT "g":END', '100 PRINT "s";:GOSUB 120:RETURN', '110 PRINT "u":RETURN', '120 PRINT "v",:RETURN'],
    ['10 READ A,B$,C:PRINT A;B$;C:RESTORE 50:READ D$:PRINT D$', '20 RESTORE:READ E:PRINT E', '30 DATA 1,"two {b1}",3', '40 REM {b1}', '50 DATA  four five , 6'],
    ['10 INPUT "n";A:INPUT B$,C:LINE INPUT D$', '20 PRINT A;B$;C;D$:PRINT A(1);B$(2):A(1)={n1}:B$(2)="{b1}"', '30 PRINT A(1)+A;B$(2)+D$', '40 INPUT Z'],
    ['10 DIM A(3,2),A$(4):A(1,2)={n1}:A$(3)="{b1}"', '20 FOR I=0 TO 3:PRINT A(I,2);A$(I);:NEXT:PRINT', '30 A$(3)=A$(3)+A$(3)+STR$(A(1,2)):PRINT A$(3);LEN(A$(3));VAL(A$(3))', '40 PRINT A(4,0)'],
    ['10 A={n1}:IF A THEN IF A>1 THEN PRINT "big" ELSE PRINT "one"', '20 IF NOT A THEN PRINT "zero"', '30 IF A=2 THEN 50 ELSE 40', '40 PRINT "not two"', '50 PRINT A AND 3;A OR 4;NOT A;A=2;"x"<"y"', '60 STOP', '70 PRINT "after"'],
    ['10 A$="{b1}":B$=A$+CHR$(65)+STR$(12):PRINT B$;ASC(B$);LEN(B$);VAL("3"+A$)', '20 PRINT LEFT$(B$,2);RIGHT$(B$,2);MID$(B$,2,2);ABS(-1);SGN(-2);INT(-1.5);SQR(16)', '30 PRINT LOG(0)', '40 PRINT "no"'],
    ['10 FOR I=1 TO 3:IF I=2 THEN NEXT:PRINT "k" ELSE PRINT I:NEXT', '20 FOR K=1 TO 2:GOSUB 40', '30 NEXT K:PRINT K:END', '40 FOR L=1 TO 2:PRINT K*L:NEXT:RETURN'],
    ['10 FOR I=1 TO 2', '20 PRINT I', '30 GOTO 50', '40 NEXT', '50 PRINT "left":FOR J=1 TO 1', '60 PRINT J'],
    ['10 PRINT 1,2,3,4,5,6,7', '20 PRINT "a","b";"c",:PRINT "d"', '30 PRINT TAB(30);"far",TAB(3);"near"', '40 LET Q={n1}:PRINT Q,Q;Q'],
    ['10 RANDOMIZE 3:A=RND(1):RANDOMIZE 3:PRINT A=RND(1)', '20 CLEAR:PRINT A:CLS', '30 REM end', '40 END'],
]
OPTS = ['-l', '-n', '-p', '-c', '-r', '-k', '-z', '-m', '-t', '-f', '-g']
def c24(g):
    """Every program of a small corpus under every option, and pairs of options."""
    h = {'n1': I(0, 2), 'b1': pick('ab')}
    for i, p in enumerate(CORPUS):
        used = {k: v for k, v in h.items() if any('{%s}' % k in l for l in p)}
        combos = [(o,) for o in OPTS] + [(OPTS[(i + k) % 11], OPTS[(i * 3 + k * 5 + 1) % 11]) for k in range(11 if g.deep else 5)] + [tuple(OPTS[(i + k * 2) % 11] for k in range(4))]
        for o in combos:
            if len(set(o)) < len(o): continue
            kw = dict(nostderr=1) if '-g' in o else {}
            if '-c' in o: kw['noout'] = 1 # the listing of the code is not specified
            g.file('corpus%02d' % i, p, dict(used), stdin='5\nx,6\nline\n7\nCONT\n', opts=['-q'] + list(o), **kw)
    for names in ('Tab(3)', 'tab(3)', 'TAB(3)', 'Spc(2)', 'spc(2)'):
        for o in ('-n', '-l', '-k', '-t'):
            g.file('names', ['10 PRINT %s;"a";%s' % (names, names), '20 print abc;Abc$;fna(1);deF' if 0 else '20 print abc;Abc$;Z9', '30 def fnq(x)=x:PRINT FNQ(1);Fnq(2)', '40 READ A(1),b$(2):DATA 1,x', '50 for i=1 to 2:next I'], {}, opts=['-q', o])

def c25(g):
    L = (1, 30, 31, 32, 63, 64, 100)
    for n in L:
        q = '"' + 'p' * (n - 1) + '{b1}"'; w = 'N' + 'A' * (n - 1)
        if len(w) > 100: continue
        for k, t in enumerate(['INPUT %s;A' % q, 'INPUT %s A' % q, 'INPUT %s;' % q, 'INPUT %s;1' % q, 'INPUT %s,A' % q, 'LINE INPUT %s;A$' % q, 'LINE INPUT %s;A' % q, 'PRINT %s' % q, 'PRINT %s)' % q, 'A$=%s:A$=A$+%s' % (q, q) if n < 60 else 'A$=%s' % q, 'A$=%s+' % q, 'A=%s' % q, 'IF %s=A$ THEN' % q, 'DATA %s:READ A$,B$' % q, 'DEF FNA$(X)=%s:PRINT FNA$(1)' % q, 'DEF FNA$(X)=%s+' % q, 'DEF FNA(X)=%s' % q, 'REM %s' % q, 'SAVE %s' % q.replace('"', '"' if n < 60 else '"'), 'LOAD %s' % q, '%s=1:PRINT %s' % (w, w), '%s$="{b1}"' % w, '%s(1)=2' % w, 'DIM %s$(3),%s(2):%s$(1)="x"' % (w, w, w) if n < 32 else 'DIM %s(2)' % w, 'DEF FN%s(X)=1:PRINT FN%s(2)' % (w, w) if n < 60 else 'REM', 'FOR %s=1 TO 2:NEXT' % w, 'PRINT LEFT$(%s,-1)' % q, 'PRINT %s+CHR$(-1)' % q, 'PRINT VAL(%s)+LOG(0)' % q, 'PRINT LEN(%s+LEFT$(%s,1)' % (q, q) if n < 60 else 'REM', 'GOTO %s' % q, 'ON %s GOTO 5' % q, '*%s' % q, 'LIST %s' % q, 'RUN %s' % q, 'X%sY' % q, "'%s" % q]):
            if t.startswith('SAVE') and n > 60: continue
            rep = ['7'] if 'INPUT' in t else []
            g.add('long', '\n'.join(['10 PRINT "s"', t] + rep + ['20 ' + t, 'RUN'] + rep + ['20', 'RUN', t] + rep) + '\nBYE\n', {'b1': pick('ab')}, args=['-q', '-m'])
