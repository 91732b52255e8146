"""Sessions for C04-C08: arrays, names, loops, jumps, IF."""
from .gen import *

def c04(g):
    deep = g.deep
    R = I(-1, 6)
    g.prog('one', num(['DIM A(4):I={n1}:J={n2}', 'FOR K=0 TO 4:A(K)=K+10:NEXT', 'A(I)=77:A(J)=A(J)+100', 'FOR K=0 TO 4:PRINT A(K);:NEXT']), {'n1': R, 'n2': R}, after=['FOR K=0 TO 4:PRINT A(K);:NEXT'])
    g.prog('one-s', num(['DIM A$(4):I={n1}:J={n2}', 'FOR K=0 TO 4:A$(K)=CHR$(K+65):NEXT', 'A$(I)="x":A$(J)=A$(J)+"y"', 'FOR K=0 TO 4:PRINT A$(K);"/";:NEXT']), {'n1': R, 'n2': R}, after=['FOR K=0 TO 4:PRINT A$(K);"/";:NEXT'])
    g.prog('two', num(['DIM A(2,3)', 'FOR I=0 TO 2:FOR J=0 TO 3:A(I,J)=I*10+J:NEXT:NEXT', 'A({n1},{n2})=99', 'FOR I=0 TO 2:FOR J=0 TO 3:PRINT A(I,J);:NEXT:NEXT']), {'n1': I(-1, 3), 'n2': I(-1, 4)}, after=['FOR I=0 TO 2:FOR J=0 TO 3:PRINT A(I,J);:NEXT:NEXT'])
    g.prog('two-t', num(['DIM A(3,1)', 'FOR I=0 TO 3:FOR J=0 TO 1:A(I,J)=I*10+J:NEXT:NEXT', 'PRINT A({n1},{n2})', 'A({n1},{n2})=A({n2},{n1})', 'FOR I=0 TO 3:FOR J=0 TO 1:PRINT A(I,J);:NEXT:NEXT']), {'n1': I(-1, 4), 'n2': I(-1, 4)}, after=['FOR I=0 TO 3:FOR J=0 TO 1:PRINT A(I,J);:NEXT:NEXT'])
    g.prog('two-s', num(['DIM A$(2,2)', 'FOR I=0 TO 2:FOR J=0 TO 2:A$(I,J)=CHR$(65+I*3+J):NEXT:NEXT', 'A$({n1},{n2})="[]"', 'FOR I=0 TO 2:FOR J=0 TO 2:PRINT A$(I,J);:NEXT:NEXT']), {'n1': I(-1, 3), 'n2': I(-1, 3)}, after=['FOR I=0 TO 2:FOR J=0 TO 2:PRINT A$(I,J);:NEXT:NEXT'])
    g.prog('two-pair', num(['DIM A(2,2)', 'A({n1},{n2})=5:A({n3},{n4})=A({n3},{n4})+7', 'PRINT A({n1},{n2});A({n3},{n4})', 'S=0:FOR I=0 TO 2:FOR J=0 TO 2:S=S*1+A(I,J):NEXT:NEXT:PRINT S']), {'n%d' % k: I(0, 2) for k in (1, 2, 3, 4)})
    # sizes are symbolic
    g.prog('dim-n', num(['N={n1}:I={n2}:Z=5', 'DIM A(N)', 'PRINT "D"', 'A(I)=3', 'PRINT A(I);A(0);A(N)']), {'n1': I(-2, 8), 'n2': I(-1, 9)}, after=['PRINT Z', 'PRINT A(0)', 'A(N)=4:PRINT A(N)'])
    g.prog('dim-nm', num(['DIM B(2):B(1)=8:DIM A({n1},{n2})', 'A({n1},{n2})=3:A(0,{n2})=A(0,{n2})+1', 'PRINT A({n1},{n2});A(0,0);A({n1},0);A(0,{n2})']), {'n1': I(-1, 4), 'n2': I(-1, 4)}, after=['PRINT B(1);A(0,0)', 'PRINT A({n1},{n2})'])
    g.prog('dim-half', num(['Z=4:DIM A({n1})', 'PRINT "D"']), {'n1': H(-2, 5)}, after=['PRINT Z;A(1)'])
    g.prog('dim-big', num(['Z=4:DIM A({n1})', 'PRINT "D"', 'A({n1})=9:PRINT A({n1});A(0)']), {'n1': I(65530, 65540)}, after=['PRINT Z;A(1)'])
    g.prog('dim-wrap', num(['Z=4:DIM A({n1})', 'PRINT "D"', 'A(0)=9:PRINT A(0)']), {'n1': I(4294967290, 4294967300)}, after=['PRINT Z;A(1)'])
    g.prog('dim-wrap2', num(['Z=4:DIM A({n1},{n2})', 'PRINT "D"', 'A(1,1)=9:PRINT A(1,1)']), {'n1': I(65534, 65537), 'n2': I(65534, 65537)}, after=['PRINT Z;A(1,1)'])
    g.prog('dim-wrap3', num(['Z=4:DIM A({n1},{n2})', 'PRINT "D"', 'A(1,1)=9:PRINT A(1,1)']), {'n1': I(4294967293, 4294967297), 'n2': I(0, 2)}, after=['PRINT Z;A(1,1)'])
    g.prog('dim-wrap4', num(['Z=4:DIM A$({n1},{n2})', 'PRINT "D"', 'A$(1,1)="9":PRINT A$(1,1)']), {'n2': I(4294967293, 4294967297), 'n1': I(0, 2)}, after=['PRINT Z;A$(1,1)'])
    g.prog('dim-product', num(['DIM A({n1},255)', 'PRINT "D":A({n1},255)=9:PRINT A({n1},255);A({n1},0);A(0,255)']), {'n1': I(253, 258)}, after=['PRINT A(0,0)'])
    g.prog('dim-product2', num(['DIM A$(1,{n1})', 'PRINT "D":A$(1,{n1})="z":PRINT A$(1,{n1});A$(0,{n1});A$(1,0)']), {'n1': I(32765, 32770)}, after=['PRINT A$(0,0)'])
    g.prog('dim-huge', num(['DIM A({n1})', 'PRINT "D"']), {'n1': ('d', 65530, 1e15)}, after=['PRINT A(0)'])
    # automatic dimensioning
    g.prog('auto', num(['I={n1}:J={n2}', 'A(I)=5', 'PRINT A(I);A(0);A(10)', 'A(J)=6', 'PRINT A(J);A(I)']), {'n1': I(-1, 13), 'n2': I(9, 14)}, after=['PRINT A(0);A(10)'])
    g.prog('auto-s', num(['I={n1}:J={n2}', 'A$(I)="q"', 'PRINT A$(I);A$(0);"."', 'A$(J)=A$(J)+"r"', 'PRINT A$(J);A$(I)']), {'n1': I(-1, 13), 'n2': I(9, 14)}, after=['PRINT A$(0);A$(10);"."'])
    g.prog('auto-read', num(['I={n1}:J={n2}', 'PRINT A(I);', 'PRINT A(J)', 'A(J)=3:PRINT A(J);A(I)']), {'n1': I(-1, 13), 'n2': I(9, 14)}, after=['PRINT A(0);A(10)'])
    g.prog('auto2', num(['I={n1}:J={n2}', 'A(I,J)=5', 'PRINT A(I,J);A(10,10);A(I,10);A(10,J)', 'PRINT A(12,0)']), {'n1': I(9, 13), 'n2': I(9, 13)}, after=['PRINT A(0,12)', 'PRINT A(I,J)'])
    g.prog('auto-big', num(['A({n1})=5', 'PRINT A({n1});A(0)']), {'n1': I(65532, 65540)}, after=['PRINT A(0);A(10)', 'A(3)=4:PRINT A(3)'])
    g.prog('auto-wrap', num(['A({n1})=5', 'PRINT A({n1});A(0)']), {'n1': I(4294967290, 4294967300)}, after=['PRINT A(0);A(10)'])
    g.prog('auto-half', num(['A({n1})=5', 'PRINT A({n1});A(0)']), {'n1': H(-2, 12)}, after=['PRINT A(0);A(10)'])
    g.prog('sub-half', num(['DIM A(3,3)', 'A(1,{n1})=5:A({n1},2)=6', 'PRINT A(1,1);A(1,2);A(2,2)']), {'n1': H(-1, 5)}, after=['PRINT A(1,1);A(1,2);A(2,2)'])
    g.prog('sub-big', num(['DIM A(3)', 'A(1)=2:A({n1})=5', 'PRINT A(1)']), {'n1': S(1e15)}, after=['PRINT A(1)'])
    g.prog('sub-wrap', num(['DIM A(3)', 'A(1)=2:A({n1})=5', 'PRINT A(0);A(1);A(2);A(3)']), {'n1': I(-4294967300, 4294967300)}, after=['PRINT A(1)'])
    # number of subscripts
    for d, u in (('A(3)', 'A({n1},1)'), ('A(3,3)', 'A({n1})'), ('A(3)', 'A(1,{n1},1)'), ('A(3,3)', 'A(1,{n1},1)'), ('A(3,3)', 'A({n1},1,1,1)')):
        g.prog('count', num(['DIM %s' % d, 'PRINT "D"', 'PRINT %s' % u]), {'n1': I(0, 4)}, after=['PRINT "K"', '%s=3' % u, 'PRINT A(1)', 'PRINT A(1,1)'])
        g.prog('count-auto', num(['%s=2' % d, 'PRINT "D"', 'PRINT %s' % u]), {'n1': I(0, 12)}, after=['PRINT "K"', '%s=3' % u, 'PRINT A(3)', 'PRINT A(3,3)'])
    g.prog('count3', num(['DIM A(1,{n1},2)', 'PRINT "D"']), {'n1': I(0, 4)}, after=['PRINT "K"', 'A(1)=2:PRINT A(1)'])
    g.prog('count3-auto', num(['PRINT A(1,{n1},2)']), {'n1': I(0, 4)}, after=['PRINT "K"', 'A(1)=2:PRINT A(1)'])
    # errors leave other arrays and cells alone; re-DIM clears
    g.prog('others', num(['DIM A(3),B(3),A$(3),B$(3)', 'FOR I=0 TO 3:A(I)=I:B(I)=I*2:A$(I)=CHR$(65+I):B$(I)=A$(I)+"b":NEXT', 'A({n1})=50:B({n2})=60:A$({n3})="c":B$({n4})="d"']), {'n%d' % k: I(2, 5) for k in (1, 2, 3, 4)}, after=['FOR I=0 TO 3:PRINT A(I);B(I);A$(I);B$(I):NEXT'])
    g.prog('redim', num(['DIM A(3),B(2)', 'A(3)=7:B(1)=5', 'DIM A({n1})', 'PRINT A(0);B(1)', 'PRINT A(3)']), {'n1': I(0, 6)}, after=['PRINT B(1)', 'DIM A(2,2):PRINT A(2,2)', 'PRINT A(1)'])
    g.prog('redim-auto', num(['A({n1})=7:PRINT A({n1})', 'DIM A(12)', 'PRINT A({n1})', 'A(12)=1:PRINT A(12)']), {'n1': I(0, 12)})
    g.prog('redim-s', num(['DIM A$(3):A$({n1})="x"', 'DIM A$({n1})', 'PRINT A$({n1});".";A$(0);"."', 'A$({n1})="y":PRINT A$({n1})']), {'n1': I(0, 3)})
    g.prog('redim-loop', num(['FOR I={n1} TO {n1}+2', 'DIM A(I)', 'A(I)=I:PRINT A(I);A(0)', 'NEXT']), {'n1': I(0, 4)}, after=['PRINT A(I)'])
    g.prog('kinds', num(['DIM A(3),A$(3)', 'A({n1})=1:A$({n1})="s":A=2:A$="t"', 'A({n2})=A({n2})+10:A$({n2})=A$({n2})+"u"', 'PRINT A;A$;A({n1});A$({n1});A({n2});A$({n2})']), {'n1': I(0, 3), 'n2': I(0, 3)})
    # places where a subscripted name may stand
    g.prog('place-read', num(['DIM A(3),A$(3)', 'READ A({n1}),A$({n2}),N,A(N)', 'FOR I=0 TO 3:PRINT A(I);A$(I);".";:NEXT', 'DATA 5,hello,2,9']), {'n1': I(0, 4), 'n2': I(0, 4)}, after=['FOR I=0 TO 3:PRINT A(I);A$(I);".";:NEXT'])
    g.prog('place-input', num(['DIM A(3,1),A$(3)', 'INPUT A({n1},1),A$({n2})', 'FOR I=0 TO 3:PRINT A(I,1);A(I,0);A$(I);".";:NEXT']), {'n1': I(0, 4), 'n2': I(0, 4)}, reply='x,y\n7\n8,z\n', after=['FOR I=0 TO 3:PRINT A(I,1);A(I,0);A$(I);".";:NEXT'])
    g.prog('place-line', num(['DIM A$(3)', 'LINE INPUT A$({n1})', 'FOR I=0 TO 3:PRINT A$(I);".";:NEXT']), {'n1': I(0, 4)}, reply='a,b c\n', after=['FOR I=0 TO 3:PRINT A$(I);".";:NEXT'])
    g.prog('place-nest', num(['DIM A(4):FOR I=0 TO 4:A(I)=4-I:NEXT', 'A(A({n1}))=A(A(A({n1})))+10', 'FOR I=0 TO 4:PRINT A(I);:NEXT', 'A(A({n1})-2)=A({n1}):PRINT A({n1})']), {'n1': I(0, 4)}, after=['FOR I=0 TO 4:PRINT A(I);:NEXT'])
    g.prog('place-expr', num(['DIM A(9):I={n1}', 'A(I+1)=I:A(I*2)=A(I+1)+1', 'FOR K=0 TO 9:PRINT A(K);:NEXT']), {'n1': I(-1, 5)}, after=['FOR K=0 TO 9:PRINT A(K);:NEXT'])
    g.prog('order', num(['DIM A(5,5)', 'A({n1},{n2})=1:PRINT A({n2},{n1});A({n1},{n2})', 'B$({n1},{n2})="x":PRINT B$({n2},{n1});".";B$({n1},{n2})']), {'n1': I(0, 5), 'n2': I(0, 5)})
    g.imm('immediate', ['DIM A({n1})', 'A({n2})=5', 'PRINT A({n2});A(0)', 'DIM A(3,{n1})', 'A(3,{n2})=6', 'PRINT A(3,{n2});A(0,0)', 'CLEAR', 'PRINT A(3,1)', 'A({n2}+8)=1', 'PRINT A(10)'], {'n1': I(0, 4), 'n2': I(0, 5)})

def c05(g):
    deep = g.deep
    al = Bt(65, 122, '[\\]^_`'); an = pick('ABCXYZabcxyz0159$(') 
    an = pick('0123456789' + 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
    g.prog('letter-letter', num(['{b1}=5:{b2}=6', 'PRINT {b1};{b2}', '{b1}=7:PRINT {b1};{b2};Q']), {'b1': al if g.deep else pick('abmyzABMYZ'), 'b2': al})
    g.prog('letter-case', num(['Q=1:q$="s":Q(2)=3:q$(2)="t"', 'PRINT {b1};{b1}$;{b1}(2);{b1}$(2)', '{b1}=9:PRINT Q;q$']), {'b1': al})
    sm = pick('ABabZz09') if not deep else an
    g.prog('two-two', num(['X{b1}=5:X{b2}=6', 'PRINT X{b1};X{b2};X;x{b1};x{b2}']), {'b1': an, 'b2': sm})
    g.prog('two-dollar', num(['Y{b1}$="p":Y{b2}$="q"', 'PRINT Y{b1}$;Y{b2}$;Y$;y{b1}$']), {'b1': (an if g.deep else pick('aAbByYzZ0159kK')), 'b2': sm})
    g.prog('three', num(['XY{b1}=5:X{b2}Z=6', 'PRINT XY{b1};X{b2}Z;XYZ;xyz']), {'b1': an if g.deep else pick('aAyYzZ059bB'), 'b2': an if g.deep else pick('yYzZ09m')})
    g.prog('prefix', num(['ALPHA=1:ALPHA{b1}=2:ALPH=3', 'PRINT ALPHA;ALPHA{b1};ALPH;alpha;alpha{b1}']), {'b1': an})
    for L in (20, 60, 100, 124, 125, 126, 127):
        b = 'L' + 'a' * (L - 2)
        g.file('long', ['10 %s{b1}=5' % b, '20 %s{b2}=6' % b, '30 PRINT %s{b1}' % b, '40 PRINT %s{b2}' % b], {'b1': pick('abAB09'), 'b2': pick('abAB09')})
        g.file('long-first', ['10 {b1}%s=5' % b, '20 {b2}%s=6' % b, '30 PRINT {b1}%s' % b, '40 PRINT {b2}%s' % b], {'b1': pick('abABzZ'), 'b2': pick('abABzZ')})
        g.file('long-s', ['10 %s{b1}$="x"' % b, '20 %s{b2}$="y"' % b, '30 PRINT %s{b1}$' % b, '40 PRINT %s{b2}$' % b], {'b1': pick('abAB09'), 'b2': pick('abAB09')})
    g.prog('kinds-name', num(['{b1}={n1}:{b1}$="s"', 'DIM {b1}(5),{b1}$(5)', '{b1}(3)=3:{b1}$(3)="t"', 'PRINT {b1};{b1}$;{b1}(3);{b1}$(3)', '{b1}={b1}+1:{b1}$={b1}$+"u":{b1}(3)={b1}(3)*2:{b1}$(3)={b1}$(3)+"v"', 'PRINT {b1};{b1}$;{b1}(3);{b1}$(3)']), {'b1': al if g.deep else pick('abnxzABNXZ'), 'n1': I(0, 9)})
    g.prog('def-kinds', num(['FN=1:FN$="s":DEF FNX(Y)=Y+1:DEF FNX$(Y)="q"+STR$(Y)', 'FNX={n1}:FNX$="p"', 'PRINT FNX;FNX$;FNX(2);FNX$(3);fnx(4);Fn']), {'n1': I(0, 9)})
    g.prog('unset', num(['PRINT {b1};"[";{b1}$;"]";{b1}(1);"[";{b1}$(1);"]"', '{b1}={b1}+1:{b1}$={b1}$+"a"', 'PRINT {b1};{b1}$;{b1}(1);{b1}$(1)']), {'b1': al}, after=['PRINT {b1};{b1}$', 'PRINT Zed;Zed$'])
    # names that look like keywords or functions
    for w in ['IFX', 'FORT', 'TOP', 'PRINTER', 'LETTER', 'DATABASE', 'REMARK', 'ENDING', 'ORB', 'ANDY', 'NOTE', 'ONE', 'STEPS', 'GOTOX', 'RNDX', 'LENS', 'ABSX', 'SIN2', 'TABX', 'SPCA', 'FNA', 'INTX', 'NEXTA', 'STOPS']:
        g.prog('like-' + w, num(['%s={n1}:%s$="s"' % (w, w), 'PRINT %s;%s$;%s' % (w.lower(), w.title(), w), '%s(3)=%s+1:PRINT %s(3);%s' % (w, w, w, w)]), {'n1': I(-9, 99)})
    # many names at once
    n = 60 if not deep else 300
    ls = []
    names = ['N%d' % i for i in range(n)]
    for i in range(0, n, 5): ls.append(':'.join('%s=%d' % (names[j], j + 1) for j in range(i, i + 5)))
    ls.append('N{b1}{b2}=777')
    for i in range(0, n, 10): ls.append('PRINT ' + ';'.join(x.lower() for x in names[i:i + 10]))
    ls.append('PRINT N{b1}{b2}')
    g.prog('many', num(ls), {'b1': pick('0123456789'), 'b2': pick('0123456789')})
    # two-letter names against all one- and two-letter names
    import string
    ls = []
    for c in 'AMZ':
        ls.append(':'.join('%s%s=%d' % (c, d, ord(d)) for d in string.ascii_uppercase[:9]))
        ls.append(':'.join('%s%s$="%s"' % (c, d, d) for d in string.ascii_uppercase[:7]))
    ls += ['{b1}{b2}=1000:{b1}{b2}$="!"'] + ['PRINT ' + ';'.join('%s%s;%s%s$' % (c, d, c, d) for d in string.ascii_uppercase[:7]) for c in 'AMZ']
    g.prog('pairs', num(ls), {'b1': pick('AMZamzQ'), 'b2': pick('ABCDEFGHIabcq')})
    # names across immediate mode, DEF parameters, FOR, READ, INPUT
    g.imm('immediate', ['{b1}x=3', '{b1}X$="t"', 'PRINT {b1}x;{b1}X;{b1}x$', '10 {b1}X={b1}x+1:PRINT {b1}X', 'RUN', 'PRINT {b1}x', 'GOTO 10' if 0 else 'PRINT Ax;ax'], {'b1': al})
    g.prog('forms', num(['FOR {b1}=1 TO 2:PRINT {b1};Q:NEXT {b1}', 'READ {b1}$:PRINT {b1}$;Q$', 'DEF FNA({b1})={b1}+Q:PRINT FNA(3);{b1};Q', 'INPUT {b1}:PRINT {b1};Q', 'DATA zz']), {'b1': al}, reply='5\n')
    if deep:
        a2 = pick('ABYZabyz0189'); f = pick('AZaz')
        g.prog('cross', num(['{b1}{b2}=5:{b3}{b4}=6', 'PRINT {b1}{b2};{b3}{b4}']), {'b1': f, 'b2': a2, 'b3': f, 'b4': a2})
        g.prog('cross3', num(['{b1}{b2}{b3}=5:A{b4}B=6', 'PRINT {b1}{b2}{b3};A{b4}B']), {'b1': pick('Aa'), 'b2': a2, 'b3': a2, 'b4': a2})

def c06(g):
    deep = g.deep
    b = 'PRINT I;:C=C+1:IF C>9 THEN STOP'
    h = 3 if not deep else 5
    g.prog('for', num(['FOR I={n1} TO {n2}', b, 'NEXT I', 'PRINT "E";I']), {'n1': I(-h, h), 'n2': I(-h, h)}, after=['PRINT I;C'])
    for st in (1, 2, 3, -1, -2, 0.5, -0.5, 1.5, 0):
        g.prog('step', num(['FOR I={n1} TO {n2} STEP %s' % st, b, 'NEXT', 'PRINT "E";I']), {'n1': I(-2, 2), 'n2': I(-2, 2)}, after=['PRINT I;C', 'CONT'])
    g.prog('step-sym', num(['FOR I=0 TO {n1} STEP {n2}', b, 'NEXT', 'PRINT "E";I']), {'n1': I(-3, 3), 'n2': I(-2, 2)}, after=['PRINT I;C'])
    g.prog('step-half', num(['FOR I={n1} TO 1 STEP {n2}', b, 'NEXT', 'PRINT "E";I']), {'n1': H(-1, 2), 'n2': H(-1, 1)}, after=['PRINT I;C'])
    g.prog('real', num(['FOR I={n1} TO {n1}+{n2} STEP {n2}', b, 'NEXT', 'PRINT "E";I']), {'n1': I(-5, 5), 'n2': I(1, 1000)}, after=['PRINT I;C'])
    g.prog('once', num(['FOR I={n1} TO {n2} STEP {n3}', 'PRINT I:C=C+1:IF C=2 THEN END', 'NEXT', 'PRINT "E";I']), {'n1': S(1000), 'n2': S(1000), 'n3': S(1000)}, after=['PRINT I;C'])
    # bounds and step evaluated once; the variable may be changed in the body
    g.prog('eval-once', num(['A={n1}:B={n2}:S={n3}', 'FOR I=A TO B STEP S', 'A=5:B=9:S=7:PRINT I;:C=C+1:IF C>9 THEN STOP', 'NEXT', 'PRINT I;A;B;S']), {'n1': I(-1, 2), 'n2': I(0, 3), 'n3': I(1, 2)}, after=['PRINT I;C'])
    g.prog('own-bounds', num(['I={n1}', 'FOR I=I+1 TO I+3', b, 'NEXT', 'PRINT "E";I']), {'n1': I(-3, 3)}, after=['PRINT I;C'])
    g.prog('modify', num(['FOR I={n1} TO 4', 'PRINT I;:C=C+1:IF C>9 THEN STOP', 'I=I+{n2}', 'NEXT', 'PRINT "E";I']), {'n1': I(0, 3), 'n2': I(0, 3)}, after=['PRINT I;C'])
    g.prog('exit', num(['FOR I=0 TO 3', 'IF I={n1} THEN 50', 'NEXT I', 'PRINT "DONE"', 'PRINT I']), {'n1': I(-1, 4)}, after=['PRINT I', 'NEXT'])
    # nesting, NEXT lists, wrong NEXT
    n4 = {'n1': I(0, 2), 'n2': I(0, 2)}
    bb = 'PRINT I;J:C=C+1:IF C>12 THEN STOP'
    for nx in ('NEXT:NEXT', 'NEXT J:NEXT I', 'NEXT J,I', 'NEXT I', 'NEXT I:NEXT J', 'NEXT I,J', 'NEXT:NEXT I', 'NEXT J:NEXT', 'NEXT K', 'NEXT J,K', 'NEXT J,I,K', 'NEXT J,J', 'NEXT:NEXT:NEXT', 'NEXT K,J'):
        g.prog('nest', num(['FOR I=1 TO {n1}', 'FOR J=1 TO {n2}', bb, nx, 'PRINT "E";I;J']), n4, after=['PRINT I;J;C', 'NEXT', 'PRINT I;J'])
    g.prog('nest3', num(['FOR I=0 TO {n1}:FOR J=I TO {n2}:FOR K=J TO 0 STEP -1', 'PRINT I;J;K:C=C+1:IF C>20 THEN STOP', 'NEXT K,J,I', 'PRINT "E";I;J;K']), n4)
    g.prog('nest-exit', num(['FOR I=1 TO 3', 'FOR J=1 TO 3', 'IF J={n1} THEN 60', 'NEXT J', 'PRINT "J DONE"', 'PRINT I;J:C=C+1:IF C>9 THEN STOP', 'NEXT I', 'PRINT "E";I;J']), {'n1': I(0, 4)}, after=['NEXT J', 'NEXT I', 'PRINT I;J'])
    # restarting the variable of an active loop
    g.prog('restart', num(['FOR I=1 TO 3', 'FOR J=1 TO 2', 'C=C+1:IF C>12 THEN STOP', 'IF C={n1} THEN FOR I=5 TO 6', 'PRINT I;J', 'NEXT', 'NEXT', 'PRINT "E";I;J']), {'n1': I(0, 5)}, after=['PRINT I;J;C', 'NEXT', 'PRINT I;J'])
    g.prog('restart2', num(['FOR I=1 TO 2', 'PRINT I;:C=C+1', 'IF C={n1} THEN 10', 'NEXT I', 'PRINT C']), {'n1': I(0, 4)}, after=['NEXT'])
    g.prog('restart-order', num(['FOR I=1 TO 2:FOR J=1 TO 2:FOR K=1 TO 2', 'D=D+1:IF D={n1} THEN FOR J=8 TO 9', 'PRINT I;J;K:C=C+1:IF C>12 THEN STOP', 'NEXT:NEXT:NEXT', 'PRINT "E"']), {'n1': I(0, 3)}, after=['PRINT I;J;K;C'])
    g.prog('many-restarts', num(['C=C+1', 'FOR I=1 TO 5', 'IF C<{n1} THEN 10', 'NEXT', 'PRINT C;I']), {'n1': I(1, 12)})
    # depth: the 9th open loop is refused
    for vs in ('ABCDEFGH', 'ABCDEFGHI'):
        o = ['FOR %s=1 TO %s' % (v, '{n1}' if v == vs[-1] else 1) for v in vs]
        g.prog('depth', num(o + ['PRINT "IN";%s' % vs[-1]] + ['NEXT %s' % v for v in reversed(vs)] + ['PRINT "E"']), {'n1': I(0, 2)}, after=['PRINT ' + ';'.join(vs), 'NEXT', 'PRINT ' + ';'.join(vs)])
    g.prog('depth-line', num(['FOR A=1 TO 1:FOR B=1 TO 1:FOR C=1 TO 1:FOR D=1 TO 1', 'FOR E=1 TO 1:FOR F=1 TO 1:FOR G=1 TO 1:FOR H=1 TO {n1}', 'PRINT H', 'FOR {b1}=1 TO 2:PRINT {b1}', 'NEXT:NEXT', 'PRINT "E"']), {'n1': I(0, 2), 'b1': pick('AHIah')}, after=['NEXT A', 'NEXT B'])
    # loops and subroutines, loops on one line, through IF
    g.prog('gosub', num(['FOR I=1 TO {n1}', 'GOSUB 60', 'NEXT I', 'PRINT "E";I:END', '', 'FOR J=1 TO {n2}:PRINT I;J:NEXT J:RETURN']), n4)
    g.prog('sub-next', num(['FOR I=1 TO {n1}', 'GOSUB 50', 'PRINT "X";I:NEXT', 'END', 'C=C+1:IF C>6 THEN STOP', 'NEXT I', 'RETURN']), {'n1': I(0, 3)}, after=['PRINT I;C'])
    g.prog('line', num(['FOR I={n1} TO {n2}:PRINT I;:NEXT:PRINT "M":FOR I={n2} TO {n1} STEP -1:PRINT I;:NEXT:PRINT "E"']), {'n1': I(-2, 2), 'n2': I(-2, 2)})
    g.prog('if-for', num(['IF {n1} THEN FOR I=1 TO 3:PRINT I ELSE FOR I=7 TO 8:PRINT -I', 'C=C+1:IF C<9 THEN NEXT', 'PRINT "E";I']), {'n1': I(0, 1)}, after=['PRINT I'])
    g.prog('if-next', num(['FOR I=1 TO 4', 'IF I={n1} THEN PRINT "T":NEXT ELSE PRINT "F":NEXT', 'PRINT "E";I']), {'n1': I(0, 5)})
    g.prog('no-for', num(['PRINT "A"', 'NEXT{b1}', 'PRINT "B"']), {'b1': pick(' I')}, after=['PRINT "K"', 'NEXT', 'NEXT I'])
    g.imm('immediate', ['FOR I={n1} TO {n2}:PRINT I;:NEXT', 'PRINT I', 'FOR I=1 TO {n2}:FOR J=1 TO 2:PRINT I;J:NEXT:NEXT:PRINT "E"', 'NEXT', 'NEXT I', 'FOR I=1 TO 2', 'PRINT I', 'NEXT', 'PRINT I'], {'n1': I(-1, 2), 'n2': I(0, 2)})
    g.prog('strange-names', num(['FOR Index1={n1} TO 2', 'PRINT INDEX1;', 'NEXT iNDEX1', 'PRINT index1']), {'n1': I(0, 3)})
    g.prog('sum', num(['S=0:P=1', 'FOR I={n1} TO {n2}:S=S+I:P=P*2:NEXT', 'PRINT S;P;I']), {'n1': I(0, 3), 'n2': I(0, 5)})
    g.prog('cells', num(['DIM I(3):I=9', 'FOR I=0 TO 3:I(I)=I*{n1}:NEXT', 'FOR J=3 TO 0 STEP -1:PRINT I(J);:NEXT:PRINT I']), {'n1': I(-9, 9)})
    g.prog('string-var', num(['FOR I$=1 TO 2', 'NEXT']), {})
    g.prog('inf', num(['FOR I=1 TO 3 STEP 0', 'C=C+1:IF C={n1} THEN END', 'NEXT']), {'n1': I(1, 8)}, after=['PRINT I;C'])
    g.prog('trace', num(['FOR I={n1} TO 2', 'FOR J=1 TO 2', 'PRINT I;J', 'NEXT J,I']), {'n1': I(0, 2)}, args=['-q', '-f'])

def c07(g):
    deep = g.deep
    pr = ['10 PRINT "A"', '20 GOTO {b1}{b2}', '30 PRINT "B":END', '40 PRINT "C":END', '50 PRINT "D":END', '55 PRINT "E":END', '9 PRINT "Z":END']
    d = pick('0123456789')
    g.prog('goto', pr, {'b1': d, 'b2': d}, after=['PRINT "K"'])
    g.prog('goto-n', ['10 GOTO {n1}', '11 PRINT 11:END', '65535 PRINT 65535:END', '100 PRINT 100:END'], {'n1': I(11, 101)}, after=['PRINT "K"'], maxsteps=2000000)
    g.prog('goto-any', ['5 PRINT "S"', '10 GOTO {n1}', '15 PRINT 15:END', '16 PRINT 16:END', '300 PRINT 300:END', '65535 PRINT 65535:END', '70000 PRINT 70000:END'], {'n1': I(11, 4294967294)}, after=['PRINT "K"'])
    g.prog('goto-frac', ['10 PRINT "S":GOTO {n1}', '15 PRINT 15:END', '16 PRINT 16:END'], {'n1': H(11, 17)}, after=['PRINT "K"'])
    g.prog('goto-wide', ['10 PRINT "S":GOTO {n1}', '15 PRINT 15:END', '1000 PRINT 16:END'], {'n1': ('d', 11, 1e12)}, after=['PRINT "K"'], maxsteps=3000000)
    g.prog('goto-mid', num(['PRINT "A":GOTO {b1}0:PRINT "NO"', 'PRINT "B":END', 'PRINT "C":GOTO 20:PRINT "NO"', 'PRINT "D"']), {'b1': pick('2345')}, after=['PRINT "K"'])
    g.prog('gosub', num(['PRINT "A":GOSUB {b1}0:PRINT "B"', 'PRINT "C":END', 'PRINT "D":RETURN:PRINT "NO"', 'PRINT "E":GOSUB 30:PRINT "F":RETURN', 'PRINT "G"']), {'b1': pick('234567')}, after=['PRINT "K"', 'RETURN'])
    for body in ('GOSUB 100', 'A=1:GOSUB 100:PRINT A', 'GOSUB 100:GOSUB 100:PRINT "X"', 'IF {n1} THEN GOSUB 100:PRINT "T" ELSE PRINT "F":GOSUB 100', 'IF {n1} THEN PRINT "T":GOSUB 100', 'FOR I=1 TO 2:GOSUB 100:NEXT', 'GOSUB 100:REM x', 'IF {n1} THEN IF 1 THEN GOSUB 100 ELSE PRINT "E"', 'IF 1 THEN IF {n1} THEN GOSUB 100:PRINT 1 ELSE GOSUB 110:PRINT 2', 'ON {n1}+1 GOSUB 100,110:PRINT "Z"', 'ON {n1} GOSUB 100', 'PRINT "a";:GOSUB 110:PRINT "b"'):
        g.prog('return-to', ['10 %s' % body, '20 PRINT "NEXT"', '30 END', '100 PRINT "S";', '110 PRINT "R";:RETURN'], {'n1': I(0, 1)}, after=['RETURN', 'PRINT "K"'])
        g.imm('return-imm', ['100 PRINT "S";', '110 PRINT "R";:RETURN', body, 'PRINT "K"', 'RETURN'], {'n1': I(0, 1)})
    # ON
    x = I(-3, 6)
    g.prog('on-goto', num(['X={n1}:PRINT "A"', 'ON X GOTO 40,50,60:PRINT "FALL"', 'PRINT "NEXT":END', 'PRINT 1:END', 'PRINT 2:END', 'PRINT 3:END']), {'n1': x}, after=['PRINT X'])
    g.prog('on-gosub', num(['X={n1}:PRINT "A"', 'ON X GOSUB 40,50,60:PRINT "BACK"', 'PRINT "NEXT":END', 'PRINT 1:RETURN', 'PRINT 2:RETURN', 'PRINT 3:RETURN']), {'n1': x}, after=['PRINT X', 'RETURN'])
    for kw in ('GOTO', 'GOSUB'):
        g.prog('on-half', num(['X={n1}:PRINT "A"', 'ON X %s 40,50:PRINT "FALL"' % kw, 'END', 'PRINT 1:END', 'PRINT 2:END']), {'n1': H(-2, 4)}, after=['PRINT X'])
        g.prog('on-real', num(['X={n1}:PRINT "A"', 'ON X %s 40,50:PRINT "FALL"' % kw, 'END', 'PRINT 1:END', 'PRINT 2:END']), {'n1': S(1e15)}, after=['PRINT X'])
        g.prog('on-wide', num(['X={n1}:PRINT "A"', 'ON X %s 40,50:PRINT "FALL"' % kw, 'END', 'PRINT 1:END', 'PRINT 2:END']), {'n1': I(-4294967300, 4294967300)}, after=['PRINT X'])
        g.prog('on-missing', num(['X={n1}:PRINT "A"', 'ON X %s 40,55,50:PRINT "FALL"' % kw, 'END', 'PRINT 1:END', 'PRINT 2:END']), {'n1': I(0, 4)}, after=['PRINT X', 'RETURN'])
        g.prog('on-one', num(['ON {n1} %s 30' % kw, 'PRINT "FALL":END', 'PRINT "ONE":RETURN']), {'n1': I(-1, 2)}, after=['RETURN'])
        g.prog('on-many', num(['ON {n1} %s 30,40,50,30,40,50,30,40,50,60' % kw, 'PRINT "FALL":END', 'PRINT 3:END', 'PRINT 4:END', 'PRINT 5:END', 'PRINT 6:END']), {'n1': I(-1, 12)})
        g.prog('on-expr', num(['A={n1}:ON A*2-1 %s 30,40,50:PRINT "FALL"' % kw, 'END', 'PRINT 3:END', 'PRINT 4:END', 'PRINT 5:END']), {'n1': I(-1, 3)})
        g.prog('on-if', num(['IF {n1}>1 THEN ON {n1} %s 30,40:PRINT "F" ELSE PRINT "E"' % kw, 'END', 'PRINT 3:RETURN', 'PRINT 4:RETURN']), {'n1': I(0, 3)}, after=['RETURN'])
    # depth of GOSUB
    for k in (7, 8, 9):
        g.prog('depth', num(['N=N+1:IF N<%d+{n1} THEN GOSUB 10:PRINT "R";N:RETURN' % k, 'PRINT "E";N', 'RETURN']), {'n1': I(0, 1)}, after=['PRINT N', 'RETURN', 'PRINT "K"'])
    g.prog('no-return', num(['PRINT "A":IF {n1} THEN RETURN ELSE PRINT "B"', 'RETURN']), {'n1': I(0, 1)}, after=['PRINT "K"'])
    g.prog('return-twice', num(['GOSUB 30:PRINT "A"', 'IF {n1} THEN END ELSE RETURN', 'PRINT "S":RETURN']), {'n1': I(0, 1)}, after=['RETURN'])
    g.prog('missing-keeps', num(['A=5:PRINT "A":GOSUB {b1}5:A=6', 'END', 'PRINT 35', '', 'RETURN']), {'b1': pick('23')}, after=['PRINT A', 'RETURN', 'PRINT A'])
    # line numbers that a hash of the number could confuse: equal modulo small and large table sizes
    for m in (397, 256, 79, 64, 1000, 65536, 10007):
        k = [m * j + 10 for j in range(1, 9)]
        ls = ['%d PRINT %d:RETURN' % (x, x) for x in k]
        import random; random.Random(m).shuffle(ls)
        g.prog('collide', ['1 A=%d*{n1}+10' % m, '2 ON {n1} GOSUB %s' % ','.join(map(str, k)), '3 PRINT "B"', '4 END'] + ls, {'n1': I(0, 9)}, after=['PRINT A', 'RETURN'])
        g.prog('collide-del', ['2 ON {n1} GOTO %s' % ','.join(map(str, k)), '3 PRINT "B"', '4 END'] + ls, {'n1': I(0, 9)}, before=[], after=[str(k[3]), 'GOSUB %d' % k[4], 'GOSUB %d' % k[0], 'GOSUB %d' % k[7], '%d PRINT "NEW":RETURN' % k[3], 'GOSUB %d' % k[3], 'RUN'])
        g.prog('collide-n', ls + ['2 GOSUB {n1}', '3 PRINT "B"', '4 END'], {'n1': I(k[4] - 2, k[4] + 2)}, after=['RETURN'])
    # lines present at the edges of the program and after edits
    g.prog('edges', ['1 PRINT 1:IF C=0 THEN C=1:GOTO {b1}', '2 PRINT 2:IF C=1 THEN C=2:GOTO 1', '9 PRINT 9'], {'b1': d}, after=['PRINT C'])
    g.prog('find', ['%d PRINT %d:END' % (k, k) for k in (12, 14, 20, 21, 35, 99)] + ['1 GOTO {b1}{b2}'], {'b1': pick('123456789'), 'b2': d})
    g.prog('find-sub', ['%d PRINT %d:RETURN' % (k, k) for k in (12, 14, 20, 21, 35, 99)] + ['1 GOSUB {b1}{b2}:PRINT "B"', '2 END'], {'b1': pick('123456789'), 'b2': d})
    g.prog('find3', ['%d PRINT %d:END' % (k, k) for k in (100, 101, 110, 111, 200, 255, 256, 257)] + ['1 GOTO {b1}{b2}{b3}'], {'b1': pick('123'), 'b2': pick('0159'), 'b3': pick('0156789')})
    g.imm('goto-imm', ['10 PRINT "T":A=A+1', '20 PRINT A:END', '30 PRINT "Z"', 'A=5', 'GOTO {b1}0:PRINT "NO"', 'PRINT A', 'GOSUB {b1}0', 'ON {b1} GOTO 10,20,30', 'PRINT "K"'], {'b1': pick('1234')})
    g.prog('goto-loop', num(['A=A+1:PRINT A', 'IF A<{n1} THEN GOTO 10', 'GOTO {b1}0', 'PRINT "E"']), {'n1': I(0, 5), 'b1': pick('4')})
    g.prog('then-line', num(['IF {n1} THEN {b1}0', 'PRINT 2:END', 'PRINT 3:END', 'PRINT 4:END']), {'n1': I(0, 1), 'b1': pick('2345')})
    g.prog('skip-data', num(['GOTO {b1}0', 'DATA 1', 'REM x', 'PRINT 4', 'DEF FNA(X)=X:PRINT FNA(1)']), {'b1': pick('23456')})
    g.prog('mixed', num(['FOR I=1 TO 2:ON I+{n1} GOSUB 50,60:PRINT "L";I:NEXT', 'GOTO 40', 'PRINT "NO"', 'END', 'PRINT "S1":RETURN', 'PRINT "S2":IF I=2 THEN RETURN', 'PRINT "S3":RETURN']), {'n1': I(-2, 2)})

def c08(g):
    deep = g.deep
    c = {'n1': I(-1, 2)}
    c2 = {'n1': I(0, 1), 'n2': I(0, 1)}
    c3 = {'n1': I(0, 1), 'n2': I(0, 1), 'n3': I(0, 1)}
    forms = ['IF A THEN PRINT 1', 'IF A THEN PRINT 1 ELSE PRINT 2', 'IF A THEN PRINT 1:PRINT 2', 'IF A THEN PRINT 1:PRINT 2 ELSE PRINT 3:PRINT 4', 'IF A THEN 100', 'IF A THEN 100 ELSE 110', 'IF A THEN 100:PRINT 1', 'IF A THEN 100 ELSE 110:PRINT 1', 'IF A THEN GOTO 100', 'IF A THEN GOTO 100 ELSE GOTO 110', 'IF A THEN PRINT 1:GOTO 100 ELSE PRINT 2:GOTO 110', 'IF A THEN X=1:Y=2 ELSE X=3', 'IF A THEN X=1 ELSE X=3:Y=4', 'IF A THEN GOSUB 120:PRINT 1 ELSE PRINT 2:GOSUB 120:PRINT 3', 'PRINT 0:IF A THEN PRINT 1 ELSE PRINT 2', 'X=5:IF A THEN X=X+1:PRINT X ELSE X=X-1', 'IF A THEN END ELSE PRINT 2', 'IF A THEN PRINT 1 ELSE END', 'IF A THEN STOP:PRINT 1 ELSE PRINT 2:STOP:PRINT 3', 'IF A THEN REM x ELSE PRINT 2', 'IF A THEN PRINT 1 ELSE REM y', 'IF A THEN FOR I=1 TO 2:PRINT I:NEXT ELSE PRINT 9', 'IF A THEN ON A GOTO 100,110 ELSE PRINT 2', 'FOR I=0 TO 1:IF I=A THEN PRINT "T" ELSE PRINT "F":NEXT', 'FOR I=0 TO 1:IF I=A THEN PRINT "T":NEXT', 'GOSUB 120:IF A THEN PRINT 1 ELSE PRINT 2', 'IF A THEN PRINT "a:b ELSE c" ELSE PRINT "THEN"', 'IF A THEN READ X ELSE READ Y', 'IF A THEN INPUT X ELSE PRINT "NI"', 'IF A THEN RETURN ELSE PRINT "NR"', 'IF A THEN PRINT 1; ELSE PRINT 2,', 'IF A THEN ? 1 ELSE ? 2', 'IF A THEN X$="p" ELSE X$="q"', 'IF A THEN DATA 5 ELSE PRINT 2', 'IF A THEN :PRINT 1', 'IF A THEN PRINT 1: ELSE PRINT 2', 'IF A THEN PRINT 1 ELSE :PRINT 2', 'IF A THEN ELSE PRINT 2', 'IF A THEN PRINT 1 ELSE', 'IF A THEN', 'IF A THEN 100 ELSE PRINT 2', 'IF A THEN PRINT 1 ELSE 110', 'IF A GOTO 100', 'IF A THEN 105', 'IF A THEN 100 ELSE 105', 'IF A THEN DIM Q(3):Q(3)=1:PRINT Q(3) ELSE PRINT Q(3)', 'IF A THEN DEF FNA(X)=X+1 ELSE DEF FNA(X)=X+2', 'IF A THEN RESTORE:READ Z ELSE CLEAR', 'IF A THEN LET X=7 ELSE LET X=8']
    tail = ['20 PRINT "N";X;Y;X$', '30 END', '40 DATA 41,42', '100 PRINT "L100":END', '110 PRINT "L110":END', '120 PRINT "SUB":RETURN']
    for i, f in enumerate(forms):
        g.prog('form-%02d' % i, ['5 A={n1}', '10 ' + f] + tail, c, reply='7\n' if 'INPUT' in f else '', after=['PRINT "K";X;Y;X$;Z'])
        if deep or i % 3 == 0: g.imm('form-imm-%02d' % i, ['A={n1}'] + tail + [f] + (['7'] if 'INPUT' in f else []) + ['PRINT "K";X;Y;X$'], c)
    nests = ['IF A THEN IF B THEN PRINT 1', 'IF A THEN IF B THEN PRINT 1 ELSE PRINT 2', 'IF A THEN PRINT 0:IF B THEN PRINT 1 ELSE PRINT 2', 'IF A THEN IF B THEN PRINT 1:PRINT 2 ELSE PRINT 3:PRINT 4', 'IF A THEN PRINT 1 ELSE IF B THEN PRINT 2 ELSE PRINT 3', 'IF A THEN PRINT 1 ELSE IF B THEN PRINT 2', 'IF A THEN IF B THEN PRINT 1 ELSE PRINT 2 ELSE PRINT 3', 'IF A THEN PRINT 1 ELSE PRINT 9:IF B THEN PRINT 2:PRINT 3 ELSE PRINT 4:PRINT 5', 'IF A THEN IF B THEN 100 ELSE 110', 'IF A THEN 100 ELSE IF B THEN 110 ELSE PRINT 3' if 0 else 'IF A THEN GOTO 100 ELSE IF B THEN 110', 'IF A THEN PRINT 1:IF B THEN 100', 'IF A THEN IF B THEN 100 ELSE PRINT 2', 'IF A THEN PRINT 1 ELSE IF B THEN 100 ELSE 110', 'IF A THEN PRINT 1 ELSE PRINT 2:IF B THEN PRINT 3', 'IF A THEN GOSUB 120:IF B THEN GOSUB 120:PRINT 1 ELSE PRINT 2', 'IF A AND B THEN PRINT 1 ELSE IF A OR B THEN PRINT 2 ELSE PRINT 3', 'FOR I=0 TO 1:IF I=A THEN IF B THEN PRINT 1:NEXT ELSE PRINT 2:NEXT', 'IF A THEN X=1:IF B THEN X=2 ELSE X=3']
    for i, f in enumerate(nests):
        g.prog('nest-%02d' % i, ['5 A={n1}:B={n2}', '10 ' + f] + tail, c2, after=['PRINT "K";X'])
    n3 = ['IF A THEN IF B THEN IF C THEN PRINT 1 ELSE PRINT 2', 'IF A THEN PRINT 1 ELSE IF B THEN PRINT 2 ELSE IF C THEN PRINT 3 ELSE PRINT 4', 'IF A THEN PRINT 1:IF B THEN PRINT 2:IF C THEN PRINT 3:PRINT 4', 'IF A THEN IF B THEN PRINT 1 ELSE IF C THEN PRINT 2 ELSE PRINT 3', 'IF A THEN PRINT 1 ELSE PRINT 2:IF B THEN PRINT 3:IF C THEN PRINT 4 ELSE PRINT 5', 'IF A THEN IF B THEN 100 ELSE IF C THEN 110' if 0 else 'IF A THEN IF B THEN PRINT 1:GOTO 100 ELSE IF C THEN 110 ELSE 100', 'IF A THEN PRINT 1 ELSE IF B THEN PRINT 2 ELSE IF C THEN 100', 'IF A THEN IF B THEN IF C THEN 100', 'IF A THEN X=1 ELSE IF B THEN X=2:IF C THEN X=3 ELSE X=4']
    for i, f in enumerate(n3):
        g.prog('nest3-%02d' % i, ['5 A={n1}:B={n2}:C={n3}', '10 ' + f] + tail, c3, after=['PRINT "K";X'])
    # conditions of every kind
    g.prog('cond-real', num(['A={n1}', 'IF A THEN PRINT "T" ELSE PRINT "F"', 'IF NOT A=0 THEN PRINT "T2"', 'IF A THEN 50 ELSE 60', 'PRINT 50:END', 'PRINT 60']), {'n1': S(1e300)})
    g.prog('cond-small', num(['A={n1}/1E300', 'IF A THEN PRINT "T" ELSE PRINT "F"', 'IF -A THEN PRINT "T" ELSE PRINT "F"', 'IF A/1E300 THEN PRINT "T" ELSE PRINT "F"']), {'n1': I(-2, 2)})
    g.prog('cond-nan', num(['A={n1}', 'IF A/A THEN PRINT "T" ELSE PRINT "F"', 'IF A/0 THEN PRINT "T" ELSE PRINT "F"']), {'n1': I(-1, 1)})
    g.prog('cond-str', num(['IF "{b1}"="x" THEN PRINT "T" ELSE PRINT "F"', 'IF "{b1}"<"m" THEN 40', 'PRINT "GE":END', 'PRINT "LT"']), {'b1': Bt(32, 126, '"')})
    g.prog('cond-logic', num(['IF A<{n1} AND B<{n2} THEN PRINT 1 ELSE PRINT 2', 'IF A<{n1} OR B<{n2} THEN PRINT 3', 'IF NOT (A<{n1}) THEN 50', 'PRINT 4', 'PRINT 5']), {'n1': I(-1, 1), 'n2': I(-1, 1)})
    g.prog('cond-half', num(['IF {n1} THEN PRINT 1 ELSE PRINT 2', 'IF ({n1}) THEN 40', 'PRINT "Z"', 'PRINT "Y"']), {'n1': H(0, 2)})
    g.prog('chain', num(['FOR I={n1} TO {n1}+2', 'IF I=1 THEN PRINT "one" ELSE IF I=2 THEN PRINT "two" ELSE IF I=3 THEN PRINT "three" ELSE PRINT "other"', 'NEXT']), {'n1': I(-1, 3)})
    g.prog('last-line', num(['IF {n1} THEN PRINT "T" ELSE PRINT "F"']), c)
    g.prog('last-line2', num(['IF {n1} THEN PRINT "T"']), c)
    g.prog('last-goto', num(['IF {n1}=0 THEN 30', 'PRINT "X":END', 'IF {n1} THEN 10']), c)
    g.file('file', ['10 A={n1}:PRINT "S":IF A THEN PRINT 1:IF A>1 THEN PRINT 2 ELSE PRINT 3', '20 IF A THEN 40 ELSE 30', '30 PRINT 30', '40 PRINT 40'], c)
