"""Sizes, repetition and address reuse: the same rules beyond the counts at which tables grow, numbers widen, buffers fill
or caches hold, each with a symbolic position or value."""
from .gen import *

def big(n, step=10, t='REM %d'): return ['%d %s' % (k * step, t % k if '%' in t else t) for k in range(1, n + 1)]
NS = (17, 33, 65, 66, 100, 103, 127, 128, 129, 130)
NSD = NS + (200, 256, 257, 300)

def c01(g):
    # constants of every magnitude, in every form, and what arithmetic makes of them
    big_ = ['4.9E-324', '1E-323', '2.2250738585072014E-308', '2E-308', '1E-305', '1E-300', '1E-290', '1E-200', '1E-100', '1E-39', '1.2E-38', '1E-20', '1.1920929E-7', '2.220446049250313E-16', '16777217', '2147483647', '2147483648', '4294967295', '4294967296', '9007199254740991', '9007199254740992', '9007199254740993', '123456789012345678', '18446744073709551616', '3.4E38', '1E39', '1E100', '1E200', '1E300', '1.7976931348623157E308', '1E309', '0.1', '.3333333333333333', '.1234567890123456789', '00012', '0.000', '1E+5', '1E+05', '12E0', '5.', '.5E1', '1.5E-1']
    for q in big_:
        g.prog('constant', num(['A=%s:B={n1}' % q, 'PRINT A;A>0;A=%s;-A<0;A*B=B*A;A-A=0;A/2*2=A' % q, 'PRINT A*1E300;A/1E300;A*B;A+B-B=A;INT(A)=A', 'IF A THEN PRINT "t" ELSE PRINT "f"', 'C=%s*B:PRINT C;C>%s;SQR(A)*SQR(A)-A<A' % (q, q), 'READ D:PRINT D=A;VAL("%s")=A:DATA %s' % (q, q)]), {'n1': I(1, 4)}, after=['PRINT %s;%s>0' % (q, q), 'IF %s THEN PRINT "t"' % q])
    for o in ('+', '-', '*', '/', '^'):
        for a, b in (((3, 60), (3, 60)), ((1, 999), (41, 49)), ((-70000, 70000), (-3, 3))):
            if o == '^' and b[1] > 9: continue
            for k in range(2):
                h = {'n1': I(*a), 'n2': I(*b)} if k == 0 else {'n1': H(*a), 'n2': I(*b)}
                if o == '^': h['n1'] = I(-5, 5)
                g.prog('exact', num(['A={n1}:B={n2}', 'C=A%sB' % o, 'PRINT C=A%sB;C' % o, 'IF C=INT(C) THEN PRINT "i"', 'PRINT (C-INT(C))*1E6;(C*1E6-INT(C*1E6))']), h)
    for q in (3, 7, 10, 49, 98, 100, 103, 107, 161, 187, 196, 1000, 0.1, 0.3, 1e-9, 1e9, 1e300, 3e-300):
        g.prog('divide', num(['A={n1}', 'C=A/%r' % q, 'PRINT C;C=INT(C);(C-INT(C))*1E8', 'D=%r/A' % q, 'PRINT D;(D*1E8-INT(D*1E8));A*%r/%r=A;%r/%r' % (q, q, q, q)]), {'n1': I(1, 200)})
        g.prog('divide-const', num(['A={n1}', 'PRINT A/%r-A/(%r+B)' % (q, q), 'PRINT A/%r=INT(A/%r)' % (q, q), 'PRINT %s' % ';'.join('%d/%r=%d' % (k * q, q, k) for k in (1, 2, 3, 5)) if q == int(q) else 'REM']), {'n1': I(1, 50)})
    for r in ('=', '<>', '<', '>', '<=', '>='):
        for d in ('1E-10', '1E-13', '1E-15', '1E-16', '1E-17', '0'):
            g.prog('close', num(['A={n1}:B=A+A*%s' % d, 'PRINT A%sB;B%sA' % (r, r), 'IF A%sB THEN PRINT "t" ELSE PRINT "f"' % r, 'PRINT .1+.2%s.3;1/3*3%s1;A/3*3%sA' % (r, r, r)]), {'n1': I(1, 9)})

def c02(g):
    ch = ('b', 33, 126, '",{}')
    for n in (1, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 200, 254):
        for a, b, h in (('CHR$({n1})', 'CHR$({n2})', {'n1': I(1, 255), 'n2': I(1, 255)}), ('CHR$({n1})', '""', {'n1': I(0, 255)}), ('CHR$(200)', 'CHR$({n1})', {'n1': I(60, 210)})):
            g.prog('cmp-far', num(['FOR I=1 TO %d:P$=P$+"a":NEXT' % n, 'A$=P$+%s:B$=P$+%s' % (a, b), 'PRINT A$<B$;A$>B$;A$=B$;A$<>B$;A$<=B$;A$>=B$', 'PRINT LEN(A$);LEN(B$)']), h)
        g.prog('cut-far', num(['FOR I=1 TO %d:P$=P$+CHR$(48+I-INT(I/70)*70):NEXT' % n, 'K={n1}', 'A$=LEFT$(P$,K):B$=RIGHT$(P$,K)', 'PRINT LEN(A$);RIGHT$(A$,2);LEN(B$);LEFT$(B$,2)', 'C$=MID$(P$,1+K,%d):PRINT LEN(C$);LEFT$(C$,2);RIGHT$(C$,2)' % max(1, n // 2), 'D$=MID$(P$,%d,K):PRINT LEN(D$);LEFT$(D$,1);RIGHT$(D$,1)' % max(1, n // 2)]), {'n1': I(max(0, n - 3), n + 1) if n > 8 else I(0, n + 1)})
        if n > 16: g.prog('cut-mid', num(['FOR I=1 TO %d:P$=P$+CHR$(48+I-INT(I/70)*70):NEXT' % n, 'K={n1}', 'A$=LEFT$(P$,K):B$=RIGHT$(P$,K)', 'PRINT LEN(A$);RIGHT$(A$,2);LEN(B$);LEFT$(B$,2)', 'C$=MID$(P$,K,K):PRINT LEN(C$);LEFT$(C$,2);RIGHT$(C$,2)']), {'n1': I(n // 2 - 1, n // 2 + 2)})
        if n < 128: g.prog('cat-far', num(['FOR I=1 TO %d:P$=P$+CHR$(48+I-INT(I/70)*70):NEXT' % n, 'Q$=LEFT$(P$,{n1})', 'A$=P$+Q$:PRINT LEN(A$);MID$(A$,%d,3);A$=P$+Q$' % n, 'A$=Q$+P$+Q$+"x":PRINT LEN(A$);RIGHT$(A$,3);A$=Q$+(P$+Q$)+"x"']), {'n1': I(n - 2 if n > 2 else 0, n)})

def c03(g):
    for a, b in (('', 'CHR$({n1})'), ('CHR$({n1})', ''), ('CHR$({n1})', 'CHR$({n1})'), ('" "', 'CHR$({n1})+" "'), ('CHR$({n1})+"-"', ''), ('', 'CHR$({n1})+"3"'), ('"-"+CHR$({n1})', ''), ('"."+CHR$({n1})', ''), ('', '"."+CHR$({n1})'), ('', '"E"+CHR$({n1})'), ('', '"E"+CHR$({n1})+"1"'), ('', 'CHR$({n1})+CHR$(9)'), ('', 'CHR$(9)+CHR$({n1})')):
        for d in ('12', '.5', '0', '7.') if g.deep else ('12', '.5'):
            g.prog('val-code', num(['A$=%s"%s"%s' % (a + '+' if a else '', d, '+' + b if b else ''), 'PRINT LEN(A$)', 'PRINT VAL(A$)', 'PRINT "ok"']), {'n1': I(0, 255)})
    for t in ('12', ' 12', '12 ', '12\t', '\t12', '12 \t', '12\t ', '12 3', '12\t3', '1 2', '- 1', '-\t1', '+ 1', '+1', ' +1 ', '12,', '12, 3', '12 ,\t3', '\t12\t,\t3\t', '1\r', '1\v', '1\f', '1\x7f', '1\xa0'):
        g.prog('input-text', num(['INPUT A,B', 'PRINT A;B']), {}, reply=t + ('\n7' if t.count(',') == 0 else '') + '\n' + '8,9\n' + '1,2\n', after=['PRINT A;B'])
        g.prog('data-text', num(['READ A:PRINT A', 'READ B:PRINT B', 'DATA %s,{n1}' % t.rstrip(',')]), {'n1': I(1, 2)}, after=['READ A$:PRINT A$', 'LIST'])
        g.prog('val-str', num(['LINE INPUT A$:PRINT LEN(A$)', 'PRINT VAL(A$)', 'PRINT VAL(A$+"{b1}")']), {'b1': pick('0 5x.')}, reply=t + '\n', after=['RUN', t])
    sc = ['1E-5', '1E-4', '.00012', '1E-3', '.01', '.125', '.1', '1.5', '7', '1000', '12345', '1E5', '100000', '123456', '1E6', '1E9', '1E15', '1E38', '1E-38', '1E99', '1E-99', '1E300']
    for s in sc:
        g.prog('str-scale', num(['X={n1}*%s' % s, 'PRINT X;"|";STR$(X);"|";STR$(-X);"|";LEN(STR$(X));VAL(STR$(X))=X', 'A$=STR$(X):B$=STR$(X/7):PRINT A$;B$;LEFT$(A$,2);ASC(A$)', 'PRINT VAL(A$)-X;VAL("-"+STR$(ABS(X)))']), {'n1': I(-12, 12) if g.deep else I(-5, 6)})

def c04(g):
    for t, v, w in (('', '7', '8'), ('$', '"a"', '"b"')):
        for lo in (0, 6, 12, 18) if g.deep else (0, 9):
            r = 6 if g.deep else 9
            for tail in ('{n3},N', 'M,{n4}') if not g.deep else ('{n3},N', 'M,{n4}', '{n3}-1,N', 'M,{n4}-1'):
                for o in (0, 9):
                    if o and not g.deep and lo: continue
                    tl = tail.replace('{n3}', 'M+{n3}').replace('{n4}', 'N+{n4}')
                    g.prog('sizes', num(['M={n1}:N={n2}:DIM A%s(M,N)' % t, 'A%s(M,N)=%s' % (t, v), 'PRINT A%s(M,N)' % t, 'A%s(%s)=%s' % (t, tl, w), 'PRINT A%s(M,N);A%s(%s)' % (t, t, tl)]), {'n1': I(lo, lo + r), 'n2': I(lo + o if lo + o < 19 else 0, (lo + o if lo + o < 19 else 0) + r), **({'n3': I(0, 1)} if 'n3' in tail else {'n4': I(0, 1)})})
        g.prog('sizes-1', num(['M={n1}:DIM A%s(M)' % t, 'A%s(M)=%s' % (t, v), 'A%s(M+{n3})=%s' % (t, w), 'PRINT A%s(M);A%s(M+{n3})' % (t, t)]), {'n1': I(0, 140 if g.deep else 70), 'n3': I(-1, 1)})
        for s in (126, 254, 510, 1022, 4094, 32766): g.prog('sizes-1', num(['M={n1}:DIM A%s(M)' % t, 'A%s(M)=%s' % (t, v), 'A%s(M+{n3})=%s' % (t, w), 'PRINT A%s(M);A%s(M+{n3})' % (t, t)]), {'n1': I(s, s + 3), 'n3': I(-1, 1)})
    sz = [(300, 2), (2, 300), (256, 3), (255, 255), (257, 1), (1, 257), (511, 7), (127, 500), (500, 127), (1000, 63), (63, 1000), (32767, 1), (1, 32767), (65535, 0), (0, 65535), (20, 20), (16, 16), (15, 17)]
    for i, (a, b) in enumerate(sz):
        for t in ('', '$'):
            if t and not g.deep and i % 2: continue
            v = (lambda k: '"v%d"' % k) if t else (lambda k: str(k + 1))
            cs = sorted({(0, 0), (0, b), (a, 0), (a, b), (min(1, a), 0), (0, min(1, b)), (a // 2, b // 2), (max(0, a - 1), b), (a, max(0, b - 1)), (min(a, 256), 0), (0, min(b, 256)), (min(255, a), b)})
            L = ['DIM A%s(%d,%d)' % (t, a, b)] + ['A%s(%d,%d)=%s' % (t, x, y, v(k)) for k, (x, y) in enumerate(cs)]
            L += ['PRINT ' + ';"|";'.join('A%s(%d,%d)' % (t, x, y) for x, y in cs[k:k + 5]) for k in range(0, len(cs), 5)]
            x, y = (a, 0) if a else (0, 1)
            L += ['A%s(%d+{n1},%d)=%s' % (t, max(0, a - 1), y, v(77)), 'PRINT ' + ';"|";'.join('A%s(%d,%d)' % (t, x, y) for x, y in cs[:8])]
            g.prog('wide', num(L), {'n1': I(0, 2)})
    for n in (11, 12, 15, 16, 17, 31, 32, 33, 100, 127, 128, 255, 256, 257, 1000, 4096, 65534, 65535):
        for t in ('', '$'):
            v = (lambda k: '"v%d"' % k) if t else (lambda k: str(k + 1))
            g.prog('auto', num(['A%s(%d)=%s' % (t, n, v(1)), 'A%s({n1})=%s' % (t, v(2)), 'PRINT A%s(%d);A%s({n1});A%s(%d)' % (t, n, t, t, n - 1), 'PRINT A%s(%d)' % (t, n + 1)]), {'n1': I(n - 2, n + 1)})
            if n < 5900:
                for w, (x, y) in enumerate(((n, 3), (3, n), (n, 10), (10, n))): g.prog('auto2', num(['A%s(%d,%d)=%s' % (t, x, y, v(1)), 'A%s(%d,%d)=%s' % (t, x - 1, y, v(2)), 'A%s(%d,%d)=%s' % (t, x, y - 1, v(3)), 'PRINT A%s(%d,%d);A%s(%d,%d);A%s(%d,%d);A%s(0,0);A%s(%d,%d)' % (t, x, y, t, x - 1, y, t, x, y - 1, t, t, max(x, 10), max(y, 10)), 'PRINT A%s(%s)' % (t, '%d+{n1},%d' % (max(x, 10) - 1, y) if w % 2 == 0 else '%d,%d+{n1}' % (x, max(y, 10) - 1))]), {'n1': I(0, 2)})

def c05(g):
    # names that differ in two characters: the second one 16 less where the first one is one more (the name hash adds them up that way)
    for pre, suf in (('', ''), ('A', ''), ('ABCDEF', ''), ('', 'A'), ('X1', 'Z'), ('ABCDEFGHIJKL', 'MNOPQ')):
        for k, (a, b) in enumerate((('%s=1:%s=2', 'PRINT %s;%s'), ('%s$="a":%s$="b"', 'PRINT %s$;%s$'), ('%s(1)=1:%s(1)=2', 'PRINT %s(1);%s(1)'), ('DEF FN%s(X)=1:DEF FN%s(X)=2', 'PRINT FN%s(0);FN%s(0)'), ('FOR %s=1 TO 2:FOR %s=3 TO 4:NEXT:NEXT', 'PRINT %s;%s'), ('%s=1:%s$="b"', 'PRINT %s;%s$'))):
            if 'FN' in a and pre == '' and suf == '': continue
            n1, n2 = pre + 'GH' + suf, pre + '{b1}{b2}' + suf
            if k not in (4, 5) or not pre or g.deep: g.prog('near', num([a % (n1, n2), b % (n1, n2), b % (n2, n1)]), {'b1': pick('EFGH'), 'b2': pick('8HXh')}, after=[b % (n1, n2)])
    for n in (60, 63, 64, 65, 66, 127, 128, 129, 130, 200) + ((255, 256, 257, 293, 294, 400) if g.deep else (257,)):
        nm = lambda k: 'V%s%d' % ('ABCDEFGHIJ'[k % 10], k // 10)
        L = ['%s=%d:%s$="s%d"' % (nm(k), k, nm(k), k) for k in range(n // 2)]
        q = sorted({0, 1, n // 4, n // 2 - 1, min(31, n // 2 - 1), min(32, n // 2 - 1), min(64, n // 2 - 1)})
        L += ['%s={n1}:%s$="{b1}"' % (nm(q[2]), nm(q[2])), 'PRINT ' + ';'.join('%s;%s$' % (nm(k), nm(k)) for k in q), 'PRINT %s;%s$' % (nm(q[2]).lower(), nm(q[3]).lower())]
        g.prog('names', num(L), {'n1': I(-2, 2), 'b1': pick('xyz')})

def c06(g):
    for n in (9, 16, 17, 33, 100, 255, 256, 257, 300):
        g.prog('rounds', num(['FOR I=1 TO %d' % n, 'S=S+I*{n1}', 'FOR J=I TO I+1:S=S+1:NEXT', 'NEXT I', 'PRINT I;J;S']), {'n1': I(1, 2)})
        g.prog('again', num(['FOR K=1 TO %d:FOR I=1 TO 2' % n, 'IF I=1 THEN S=S+1:GOTO 40', 'PRINT "no"', 'NEXT K', 'PRINT S;I;K']), {'n1': I(1, 2)})
        g.prog('frac', num(['FOR X=0 TO %d STEP .5' % n, 'C=C+1', 'NEXT', 'PRINT X;C', 'FOR X=%d TO 0 STEP -.25*{n1}' % (n // 4), 'C=C+1:NEXT:PRINT X;C']), {'n1': I(1, 2)})
    vs = 'ABCDEFGH'
    for k in range(9):
        for r in range(min(k, 8)):
            if not g.deep and (k + r) % 2: continue
            g.prog('restart', ['10 ' + ':'.join('FOR %s=1 TO 2' % v for v in vs[:k]), '20 FOR %s={n1} TO 6:PRINT %s;:NEXT:PRINT "ok"' % (vs[r], vs[r]), '30 ' + ':'.join('PRINT "%d";:NEXT' % j for j in range(k - 1 if k else 0)), '40 PRINT ' + ';'.join(vs)], {'n1': I(5, 7)}, after=['NEXT', 'PRINT A;B'])
            g.prog('restart-lim', ['10 ' + ':'.join('FOR %s=%d TO %d' % (v, j, j + 1) for j, v in enumerate(vs[:k])), '15 Q=Q+1:IF Q>3 THEN 30', '20 FOR %s={n1} TO %d STEP %d:PRINT %s;:NEXT %s:PRINT "ok"' % (vs[r], (0, 3, 7)[(k + r) % 3], (1, 2, -1)[(k * r) % 3], vs[r], vs[r]), '25 FOR %s=1 TO Q:PRINT %s;:NEXT %s:PRINT' % (vs[r], vs[r], vs[r]), '30 PRINT ' + ';'.join(vs)], {'n1': I(-1, 4)})

def c07(g):
    # RESTORE and jumps in front of every kind of separator
    for i, r in enumerate(('RESTORE', 'RESTORE 85', 'GOTO 60', 'GOSUB 70', 'ON A GOTO 60,65', 'ON A GOSUB 70,75', 'RETURN', 'RESTORE:RESTORE 80', 'READ B:RESTORE')):
        for f in ('IF A THEN %s ELSE PRINT "z"', 'IF A-1 THEN PRINT "z" ELSE %s', 'IF A THEN %s:PRINT "y" ELSE PRINT "z":%s', 'IF A THEN PRINT "y":%s', 'IF A-1 THEN IF A THEN %s ELSE PRINT "z"', '%s', '%s:', ':%s', '%s:PRINT "y":%s', 'IF A THEN PRINT "y" ELSE PRINT "z":%s:PRINT "w"', '%s:REM x', 'FOR I=1 TO 2:%s:NEXT'):
            q = f.replace('%s', r)
            g.prog('in-place', ['10 DATA 1,2,3', '20 A={n1}:READ X,Y', '30 ' + q, '40 READ Z:PRINT "n";Z;X;Y;I', '50 END', '60 READ Z:PRINT "sixty";Z:END', '65 PRINT "sixty-five":END', '70 READ Z:PRINT "seventy";Z:RETURN', '75 PRINT "seventy-five":RETURN', '80 DATA 8', '85 DATA 9,10'], {'n1': I(0, 2)}, after=['READ Z:PRINT Z', 'A={n1}:' + q, 'READ Z:PRINT Z'])
    B = [9, 99, 255, 256, 999, 32767, 32768, 65535, 65536, 99999, 100000, 131072, 200000, 999999, 1000000, 16777216, 2147483647, 2147483648, 4294967294]
    for k, n in enumerate(B):
        m = 397 if n != 397 else 398
        g.imm('far-lines', ['2 PRINT "a":GOTO %d' % (n - 1), '%d PRINT "b":GOSUB %d:ON {n1} GOTO 7,%d' % (n - 1, n, n + 1 if n < 4294967294 else 7), '7 PRINT "seven":END', '%d PRINT "c":RETURN' % n] + (['%d PRINT "d":RESTORE %d:END' % (n + 1, n - 1)] if n < 4294967294 else []) + ['RUN', 'GOTO %d' % n, 'GOSUB %d' % n, 'GOTO %d' % (n - 2), 'GOTO %d{b1}' % (n // 10), 'IF {n1} THEN %d ELSE %d' % (n, n - 1)], {'n1': I(0, 3), 'b1': pick('0123456789')})
    for n in (1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 20) + ((31, 32, 33) if g.deep else ()):
        for kw in ('GOTO', 'GOSUB'):
            tg = ['%d' % (100 + 10 * ((k * 7 + n) % (n + 2))) for k in range(n)]
            if n < 17 or kw == 'GOTO': g.prog('on-many', ['10 N={n1}', '20 ON N %s %s' % (kw, ','.join(tg)), '30 PRINT "past":END'] + ['%d PRINT %d:%s' % (100 + 10 * k, k, 'RETURN' if kw == 'GOSUB' else 'END') for k in range(n + 2)], {'n1': I(-1, n + 1)})
    # edits that move code, between jumps to the same line; freed addresses are used again
    bod = ['PRINT "d"', 'PRINT 1:PRINT 2:PRINT 3', 'A=1:B=2', 'REM', 'IF A THEN PRINT "x" ELSE PRINT "y"']
    for i, b in enumerate(bod):
        for j, jmp in enumerate(('GOTO 30', 'GOSUB 50', 'ON {n1} GOTO 30,40', 'RESTORE 60:READ X:PRINT X', 'ON {n1} GOSUB 50,55', 'A={n1}:IF A THEN 30 ELSE 40')):
            base = ['10 PRINT "a"', '20 PRINT "b"', '30 PRINT "c"', '40 PRINT "e":END', '50 PRINT "s"', '55 RETURN', '60 DATA 5,6']
            h = {'n1': I(0, 3)} if '{n1}' in jmp else {}
            g.imm('moved', base + [jmp, '10 ' + b, jmp, '10 PRINT "a"', jmp, '10 ' + b, '20', jmp, '20 ' + b, jmp, '5 PRINT "n"', '10', jmp, 'RUN', jmp], h, reuse=1)
            if i < 2: g.imm('moved-run', ['1 PRINT "z"', '2 ' + jmp] + base + ['RUN', '1 ' + b, 'RUN', '1 PRINT "z"', 'RUN', '10 ' + b, '20', 'RUN', '15 ' + b, 'RUN', 'NEW'] + base[1:] + ['1 ' + b, '2 ' + jmp, 'RUN'], h, reuse=1)
    for n in NSD if g.deep else NS:
        t = big(n, 10, 'IF A=%d THEN PRINT "at";A:END')
        h = {'b1': pick('0123456789'), 'b2': pick('12345678')}
        g.prog('many', ['1 A={n1}:GOSUB 9000:PRINT "r":ON A GOTO 10,20,%d' % (n * 10), '2 END'] + t + ['9000 PRINT "s":RETURN'], {'n1': I(0, 4)}, after=['A=%d:GOTO %d' % (n, n * 10), 'A=%d:GOTO 10' % (n // 2), 'GOSUB 9000', 'GOTO %d' % (n * 10 + 10)])
        g.imm('many-goto', t + ['A=%d' % n, 'GOTO {b2}{b1}0', 'GOTO {b2}{b1}', 'GOTO %d' % (n * 10)], h)
    for d in range(1, 9):
        for e in ('PRINT LOG(0)', 'STOP', 'PRINT B(99)'):
            L = ['10 GOSUB 20:PRINT "m":END'] + ['%d PRINT %d;:GOSUB %d:PRINT "u%d";:%sRETURN' % (k * 10, k, k * 10 + 10, k, e + ':' if k == max(2, d // 2) else '') for k in range(2, d + 1)] + ['%d PRINT "in":RETURN' % (d * 10 + 10)]
            g.prog('depth-err', L, {}, after=['CONT' if e == 'STOP' else 'RETURN', 'PRINT "K"'])

def c08(g):
    # every shape of nested conditions, with line numbers or statements in each branch
    import itertools
    th = ['40', 'PRINT "t"', 'PRINT "t":PRINT "u"', 'GOTO 40', 'GOSUB 60']
    inner = ['IF B THEN ' + t for t in th[:3]] + ['IF B THEN %s ELSE %s' % (a, b) for a, b in itertools.product(('40', 'PRINT "t"', 'GOSUB 60:PRINT "v"'), ('50', 'PRINT "e"', 'PRINT "e":PRINT "f"'))]
    sh = []
    for x in inner + th:
        for tail in ('', ':PRINT "x"', ' ELSE 50', ' ELSE PRINT "o"', ':', ' ELSE', ':PRINT "x" ELSE PRINT "o"'):
            sh.append('IF A THEN ' + x + tail)
    for x in inner:
        for a in ('40', 'PRINT "a"', 'PRINT "a":GOSUB 60'):
            sh.append('IF A THEN %s ELSE %s' % (a, x)); sh.append('IF A THEN %s:%s' % (a, x)); sh.append('IF A THEN IF C THEN %s ELSE %s' % (a, x))
    for i, f in enumerate(sh):
        if not g.deep and i % 2 and 'IF C' in f: continue
        g.prog('shape', ['10 A={n1}:B={n2}:C={n1}-{n2}', '20 ' + f, '30 PRINT "n":END', '40 PRINT "forty":END', '50 PRINT "fifty":END', '60 PRINT "s";:RETURN'], {'n1': I(0, 1), 'n2': I(0, 1)}, after=['PRINT "K"', 'A={n2}:B={n1}:' + f, 'PRINT "K2"'])
    st = ['PRINT "x"', 'A=5', 'RESTORE', 'READ B', 'CLEAR', 'GOSUB 90', 'FOR I=1 TO 2:NEXT', 'DATA 7', 'REM q', 'IF A THEN PRINT "i"', 'ON 1 GOSUB 90', 'END', 'STOP', 'DIM Q(3)', 'DEF FNA(X)=X', 'RANDOMIZE 1', 'INPUT C', 'PRINT', 'LET A=7', 'CLS', 'GOTO 60', '?"q";', 'NEXT', 'RETURN', 'A$="s"', 'A(1)=2', 'LINE INPUT D$', 'RESTORE 80']
    for i, s in enumerate(st):
        for j in range(2 if not g.deep else 4):
            o = st[(i * 5 + j * 7 + 3) % len(st)]; 
            if 'REM' in s or s.startswith('IF'): continue
            for f in ('IF {n1} THEN PRINT "t";:%s:PRINT "u" ELSE PRINT "e";:%s:PRINT "f"' % (s, o), 'IF {n1} THEN %s ELSE %s:PRINT "f"' % (o if 'REM' not in o and not o.startswith('IF') else 'PRINT', s), 'IF {n1} THEN %s:PRINT "only"' % s):
                if g.deep or j == 0 or 'f"' in f: g.prog('parts', ['10 DATA 1,2,3,4', '20 ' + f, '30 PRINT "n";A;B;C;I;A$', '40 END', '60 PRINT "g":END', '80 DATA 9', '90 PRINT "s":RETURN'], {'n1': I(0, 1)}, reply='5\n' if 'INPUT' in s + o else '', after=['PRINT A;B;C', 'READ B:PRINT B', 'PRINT "K"'])
    for n in (2, 3, 5, 8, 9, 12, 16):
        g.prog('nest', ['10 A={n1}', '20 ' + ''.join('IF A=%d THEN PRINT %d ELSE ' % (k, k) for k in range(n)) + 'PRINT "other"' if n < 6 else '20 ' + ''.join('IF A<>%d THEN ' % k for k in range(n)) + '40', '30 PRINT "next":END', '40 PRINT "far"'], {'n1': I(-1, n)})

def c09(g):
    for n in (254, 298, 510, 998, 1022):
        g.prog('far', num(['PRINT SPC(%d+{n1});"x";' % n, 'PRINT "y","z"']), {'n1': I(0, 4)}, after=['PRINT "c"'])
        g.prog('far', num(['PRINT "ab";TAB(%d+{n1});"x",' % n, 'PRINT "y"']), {'n1': I(0, 4)}, after=['PRINT "c"'])
    for s in ('1E-5', '.00012', '.001', '.1', '.7', '33', '1E5', '111111', '1234567', '1E20', '1E100'):
        g.prog('print-scale', num(['X={n1}*%s' % s, 'PRINT X;-X;X', 'PRINT X,"a";X', 'PRINT "x";X;TAB(20);X/3']), {'n1': I(-7, 9)})
    for n in (0, 1, 7, 8, 9, 39, 40, 63, 64, 72, 79, 80, 81, 100, 127, 128, 131, 132, 133, 200, 254, 255, 256, 257, 300):
        g.prog('wide', num(['PRINT SPC(%d);"x";TAB({n1});"y","z"' % n, 'PRINT TAB(%d);"x";SPC({n2});"y","z";TAB(%d);"w"' % (n, n + 2), 'PRINT "q";', 'PRINT TAB(%d);"x",' % n, 'PRINT "e"']), {'n1': I(max(0, n - 1), n + 4), 'n2': I(0, 2)})
        g.prog('wide-same', num(['PRINT SPC(%d);"x";TAB(%d);"y";TAB({n1});"z"' % (n, n + 2)]), {'n1': I(n + 2, n + 4)})
    for z in ('SPC(0)', 'TAB(0)', 'TAB(1)', 'SPC({n1})', 'TAB({n1})', '""', 'CHR$(0)', '"";"";""', 'SPC({n1});SPC({n1})', 'TAB({n1});TAB({n1})'):
        for p in ('', '"a";', '"abcdefg";', '1;', '"a",', '"x"+CHR$(10)+"yz";', 'SPC(3);', '-1.5;"q";'):
            g.prog('zero', num(['PRINT %s%s;"b"' % (p, z), 'PRINT %s%s,"b"' % (p, z), 'PRINT "c";:PRINT %s%s;:PRINT "d",:PRINT "e"' % (p, z)]), {'n1': I(0, 2)} if '{n1}' in z else {})
    for t in ('"abc"+CHR$(10)+"de"', 'CHR$(10)+"de"', '"ab"+CHR$(10)', 'CHR$(10)', '"a"+CHR$(10)+CHR$(10)+"b"', 'CHR$(13)+"de"', '"abc"+CHR$(13)', '"abc"+CHR$(9)+"d"', 'CHR$({n1})+"de"', '"ab"+CHR$({n1})+"cde"+CHR$(10)+"f"'):
        for q in (',"x"', ';TAB(6);"x"', ';"x","y"', ';:PRINT ,"x"', ';1;2,3'):
            g.prog('lines', num(['PRINT ' + t + q, 'A$=' + t + ':PRINT "zz";A$' + q, 'PRINT A$;A$' + q]), {'n1': I(8, 14)} if '{n1}' in t else {})

def c10(g):
    for v in ('A(1,2)', 'A(I,J)', 'A$(1,2),B', 'A,B(2),C(1,1)', 'A(1),A(2),A(A(1))', 'A$,A(1,1),B$(2,2)'):
        n = v.count(',') + 1 - v.count('1,2') - v.count('1,1') - v.count('I,J') - v.count('2,2')
        ok = ','.join(['{b1}'] * n)
        for k in (1, 2, 7, 8, 9, 15, 16, 17, 33):
            bad = ','.join(['1'] * (n - 1) + ['x']) if v[-1] != '$' and 'B$(2,2)' not in v else '1,x,1'
            g.prog('retries', ['10 I=1:J=2', '20 INPUT "q";' + v if k % 2 else '20 INPUT ' + v, '30 PRINT 1+(2+(3+(4+(5+6))));A(1,2)' if 'A(1,2)' in v else '30 PRINT 1+(2+(3+(4+(5+6))));"k"'], {'b1': pick('123')}, reply=(bad + '\n') * k + ok + '\n', after=['PRINT "K"'])

def c11(g):
    # reading goes on at the same place after a datum that cannot be read
    for i, d in enumerate(('1,{b1},3,4', '{b1}', '1,2,"{b1}"', '{b1},{b2},5', '1,z{b1},3', '"",{b1}2,6', '1:DATA {b1}:DATA 7', 'a{b1}', '1,2{b1},3')):
        h = {k: Bt(33, 126, '",:') for k in ('b1', 'b2') if '{%s}' % k in d}
        for j, (r, q) in enumerate((('READ A', ['READ B', 'READ C:PRINT C', 'READ A$:PRINT A$', 'READ A$:PRINT A$']), ('READ A,B,C', ['PRINT A;B;C', 'READ A$:PRINT A$', 'READ C:PRINT C', 'READ A$']), ('READ A,B(99),C', ['READ A$:PRINT A$', 'READ A$:PRINT A$']), ('READ A$,A', ['PRINT A$;A', 'READ C:PRINT C', 'READ B$:PRINT B$', 'RESTORE:READ A,B']), ('FOR I=1 TO 4:READ A:PRINT A:NEXT', ['READ A$:PRINT A$;A', 'READ A:PRINT A']))):
            if not g.deep and (i + j) % 2 and '{b2}' in d: continue
            g.imm('bad-datum', ['10 DATA ' + d, '15 DATA 8,q', '20 ' + r, 'RUN'] + q + ['RESTORE', 'READ A$:PRINT A$'], h)
            g.imm('bad-datum-imm', ['10 DATA ' + d, '15 DATA 8,q', r] + q + ['READ A$:PRINT A$', 'RUN', 'DATA ' + d + ':' + r] + q[:2], h)
    # statements of every amount of code between two DATA statements
    for k in (1, 2, 4, 6, 8, 10, 12, 14, 16, 20, 24, 31, 32, 33, 48, 62, 63, 64, 65, 66) + ((90, 128, 256, 400) if g.deep else (130,)):
        f = ['%d X=X+1:Y=Y+1:Z=Z+1' % (100 + j) for j in range(k)]
        g.prog('gap', ['10 DATA 1,{n1}', '20 READ A,B,C:PRINT A;B;C:RESTORE %d:READ A:PRINT A:RESTORE:READ A,B:PRINT A;B:END' % (100 + k)] + f + ['%d DATA 3,4' % (100 + k)], {'n1': I(1, 2)}, after=['READ A:PRINT A', 'READ A:PRINT A', 'READ A:PRINT A', 'READ A'])
        g.prog('gap-first', ['5 READ A,B,C:PRINT A;B;C'] + f + ['900 DATA {n1},2', '910 DATA 3'], {'n1': I(1, 2)}, after=['READ A', 'RUN'])
    # immediate DATA: its own position, RESTORE, mixtures with the program's
    im = ['DATA 1,2:READ A:PRINT A:RESTORE:READ B:PRINT B', 'DATA 1,2,3:READ A,B:RESTORE:READ C,D:PRINT A;B;C;D', 'DATA 7,8,9:READ A,B,C:PRINT A;B;C', 'DATA {n1}:READ A:PRINT A:READ B', 'READ A:PRINT A:DATA 5', 'READ A:PRINT A', 'RESTORE:READ A:PRINT A', 'RESTORE 20:READ A:PRINT A', 'DATA 4,5:RESTORE 20:READ A:PRINT A', 'DATA "x",y:READ A$,B$:PRINT A$;B$:RESTORE:READ B$:PRINT B$', 'DATA 6:RESTORE:RESTORE:READ A:PRINT A', 'GOSUB 40', 'DATA 8:GOSUB 40:READ A:PRINT A', 'DATA 1,2:READ A:GOSUB 50:READ B:PRINT A;B', 'FOR I=1 TO 2:READ A:PRINT A:NEXT:DATA 3,4', 'DATA 3,4:FOR I=1 TO 3:READ A:PRINT A:RESTORE:NEXT']
    for i, a in enumerate(im):
        for j, b in enumerate(im):
            if not g.deep and (i * 3 + j) % 4: continue
            h = {'n1': I(1, 3)} if '{n1}' in a + b else {}
            g.imm('imm-mix', ['10 DATA 11,12', '20 DATA 13,14,15,16', '30 END', '40 READ Q:PRINT "q";Q:RETURN', '50 RESTORE:RETURN', a, b, 'READ Z:PRINT Z', a, 'RUN', 'READ Z:PRINT Z'], h)
    for n in (30, 63, 64, 65, 127, 128, 129, 130, 200):
        g.prog('many', ['%d DATA %s' % (100 + k, ','.join(str(k * 10 + j) for j in range(10))) for k in range(n // 10)] + ['10 FOR I=1 TO {n1}:READ A:NEXT:PRINT A', '20 RESTORE %d:READ A,B:PRINT A;B' % (100 + n // 20), '30 RESTORE:READ A:PRINT A', '40 FOR I=1 TO %d:READ A:NEXT:PRINT A:READ A' % (n // 10 * 10 - 1)], {'n1': I(n // 2, n // 2 + 2)}, after=['READ B:PRINT B'])

def c12(g):
    # functions defined in turn by the program and at the prompt, with calls that fail in the body
    df = ['DEF FNA(X)=X', 'DEF FNA(X)=LOG(X)', 'DEF FNA(X)=B(X)+1', 'DEF FNB(X)=FNA(X)+1', 'DEF FNA$(X)=CHR$(X-1)', 'DEF FNA(X)=ASC(FNA$(X))', 'DEF FNA(Y)=SQR(Y-Z)']
    cl = ['PRINT FNA({n1})', 'PRINT FNB({n1});FNA(0)', 'PRINT FNA$({n1})', 'A=FNA(99):PRINT "a"']
    k = 0
    for a in df:
        for b in df:
            for c in ('I', 'P', 'PI', 'IP'):
                k += 1
                if not g.deep and k % 2: continue
                d = df[k % 7]; q = cl[(k // 2) % 4]
                h = {'n1': I(-1, 12)} if '{n1}' in q else {}
                if c == 'I': L = [a, q, b, q, d, q, cl[3]]
                elif c == 'P': L = ['10 ' + a, '20 ' + b, '30 ' + q, 'RUN', '15 ' + d, 'RUN', '20', '15', 'RUN', cl[3]]
                elif c == 'PI': L = ['10 ' + a, 'RUN', b, q, d, q, 'GOTO 10', q, '20 ' + q, 'RUN', b, 'GOTO 20']
                else: L = [a, q, '10 ' + b, '20 ' + q, 'GOTO 10', d, q, 'GOTO 20', 'RUN', q]
                g.imm('redef', L, h)
    # calls in the midst of other values, on both stacks
    fs = 'DEF FNA(X)=X+1:DEF FNB$(X)=CHR$(X+64):DEF FNC(X)=LEN(B$+CHR$(X))+X:DEF FND$(X)=MID$("abcdef",X,2)+A$'
    for k in range(1, 7):
        for c in ('"a"+(' * k + 'FNB$({n1})' + ')' * k, '"a"+(' * k + 'FND$({n1})+FNB$(2)' + ')' * k, 'STR$(' + '1+(' * k + 'FNA({n1})' + ')' * k + ')', '"a"+(' * k + 'LEFT$("xyz",FNA({n1}))' + ')' * k, 'STR$(' + '1+(' * k + 'FNC({n1})' + ')' * k + ')', '"a"+(' * k + 'STR$(FNC({n1}))' + ')' * k, 'LEFT$("abcdefghij",' + '1+(' * k + 'LEN(FNB$({n1}))' + ')' * k + ')'):
            g.prog('midst', ['10 ' + fs + ':X=5:A$="q":B$="zz"', '20 R$=' + c, '30 PRINT R$;X;A$;B$;FNA(X)', '40 PRINT X;' + c], {'n1': I(1, 3)}, after=['PRINT X', 'PRINT ' + c + ';X'])
    for n in (8, 9, 16, 33, 100):
        g.prog('times', ['10 DEF FNA(X)=X*X+Y:DEF FNB$(X)=CHR$(X)', '20 X={n1}:FOR I=1 TO %d:Y=FNA(I):A$=FNB$(65+I-INT(I/20)*20):NEXT' % n, '30 PRINT X;Y;A$;I'], {'n1': I(-1, 1)})
        g.imm('defs', ['X={n1}'] + ['DEF FN%s(X)=X+%d' % ('ABCDEFGHIJ'[k % 10] + str(k // 10), k) for k in range(n)] + ['PRINT FNA0(1);FN%s(2);X' % ('ABCDEFGHIJ'[(n - 1) % 10] + str((n - 1) // 10))], {'n1': I(-1, 1)})

def c13(g):
    # ranges over numbers that follow each other closely
    for L in ((10, 11, 12, 13), (1, 2, 3, 4), (9, 10, 11), (98, 99, 100, 101), (10, 12, 13, 15)):
        P = ['%d REM %s' % (n, chr(97 + k)) for k, n in enumerate(L)]
        lo, hi = max(1, L[0] - 1), L[-1] + 1
        for a in range(lo, hi + 1):
            for b in range(a, hi + 1):
                g.imm('dense', P + ['LIST %d-%d' % (a, b), 'LIST {b1}-%d' % b, 'LIST %d' % a, 'LIST %d-' % a, 'LIST -%d' % b, '%d' % a, 'LIST %d-%d' % (a, b), '%d REM z' % b, 'LIST %d-%d' % (a, b), 'LIST'], {'b1': pick('123456789')})
    B = [9, 99, 255, 256, 999, 32767, 32768, 65535, 65536, 99999, 100000, 131072, 200000, 999999, 1000000, 16777216, 2147483647, 2147483648, 4294967294]
    for k, n in enumerate(B):
        m = B[k - 1] if k else 1
        for L in ((n - 1, n, n + 1), (m, n), (10, n, n // 2)):
            L = sorted({x for x in L if 0 < x < 4294967295})
            pr = ['%d REM %d' % (x, i) for i, x in enumerate(L)]
            g.imm('bounds', pr + ['LIST', 'LIST %d' % n, 'LIST -%d' % n, 'LIST 1-%d' % n, 'LIST %d-%d' % (m, n), 'LIST %d-%d' % (n - 1, n), 'LIST %d-' % (n - 1), 'LIST {b1}%d-%d' % (n - 1, n), 'LIST 5-%d{b1}' % n, '%d' % n, 'LIST', '%d REM q{b1}' % n, 'LIST', 'LIST %d-%d' % (n, m)], {'b1': pick('123')})
    for n in NSD if g.deep else NS:
        t = big(n)
        h = {'b1': pick('0123456789'), 'b2': pick('123456789'), 'b3': pick('05')}
        a = '{b2}{b1}{b3}' if n >= 65 else '{b2}{b1}'
        near = n * 10 - 40 if n > 10 else 10
        q = ['LIST -30', 'LIST %d-%d' % (n * 5, n * 5 + 30), 'LIST %d-' % near]
        for k, ops in enumerate(([a + ' PRINT "new"'], [a], [a + ' PRINT "new"', a + ' REM', a], ['5 PRINT "n5"', '%d' % (n * 10)], ['1 REM', '%d REM e' % (n * 10 + 5), '%d' % (n * 5)])):
            if k in (0, 2) and not g.deep and NS.index(n) % 2: continue
            g.imm('large', t + ops + q + (['LIST {b2}{b1}0-{b2}{b1}9'] if k < 3 and n >= 65 else []), h, reuse=k % 2)
        for at in (10, 60, 300, 630, 640, 650, 660, n * 5, n * 10 - 20, n * 10 - 10):
            if at <= n * 10: g.imm('large-at', t + ['%d' % at] + q + ['%d REM{b1}' % at, '%d REM new' % (at - 5), '%d REM new' % (at + 5)] + ['LIST %d-%d' % (max(1, at - 20), at + 20)] + q, {'b1': pick('ab')})
    # a new text for a line: beginning, extension, same, other case, other blanks
    for i, (a, b) in enumerate((('PRINT 12', 'PRINT 1'), ('PRINT 1', 'PRINT 12'), ('PRINT 1', 'PRINT 1'), ('PRINT "a"', 'print "a"'), ('PRINT "a"', 'PRINT "A"'), ('PRINT 1:PRINT 2', 'PRINT 1'), ('REM abc', 'REM'), ('REM', 'REM abc'), ('REM a ', 'REM a'), ('REM a', 'REM a '), ('REM a', ' REM a'), ('PRINT"a"', 'PRINT "a"'), ('PRINT {n1}', 'PRINT {n1}'), ('PRINT "{b1}{b2}"', 'PRINT "{b1}'), ('PRINT "{b1}"', 'PRINT "{b2}"'), ('PRINT "a{b1}', 'PRINT "a{b2}"'), ('REM {b1}', 'REM {b1}{b2}'), ('REM {b1}{b2}', 'REM {b1}'), ('{b1}=1', '{b2}=1'))):
        h = {k: v for k, v in (('n1', I(1, 2)), ('b1', pick('abX')), ('b2', pick('abX'))) if '{%s}' % k in a + b}
        for pre, post in (([], []), (['10 PRINT "p"'], ['30 PRINT "q"'])): g.imm('retext', pre + ['20 ' + a] + post + ['RUN', '20 ' + b, 'LIST', 'RUN', '20 ' + a, 'LIST', 'RUN', '20 ' + b, '20 ' + b, 'RUN', 'LIST'], h)

def c14(g):
    # names with blanks, marks and dots
    for nm in ('abc ', ' abc', 'a b', 'a  b', 'abc  ', '  ', ' ', 'a.b', '.a', 'a.', 'A', 'a', "a'b", 'a,b', 'a;b', 'a-b', 'a\tb', 'a\t', 'abcd e ', 'ab{b1}', 'a{b1}b', '{b1}ab', 'abc{b1}{b2}'):
        h = {k: pick(' .,;:x-_') for k in ('b1', 'b2') if '{%s}' % k in nm}
        for q, w in (('"%s"', ''), ('"%s"', ' '), ('"%s', ''), ('%s', '')):
            if q != '"%s"' and not g.deep and len(nm) % 2: continue
            c = q % nm + w
            g.imm('names', ['10 PRINT 1{b3}', 'SAVE "abc"', 'SAVE "a"', 'SAVE "ab"', '10 PRINT 2', 'SAVE ' + c, 'NEW', '10 PRINT 3', 'LOAD "abc"', 'LIST', 'LOAD ' + c, 'LIST', 'LOAD "a"', 'LIST', 'LOAD "ab"', 'LIST'], dict(h, b3=pick('012')))
    # files whose line numbers repeat or go back
    for i, L in enumerate((['10 A', '10 A'], ['10 REM a', '10 REM b'], ['10 REM a', '20 REM b', '20{b1}REM c'], ['10 REM a', '20 REM b', '20 {b1}REM c'], ['10 REM a', '20 REM b', '{b2}0 REM c'], ['10 REM a', '20 REM b', '1{b2} REM c', '30 REM d'], ['10{b1}', '10{b1}'], ['{b2}0 REM a', '{b2}5 REM b', '30 REM c'], ['10 REM a', '10'], ['10 REM a', '20', '20{b1}'])):
        h = {k: v for k, v in (('b1', pick(' \tRx:')), ('b2', pick('0123'))) if any('{%s}' % k in l for l in L)}
        g.file('repeat', L, h, stdin='LIST\nBYE\n', opts=('-q', '-k'))
        for pre in (['1 PRINT "old"'], []):
            g.add('repeat-load', ''.join(l + '\n' for l in pre + ['LOAD "p.bas"', 'LIST', 'RUN', '15 PRINT "m"', 'LIST', 'SAVE "q"', 'LOAD "q"', 'LIST', 'BYE']), h, files={'p.bas': '\n'.join(L) + '\n'})
    # blanks of every number in every place
    for k in range(0, 10 if not g.deep else 20):
        for c in (' ', '\t', ' \t', '\t '):
            w = (c * k)[:k]
            for j, L in enumerate((['10%sREM a' % (w or ' '), '20 PRINT%s"{b1}"' % w], ['10 REM%sx' % w, '20 PRINT "a%s{b1}"' % w], ['10 REM x%s' % w, '20 PRINT "{b1}";%s' % w, '30 DATA%sp%sq%s,r' % (w, w, w)])):
                if not g.deep and (j + k + len(c)) % 2: continue
                g.imm('blanks', L + ['25 REM %s.' % w, 'LIST', 'SAVE "f"', 'LOAD "f"', 'LIST', 'RUN', 'SAVE "g"', 'NEW', 'LOAD "g"', 'LIST', '15 REM', 'SAVE "f"', 'LOAD "f"', 'LIST'], {'b1': pick('a ,')})
                if j == 0: g.file('blanks-file', ['%s10 PRINT "{b1}"' % w] + L, {'b1': pick('a ,')}, stdin='LIST\nSAVE "f"\nNEW\nLOAD "f"\nLIST\nBYE\n', opts=('-q', '-k') if 0 else ('-q',))
    for n in NSD if g.deep else NS:
        t = big(n, 10, 'PRINT "%d";')
        g.imm('large', t + ['5 PRINT "{b1}"', 'SAVE "f"', 'NEW', '10 PRINT "x"', 'LOAD "f"', 'LIST %d-' % (n * 10 - 30), 'LIST -30', 'RUN'], {'b1': pick('ab')})
        g.imm('shrink', t + ['SAVE "f"', 'NEW', '10 PRINT "{b1}"', 'SAVE "f"', 'LOAD "f"', 'LIST', 'RUN', '20 PRINT "y"', 'SAVE "f"', '10', 'SAVE "f"', 'LOAD "f"', 'LIST'], {'b1': pick('ab')})
    # the same name again, with the program changed meanwhile
    ops = ['10 PRINT "n{b1}"', '20', '30 PRINT "t"', 'NEW', 'RENUM 100', 'LOAD "g"', 'SAVE "g"', 'RUN', '10 PRINT "a"', 'LOAD "nodir/x"']
    for i, a in enumerate(ops):
        for j, b in enumerate(ops):
            if not g.deep and (i + 2 * j) % 3: continue
            g.imm('again', ['10 PRINT "a"', '20 PRINT "b"', 'SAVE "f"', 'SAVE "g"', a, 'LOAD "f"', 'LIST', a, b, 'SAVE "g"', 'LOAD "f"', 'LIST', 'RUN', 'LOAD "g"', 'LIST'], {'b1': pick('ab')} if '{b1}' in a + b else {})

def c15(g):
    # references to lines below the renumbered part, which stay as they are
    for k in (1, 9, 255, 256, 257, 1000, 32767, 32768, 65534, 65535):
        for r in ('GOTO %d', 'ON A GOSUB %d,%d', 'IF A THEN %d ELSE {R}', 'RESTORE %d:GOTO {R}', 'GOSUB {R}:GOTO %d'):
            for R in (k + 1, k + 10, 70000, 4294967294):
                if not g.deep and (k + R + len(r)) % 2: continue
                t = r.replace('{R}', str(R)).replace('%d', str(k))
                g.imm('kept', ['%d PRINT "k":END' % k, '%d %s' % (R, t), '%d %s' % (R - 1 if R > k + 1 else R + 1 if R < 4294967294 else R, t), 'RENUM 6{b1}000,%d,{b2}' % (k + 1), 'LIST', 'RENUM 30,%d' % R, 'LIST', 'RENUM', 'LIST'], {'b1': pick('45'), 'b2': pick('123')})
    q = ('b', 32, 126, '"{}')
    for d in ('DATA 1," x":GOTO 20', 'DATA "{b1}a":GOTO 20', 'DATA {b2}:GOTO 20', 'DATA a,"{b1}","b":GOTO 20', 'DATA "":GOTO 20', 'DATA ,:GOTO 20', 'DATA "a:b":GOTO 20', 'DATA "20",20:GOTO 20', 'DATA GOTO 20:GOTO 20', 'PRINT "{b1}":GOTO 20', 'PRINT "":GOTO 20', 'A$="{b1}":IF A$="GOTO 20" THEN 20', 'IF A$="{b1}" THEN 20 ELSE 30', 'REM GOTO 20:GOTO 20', 'INPUT "{b1}";A:GOTO 20', 'PRINT "a";"{b1}";:RESTORE 20', "ON A GOTO 20,30:PRINT \"{b1}\":ON A GOSUB 30,20", 'DATA{b2}x:GOTO 20', 'READ A$:DATA "{b1}" :GOTO 20', 'DATA 5 ,"{b1}" , 6:GOTO 20', 'DATA "REM":GOTO 20', 'DATA REM:GOTO 20', 'DATA "DATA":RESTORE 20'):
        h = {k: v for k, v in (('b1', q), ('b2', pick(' ,:"x2'))) if '{%s}' % k in d}
        for cmd in ('RENUM 100', 'RENUM 100,20', 'RENUM 7,1,1'):
            g.imm('ref-after', ['10 ' + d, '20 PRINT "t":END', '30 PRINT "u"', cmd, 'LIST'] + (['RUN'] if 'INPUT' not in d else []), h)
    for n in NSD if g.deep else NS:
        t = big(n, 10, 'IF A=%d THEN A=0:GOTO 10')
        g.imm('large', t + ['5 GOTO %d' % (n * 10), '%d GOSUB %d:END' % (n * 10, n * 10 - 20), 'RENUM 1{b1}0,%d,{b2}' % (1 if n % 2 else n * 5), 'LIST %d-%d' % (100, 140), 'LIST -20', 'LIST %d-' % (100 + n)], {'b1': pick('0159'), 'b2': pick('019')})
    for a in ('20,2000,30', '2000,20,30', '20,30,2000', '2000', '65535,20', '65536,20', '70000,20', '0,20', '20,0', '1E1,20', '2E1', '20.5,20', '20.0', '020', '20,20,20,20', '99,98,20,97', '2{b1},20,3{b1}', '{b1}0,{b2}0,20', '1{b1}E1,20', '2E{b2}'):
        h = {k: pick('0123') for k in ('b1', 'b2') if '{%s}' % k in a}
        for s in ('GOTO ', 'GOSUB ', 'ON A GOTO ', 'ON A GOSUB ', 'IF A THEN ', 'RESTORE ', 'IF A THEN PRINT 1 ELSE ', 'IF A THEN GOTO ', 'PRINT A:GOTO '):
            if ',' in a and 'ON' not in s and not g.deep: continue
            g.imm('list', ['10 ' + s + a, '20 PRINT "t"', '30 PRINT "u"', 'RENUM 1{b3}0', 'LIST'], dict(h, b3=pick('05')))

def c16(g):
    for n in (127, 128, 255, 256, 257, 300, 513):
        g.imm('far-stop', ['%d %s' % (k * 10, 'REM' if k < n - 1 else 'STOP:PRINT "a";A' if k == n - 1 else 'STOP:PRINT "b";A') for k in range(1, n + 1)] + ['A={n1}', 'RUN', 'PRINT A:A=A+{n1}', 'CONT', 'CONT', 'CONT'], {'n1': I(1, 2)})
    er = ['PRINT FNA(0)', 'PRINT FNC(0)', 'PRINT FNB$(0)', 'PRINT FNZ(0)', 'PRINT LOG(0)', 'A$="a"+CHR$(-1)', 'GOSUB 900', 'GOSUB 990', 'NEXT Z', 'READ Q', 'GOTO 990', 'FOR I=1 TO LOG(0)', 'PRINT 1+(2+(3+FNA(0)))', 'A$="x"+("y"+FNB$(0))', 'ON FNA(0) GOSUB 40', 'B(FNA(0))=1', 'LIST', 'PRINT FND(2)', 'SAVE "nodir/x"', 'LOAD "none"', 'X', 'PRINT "', 'CONT 5', '*', 'A$=LEFT$("abc",FNC(0))', 'DEF FNA(X)=X', 'PRINT FNA(0);FNA(1);FNA(0)']
    fl = [['20 STOP', '30 PRINT "c";X'], ['20 GOSUB 40:PRINT "b";X', '30 END', '40 GOSUB 60:PRINT "d";X:RETURN', '60 STOP:PRINT "e":RETURN'], ['20 FOR I=1 TO 2:FOR J=1 TO 2:STOP:PRINT I;J;X;:NEXT:PRINT "n":NEXT'], ['20 FOR I=1 TO 2:GOSUB 40:NEXT:PRINT "z";I', '30 END', '40 FOR J=1 TO 2:STOP:NEXT:PRINT J;X:RETURN'], ['20 READ A:STOP:READ B:PRINT A;B;FND(X)', '30 END'], ['20 IF X<9 THEN STOP:PRINT "t";X ELSE PRINT "e"', '30 PRINT "n";FND(1)']]
    for i, e in enumerate(er):
        for j, f in enumerate(fl):
            if not g.deep and (i + j) % 2 and i > 3: continue
            g.imm('err-stop', ['5 DIM B(3):X={n1}:DEF FNA(X)=LOG(X):DEF FNC(X)=FNA(X)+1:DEF FNB$(X)=CHR$(FNC(X)):DEF FND(X)=X+1'] + f + ['800 DATA 1,2', '900 PRINT FNA(0):RETURN', 'RUN', e, 'X=X+1', 'CONT', e, e, 'CONT', 'CONT', 'CONT', 'CONT', 'PRINT X'], {'n1': I(1, 2)})
    for n in (2, 3, 4, 5, 8, 9, 12, 16, 17, 33):
        g.prog('conts', ['10 FOR I=1 TO 2:FOR J=1 TO %d' % n, '20 STOP', '30 S=S+{n1}:NEXT:PRINT "n";S:NEXT', '40 PRINT "end";I;J;S'], {'n1': I(1, 2)}, after=['CONT'] * (2 * n + 1))
        g.prog('conts-sub', ['10 GOSUB 40:PRINT "m"', '20 K=K+1:IF K<%d THEN 10' % n, '30 PRINT "end":END', '40 GOSUB 60:RETURN', '60 PRINT "s";K:STOP:RETURN'], {}, after=['PRINT K:X=X+1:CONT' if 0 else 'CONT'] * (n + 1) + ['PRINT K'])
        g.prog('conts-imm', ['10 FOR I=1 TO %d' % n, '20 PRINT A:STOP:PRINT B', '30 NEXT:PRINT "end"'], {'n1': I(1, 3)}, after=sum([['A=A+{n1}:B=%d' % k, 'CONT'] for k in range(n)], []) + ['CONT'])

def c18(g):
    # errors far into a program, whose lines must be named rightly
    for n in (100, 127, 128, 129, 200, 255, 256, 257, 260, 300, 513):
        for e in ('PRINT LOG(0)', 'NEXT', 'PRINT )', 'GOTO 5'):
            for at in (n, n - 1, n // 2) if g.deep or e[0] == 'P' else (n,):
                g.imm('far-err', ['%d %s' % (k * 10 if k % 2 else k * 10 + 1, 'REM' if k != at else e) for k in range(1, n + 1)] + ['1 A={n1}', 'RUN', 'PRINT A', '%d PRINT "end"' % (n * 10 + 10), 'RUN', 'PRINT A'], {'n1': I(1, 2)})
    # reading goes on at the same place after a datum that cannot be read
    for i, d in enumerate(('1,{b1},3,4', '{b1}', '1,2,"{b1}"', '{b1},{b2},5', '1,z{b1},3', '"",{b1}2,6', '1:DATA {b1}:DATA 7', 'a{b1}', '1,2{b1},3')):
        h = {k: Bt(33, 126, '",:') for k in ('b1', 'b2') if '{%s}' % k in d}
        for j, (r, q) in enumerate((('READ A', ['READ B', 'READ C:PRINT C', 'READ A$:PRINT A$', 'READ A$:PRINT A$']), ('READ A,B,C', ['PRINT A;B;C', 'READ A$:PRINT A$', 'READ C:PRINT C', 'READ A$']), ('READ A,B(99),C', ['READ A$:PRINT A$', 'READ A$:PRINT A$']), ('READ A$,A', ['PRINT A$;A', 'READ C:PRINT C', 'READ B$:PRINT B$', 'RESTORE:READ A,B']), ('FOR I=1 TO 4:READ A:PRINT A:NEXT', ['READ A$:PRINT A$;A', 'READ A:PRINT A']))):
            if not g.deep and (i + j) % 2 and '{b2}' in d: continue
            g.imm('bad-datum', ['10 DATA ' + d, '15 DATA 8,q', '20 ' + r, 'RUN'] + q + ['RESTORE', 'READ A$:PRINT A$'], h)
            g.imm('bad-datum-imm', ['10 DATA ' + d, '15 DATA 8,q', r] + q + ['READ A$:PRINT A$', 'RUN', 'DATA ' + d + ':' + r] + q[:2], h)
    # an error with every number of pending values, then the deepest expression
    nu = lambda d, e: '1+(' * d + e + ')' * d
    st = lambda d, e: '"a"+(' * d + e + ')' * d
    full = ['PRINT ' + nu(14, '{n1}+2'), 'PRINT ' + nu(13, '{n1}+2'), 'PRINT ' + st(6, '"b"+A$'), 'PRINT ' + nu(15, '{n1}+2'), 'PRINT ' + nu(14, '{n1}+2'), 'PRINT ' + st(7, '"b"+A$'), 'PRINT ' + st(6, '"b"+A$')]
    for d in range(0, 15):
        for k, e in enumerate(('LOG(0)', 'FNA(0)', 'B(99)', 'ASC("")', 'LEN(CHR$(-1))', 'FNZ(1)', 'B(1,1,1)', 'LEN("a"+("b"+CHR$(-1)))')):
            if not g.deep and (d + k) % 2: continue
            er = ['PRINT ' + nu(d, e), 'A=' + nu(d, e), 'B(1)=' + nu(d, e), 'FOR I=1 TO ' + nu(d, e), 'B(2,%s)=1' % nu(d, e) if 0 else 'ON %s GOTO 7' % nu(d, e), 'A$=CHR$(%s)' % nu(d, e)][(d + k) % 6]
            g.imm('pending', ['DIM B(5)', 'DEF FNA(X)=LOG(X)', 'A$="z"', er] + full + [er, er] + full, {'n1': I(1, 2)})
            if k % 4 == 0: g.imm('pending-run', ['10 ' + er, '20 PRINT "no"', 'DIM B(5)', 'DEF FNA(X)=LOG(X)', 'RUN'] + full + ['10', 'RUN'] + full, {'n1': I(1, 2)})
    for d in range(0, 8):
        for k, e in enumerate(('CHR$(-1)', 'FNA$(0)', 'B$(99)', 'LEFT$("a",-1)', 'MID$("abc",0,1)', 'STR$(LOG(0))', 'FNZ$(1)')):
            if not g.deep and (d + k) % 2: continue
            er = ['PRINT ' + st(d, e), 'A$=' + st(d, e), 'B$(1)=' + st(d, e), 'A=LEN(%s)' % st(d, e), 'PRINT "x";%s=A$' % st(d, e)][(d + k) % 5]
            g.imm('pending-str', ['DIM B$(5)', 'DEF FNA$(X)=CHR$(X-1)', 'A$="z"', er] + full + [er, er] + full, {'n1': I(1, 2)})
    # a long series of errors changes nothing that was not part of the failed statements
    er = ['PRINT LOG(0)', 'A(99)=1', 'RETURN', 'NEXT', 'GOTO 999', 'A$=CHR$(-1)', 'PRINT )', 'FOO', 'X=', 'DIM A(-1)', 'PRINT FNA(LOG(0))', 'A$=A$+A$(99)', 'LOAD "none"', 'CONT', '0 PRINT', 'LIST x', 'RENUM 0', 'GOSUB 999', 'ON 1.5 GOTO 10', 'RESTORE 999', 'PRINT FNB(1)', 'SAVE', 'A$=1', 'PRINT "', 'PRINT ' + '1+(' * 17 + '1' + ')' * 17, 'PRINT ' + '"a"+(' * 9 + '"b"' + ')' * 9, 'DATA 1:READ Z,Z', 'FOR I=1 TO LOG(0)', 'PRINT "abc";LOG(0)', 'PRINT "ab",FNA(A(99))', 'PRINT "x"+("y"+CHR$(-1))', 'PRINT 1;(2+(3+LOG(0)))']
    pre = ['10 DATA 11,12,13', '20 FOR K=1 TO 5', '30 PRINT "k";K:GOSUB 60', '40 PRINT "n";K', '50 END', '60 STOP', '70 RETURN', 'RUN', 'READ A:A$="q":A(2)=7:DEF FNA(X)=X+1:X={n1}:FOR J=1 TO 9']
    post = ['READ B:PRINT A;B;A$;A(2);X;J;K', 'PRINT FNA(X);FNA(A);1+(2+(3+(4+(5+(6+7)))));"a"+("b"+("c"+"d"))', 'PRINT ,"x"', 'NEXT:PRINT J', 'RETURN', 'NEXT K:PRINT K', 'LIST 60']
    preo = [l.replace(':FOR J=1 TO 9', '') for l in pre]     # no loop from the prompt: what it leaves open resets the control state
    posto = [post[0], post[0].replace('READ B', 'READ C'), 'READ C'] + post[1:3] + ['RETURN', 'READ C'] + post[5:]
    for i, e in enumerate(er):
        for n in (1, 7, 17, 33, 40) + ((65, 70, 130, 260) if g.deep else ()) + ((130,) if i % 6 == 0 else ()):
            if not g.deep and n in (7, 17) and (i + n) % 3: continue
            g.imm('series', (pre if (i + n) % 4 == 0 else preo) + [e] * n + (post if (i + n) % 4 == 0 else posto), {'n1': I(1, 2)})
    for k in range(6 if not g.deep else 24):   # different errors in turn
        m = [er[(j * (k * 2 + 1) + k) % len(er)] for j in range(40 if not g.deep else 80)]
        g.imm('series-mix', preo + m + posto, {'n1': I(1, 2)})
        g.imm('series-show', pre + sum([[e, 'PRINT ' + ('X;A', 'A$;A(2)', 'FNA(X)', '1+(2+3);"a"+("b"+"c")', ',"z"')[j % 5]] for j, e in enumerate(m[:20])], []) + posto, {'n1': I(1, 2)})
    # the column after an error
    for e in ('LOG(0)', '1+(2+(3+(4+LOG(0))))', 'CHR$(-1)', '"a"+("b"+CHR$(-1))', 'A(99)', 'FNA(LOG(0))', 'LEFT$("a",-1)', 'FNZ(1)'):
        for p in ('"abc";', '"abc",', '1;', 'TAB(5);', 'SPC({n1});', '"a"+CHR$(10);', ''):
            g.imm('column', ['DEF FNA(X)=X', 'PRINT %s%s' % (p, e), 'PRINT ,"x"', 'PRINT "q";', 'PRINT %s%s' % (p, e), 'PRINT TAB(9);"y"', 'PRINT "K"'], {'n1': I(0, 3)} if '{n1}' in p else {})

def c22(g):
    for s in (0, 1, 255, 256, 32767, 32768, 65535, 65536, 65537, 131072, 131073, 16777216, 2147483647, 2147483648, 4294967294, 4294967295):
        for d in (1, 2, 256, 65536, 131072, 1048576, 16777216, 2147483648):
            if s + d > 4294967295: continue
            if not g.deep and (s % 7 + d) % 3 == 1: continue
            g.prog('far', num(['RANDOMIZE %d' % s, 'A=RND:B=RND', 'RANDOMIZE %d' % (s + d), 'C=RND:D=RND', 'RANDOMIZE %d' % s, 'PRINT A=RND;B=RND;A=C;B=D']), {})

def c23(g):
    for n in (2, 5, 9, 10, 11, 12, 13, 16, 17) + ((31, 32, 33, 64, 100) if g.deep else (33,)):
        for t, v in (('', '+1'), ('$', '+"x"')):
            for dim in ('', 'DIM A%s(%d):' % (t, n), 'DIM A%s(%d,2):' % (t, n)):
                x = ',1' if ',2' in dim else ''
                L = ['10 %sA%s(%d%s)=A%s(%d%s)%s:PRINT A%s(%d%s);' % (dim, t, n, x, t, n, x, v, t, n, x), '20 A%s({n1}%s)=A%s({n1}%s)%s:PRINT A%s({n1}%s)' % (t, x, t, x, v, t, x)]
                for mid in ([], ['CLEAR'], ['A%s(1)=A%s(1)%s' % (t, t, v)], ['NEW'] + L, ['30 REM']):
                    if not g.deep and (n + len(dim) + len(mid)) % 2: continue
                    g.imm('rerun', L + ['RUN'] + mid + ['RUN', 'PRINT A%s(%d%s)' % (t, n, x), 'CLEAR', 'PRINT A%s(1%s)' % (t, x), 'RUN'], {'n1': I(0, n)})
    st = ['A=1:A$="x":A(2)=3', 'DIM B(20):B(20)=5', 'DEF FNA(X)=X+1', 'FOR I=1 TO 5', 'GOSUB 60', 'READ D:READ D', 'PRINT "abc";', 'RANDOMIZE 5', 'INPUT E', 'FOR I=1 TO 3:FOR J=1 TO 3:FOR K=1 TO 3', 'A$(3)="s":B$(1,1)="t"']
    for i, s in enumerate(st):
        for j, (c, after) in enumerate((('CLEAR', ''), ('CLEAR:CLEAR', ''), ('A=9:CLEAR:A(12)=1' if 'A(2)' in s else 'CLEAR:B(12)=2', ''))):
            for t in ('PRINT A;A$;A(2)', 'PRINT B(3)', 'PRINT FNA(1)', 'NEXT', 'RETURN', 'READ D:PRINT D', 'PRINT ,"x"', 'PRINT A$(3);B$(1,1);"."', 'DEF FNA(X)=X*{n1}:PRINT FNA(3)', 'DIM B(5):PRINT B(5)', 'FOR I=1 TO 2:PRINT I:NEXT'):
                if not g.deep and (i + j + len(t)) % 3: continue
                if t == 'NEXT' and s.startswith('FOR'): continue      # CLEAR in the body of a loop makes it endless
                p = ['10 ' + s, '20 ' + c, '30 ' + t, '40 PRINT "e":END', '60 ' + c, '70 ' + t, '80 RETURN', '90 DATA 1,2,3,4,5,6']
                g.prog('clear', p, {'n1': I(1, 2)} if '{n1}' in t else {}, reply='4\n' if 'INPUT' in s else '', after=['PRINT A;A$', 'RUN'] + (['4'] if 'INPUT' in s else []) + ['NEXT'])
    for n in (2, 8, 9, 17, 33):
        g.prog('runs', ['10 DATA 1,2', '20 READ A:GOSUB 30', '30 FOR I=1 TO 3:B=B+{n1}:A$=A$+"z":Q(B)=1:DEF FNA(X)=X+B', '40 PRINT A;B;A$;Q(1);FNA(1);"c";'], {'n1': I(1, 2)}, after=['RUN'] * n + ['PRINT B;A$'])

def c24(g):
    for n in (127, 128, 255, 256, 257, 300, 513):
        for o in (('-q', '-t'), ('-q', '-f'), ('-q',)):
            g.file('far', ['%d %s' % (k * 10, 'X=X+1' if k < n - 1 else 'PRINT X+{n1}' if k == n - 1 else 'PRINT LOG(0)') for k in range(1, n + 1)], {'n1': I(0, 1)}, opts=o)
    for d in range(1, 9):
        for i, e in enumerate(('READ A', 'PRINT LOG(0)', 'NEXT', 'GOTO 7', 'A(99)=1', 'STOP', 'END', 'PRINT FNA(1)', 'READ A:READ A$:READ B', 'PRINT 1;:RESTORE 7', 'A$=CHR$(-1)', 'RETURN:RETURN')):
            if not g.deep and (d + i) % 3: continue
            for o in (('-t',), ('-f',), ('-g',), ('-t', '-f', '-g') if i % 2 else ('-q', '-t')):
                L = ['%d %s%s:%sRETURN' % (k * 10, 'FOR I%d=1 TO 1:' % k if k % 2 else '', 'GOSUB %d' % (k * 10 + 10), 'NEXT:' if k % 2 else '') for k in range(1, d + 1)]
                L[0] = L[0].replace(':RETURN', ':END')
                g.file('nested', L + ['%d PRINT {n1}:%s' % (d * 10 + 10, e), '%d PRINT "r":RETURN' % (d * 10 + 20)] + (['900 DATA 1,x'] if i == 8 else []), {'n1': I(1, 2)}, opts=o, **({'nostderr': 1} if '-g' in o else {}))
    for w in range(1, 10):
        n = '123456789'[:w]
        for t in ('PRINT "a";', 'PRINT "a",', 'PRINT TAB(4);"q";', 'A={n1}', 'IF {n1} THEN PRINT "y"; ELSE PRINT "z";'):
            for opts in (('-q', '-t'), ('-t',), ('-q', '-t', '-f'), ('-q', '-m', '-t')):
                g.file('wide-num', [n[:-1] + '0 ' + t if w > 1 else '1 ' + t, '9%s PRINT ,"b";TAB(12);"c"' % n[1:] if w > 1 else '2 PRINT ,"b";TAB(12);"c"', '9%s9 PRINT SPC(2);"d",1' % n[1:] if w < 9 else '999999999 PRINT "d",1'], {'n1': I(0, 1)} if '{n1}' in t else {}, opts=opts)
    for n in (33, 65, 128, 129, 200):
        for opts in (('-q', '-t'), ('-q', '-l'), ('-q', '-p'), ('-q', '-n'), ('-q',)):
            g.file('large', ['%d A%d=A%d+{n1}:PRINT A%d;' % (k * 10, k % 70, (k * 7) % 70, k % 50) for k in range(1, n + 1)], {'n1': I(1, 2)}, opts=opts)

def c25(g):
    # every place where a string statement can fail, with long values
    mk = ['A$="0123456789ABCDEF":A$=A$+A$:A$=A$+A$:A$=A$+A$:B$=A$+"x"', 'DIM C$(3):C$(1)=A$:C$(2)=B$:DEF FNA$(X)=A$+CHR$(X):DEF FNB$(X)=A$+A$+A$']
    for i, e in enumerate(('B$=A$+A$', 'B$=A$+B$', 'PRINT A$+B$', 'PRINT B$+LEFT$(A$,126+{n1})', 'B$=A$+C$(1)', 'C$(2)=C$(1)+C$(2)', 'C$(9)=A$+"y"', 'C$(LOG(0))=A$', 'PRINT FNA$(65)+A$', 'PRINT A$+FNA$(-1)', 'PRINT FNB$(1)', 'IF A$+B$="x" THEN PRINT 1', 'PRINT LEN(A$+B$)', 'PRINT VAL(A$)', 'PRINT ASC(A$+B$)', 'PRINT MID$(A$,0,1)', 'PRINT MID$(B$+"z",200,1)', 'PRINT LEFT$(A$,-{n1})', 'PRINT A$+("b"+CHR$(-1))', 'B$=LEFT$(A$,{n1}*200-100)', 'READ C$(9)', 'INPUT C$(9)', 'B$=RIGHT$(A$+B$,1)', 'PRINT ' + 'A$+(' * 9 + 'A$' + ')' * 9, 'PRINT ' + '"a"+(' * 9 + '"b"' + ')' * 9, 'PRINT STR$(LOG(0))+A$', 'PRINT A$+STR$(LOG(0))', 'C$(1)=C$(1)+C$(1)', 'A$=FNA$(300)', 'PRINT A$=C$(9)', 'DIM C$(70000)', 'DIM C$(-1)', 'LINE INPUT C$(9)', 'FOR I=1 TO 300:B$=B$+"x":NEXT', 'PRINT CHR$(300)+A$', 'PRINT A$+A$=A$+A$')):
        h = {'n1': I(1, 3)} if '{n1}' in e else {}
        r = ['q'] if 'INPUT' in e else []
        for n in (1, 3) if not g.deep else (1, 2, 3, 9):
            g.add('fail-str', ''.join(l + '\n' for l in mk + ([e] + r) * n + ['PRINT LEN(A$);LEN(B$)', 'A$="":B$=""', 'BYE']), h, args=['-m'], mode=1, leak=1)
            g.add('fail-str-run', ''.join(l + '\n' for l in ['%d %s' % (10 + k, m) for k, m in enumerate(mk)] + ['20 ' + e, '25 DATA q', 'RUN'] + r + ['RUN'] + r + ['PRINT LEN(B$)', 'NEW', 'BYE']), h, args=['-m'], mode=1, leak=1)
    for n in NS:
        g.add('large', ''.join(l + '\n' for l in big(n, 10, 'A$(%d-INT(%d/10)*10)="x%d"'.replace('%d', '{}').format('%d', '%d', '%d') if 0 else 'A$="x%d"') + ['5 B$="{b1}"', 'RUN', '%d' % (n * 5), 'RENUM', 'SAVE "f"', 'LOAD "f"', 'LOAD "none"', 'RUN', 'LIST -20', 'BYE']), {'b1': pick('ab')}, args=['-m'], mode=1, leak=1)

def c19(g):
    # an unterminated string after longer and shorter words, read as part of every kind of statement
    for a in ('', 'X', 'ABCDEFGHIJKL', '"long text before",', '1,2,', 'A$;', '"",'):
        for b in ('', 'a', 'abc def', '{b1}{b2}', ':GOTO 20', '{b1},"c', 'abcdefghijklmnopqrstuvwxyz' * 3):
            h = {k: Bt(32, 126) for k in ('b1', 'b2') if '{%s}' % k in b}
            for s in ('DATA ', 'PRINT ', 'A$=', 'INPUT ', 'IF A$=', 'REM '):
                if not g.deep and (len(a) + len(b) + len(s)) % 3: continue
                g.imm('unterm', ['10 %s%s"%s' % (s, a, b), 'LIST', 'RUN', '20 PRINT "k"', 'RUN', '%s%s"%s' % (s, a, b), '10', 'RUN'], h)
                if s == 'DATA ': g.file('unterm-file', ['10 PRINT "k"', '20 %s%s"%s' % (s, a, b), '30 READ A$:PRINT A$'], h)

def c21(g):
    # every pair of uses of one name
    k = 0
    for nm in ('A', 'FNA', 'FNAB', 'Q1', 'LONGNAMED', 'FN'):
        for ty, v in (('', '{n1}'), ('$', '"{b1}"')):
            n = nm + ty
            U = ['DEF %s(X)=%s' % (n, v), 'DEF %s(X,Y)=%s' % (n, v), 'DIM %s(3)' % n, 'DIM %s(3,3)' % n, '%s(1)=%s' % (n, v), '%s(1,2)=%s' % (n, v), 'PRINT %s(1)' % n, 'PRINT %s(1,2)' % n, 'READ %s(1)' % n, 'LET %s(2)=%s' % (n, v), 'INPUT %s(1,2)' % n, '%s=%s' % (n, v), 'PRINT %s' % n, 'FOR %s=1 TO 2:NEXT %s' % (n, n), 'READ %s(1,2,3)' % n, 'PRINT LEN(%s)' % n, 'LINE INPUT %s(2)' % n, 'A1=%s(0)+1' % n, 'PRINT %s(1,2,3)' % n, '%s(%s(1))=%s' % (n, n, v)]
            for i, a in enumerate(U):
                for j, b in enumerate(U):
                    k += 1
                    if k % (3 if g.deep else 13) and not ((i < 2) != (j < 2) and i in (0, 4, 5, 7, 10) and ty): continue
                    h = {q: w for q, w in (('n1', I(1, 2)), ('b1', pick('xy'))) if '{%s}' % q in a + b}
                    g.prog('kinds', ['10 PRINT "s"', '20 ' + a, '30 ' + b, '40 PRINT "e"', '50 DATA 1,2,3'], h, reply='4\n' * ('INPUT' in a) + '4\n' * ('INPUT' in b), after=['PRINT %s(1)' % n])
                    if k % 2 == 0: g.imm('kinds-imm', [a] + ['4'] * ('INPUT' in a) + [b] + ['4'] * ('INPUT' in b) + ['PRINT "k"', a] + ['4'] * ('INPUT' in a), h)
    # every place of a number with every form of a string and the reverse
    NP = ['A=%s', 'A(1)=%s', 'A(%s)=1', 'A(1,%s)=1', 'A(%s,1)=1', 'PRINT A(%s)', 'PRINT A$(%s)', 'FOR I=%s TO 2:NEXT', 'FOR I=1 TO %s:NEXT', 'FOR I=1 TO 2 STEP %s:NEXT', 'IF %s THEN PRINT "y" ELSE PRINT "n"', 'IF %s THEN 40', 'ON %s GOTO 40,40', 'ON %s GOSUB 90', 'DIM Q(%s)', 'DIM Q$(2,%s)', 'PRINT SPC(%s);1', 'PRINT TAB(%s);1', 'RANDOMIZE %s', 'DEF FNC(X)=%s', 'PRINT ABS(%s)', 'PRINT CHR$(%s)', 'PRINT STR$(%s)', 'PRINT LEFT$("abc",%s)', 'PRINT RIGHT$("abc",%s)', 'PRINT MID$("abc",%s)', 'PRINT MID$("abc",%s,1)', 'PRINT MID$("abc",1,%s)', 'PRINT FNB(%s)', 'PRINT FNB$(%s)', 'PRINT 1+%s', 'PRINT %s*2', 'PRINT -%s', 'PRINT NOT %s', 'PRINT 1 AND %s', 'PRINT %s^2', 'PRINT 2^%s', 'PRINT 1=%s', 'PRINT (%s)-1', 'PRINT RND(%s)>2', 'PRINT INT(SQR(%s))', 'A$(%s)="x"', 'INPUT A(%s)', 'READ A(%s)']
    SF = ['"{b1}"', '("{b1}")', '((A$))', 'A$+"x"', '("a"+"{b1}")', 'NOT "x"', 'NOT NOT NOT NOT "x"', '-"x"', '- - -A$', '1+"x"', '"x"+1', '1*("x")', '("x")^2', '2^"x"', '"x" AND 1', '1 OR A$', 'A$="x"="x"', '1=A$', '(A$)=1', 'LEFT$("x",1)', 'A$(1)', 'FNB$(1)', 'CHR$(65)', '(1)+("x")', '("x"<"y")+"x"', 'LEN("x")+"y"', 'MID$(A$,1)+1', 'A$-A$', 'A$*2', '-(A$)', '+"x"', 'TIME$']
    SP = ['A$=%s', 'A$(1)=%s', 'PRINT LEN(%s)', 'PRINT ASC(%s)', 'PRINT VAL(%s)', 'PRINT LEFT$(%s,1)', 'PRINT RIGHT$(%s,1)', 'PRINT MID$(%s,1)', 'PRINT MID$(%s,1,1)', 'DEF FNC$(X)=%s', 'PRINT "a"+%s', 'PRINT %s+"a"', 'PRINT "a"=%s', 'PRINT %s<"a"', 'PRINT "a"+("b"+%s)', 'IF "a"<>%s THEN PRINT "y" ELSE PRINT "n"', 'PRINT LEN("a"+%s)', 'A$=LEFT$(A$+%s,2)', 'PRINT "a"+LEFT$(%s,1)']
    NF = ['{n1}', '({n1})', '((A))', '-A', 'NOT A', '"a"="b"', '("a"="b")', '"a"+1', '1+"a"', 'LEN("a")', '("a"+1)', 'A(1)', 'FNB(1)', 'ASC("a")', '"a"+LEN("a")', '"a"<"b"', '"a" AND "b"', '"a"-"b"', 'A=1', 'VAL("1")', '"a"+A$+A', '(A$)+(A)', '-"a"', 'NOT "a"']
    k = 0
    for PL, FM in ((NP, SF), (SP, NF)):
        for i, pl in enumerate(PL):
            for j, f in enumerate(FM):
                k += 1
                if not g.deep and k % 3 and j not in (1, 6, 7): continue
                st = pl % f; h = {q: w for q, w in (('n1', I(1, 2)), ('b1', pick('xy'))) if '{%s}' % q in st}
                g.prog('place', ['10 PRINT "s":DEF FNB(X)=X:DEF FNB$(X)="q":DIM A(5,5)' if ',' in pl and 'A(1,' in pl or 'A(%s,1' in pl else '10 PRINT "s":DEF FNB(X)=X:DEF FNB$(X)="q"', '20 ' + st, '40 PRINT "e"', '50 DATA 1', '60 END', '90 RETURN'], h, reply='4\n' if 'INPUT' in st else '', after=([st, '4'] if 'INPUT' in st else [st]) + ['PRINT "k"'])
