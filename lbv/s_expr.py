"""Sessions for C01 (expressions), C02 (strings), C03 (conversions)."""
from .gen import *
AR = ['^', '*', '/', '+', '-']
REL = ['=', '<>', '<', '<=', '>', '>=']
LOG = ['AND', 'OR']

def c01(g):
    deep = g.deep
    ops = AR + REL + LOG
    pat3 = ['A%sB%sC', '(A%sB)%sC', 'A%s(B%sC)']
    for o1 in AR:                      # purely arithmetic pairs: any doubles
        ls = ['A={n1}:B={n2}:C={n3}']
        for o2 in AR:
            for p in pat3: ls.append('PRINT ' + p % (o1, o2))
            ls += ['PRINT -A%sB%sC' % (o1, o2)]
        ls += ['PRINT -A%sB' % o1, 'PRINT A%s(-B)' % o1, 'PRINT -(A%sB)' % o1, 'PRINT A%s(B)%s(C)' % (o1, o1)]
        if o1 != '^': ls += ['PRINT A%s-B' % o1, 'PRINT A%s-B^C' % o1]
        nm = {'^': 'pow', '*': 'mul', '/': 'div', '+': 'add', '-': 'sub'}[o1]
        g.prog('arith-' + nm, num(ls), {'n1': S(1e9), 'n2': S(1e9), 'n3': S(1e9)})
        g.prog('arith-small-' + nm, num(ls), {'n1': I(-3, 3), 'n2': I(-3, 3), 'n3': I(-3, 3)})
    names = {'^': 'pow', '*': 'mul', '/': 'div', '+': 'add', '-': 'sub', '=': 'eq', '<>': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', 'AND': 'and', 'OR': 'or'}
    rng = {'n1': I(-2, 3), 'n2': I(-2, 3), 'n3': I(-2, 3)}
    for o1 in ops:
        for o2 in ops:
            if o1 in AR and o2 in AR: continue
            ls = ['A={n1}:B={n2}:C={n3}']
            for p in pat3: ls.append('PRINT ' + p % (' %s ' % o1, ' %s ' % o2))
            g.prog('pair-%s-%s' % (names[o1], names[o2]), num(ls), rng)
    for o in ops:                      # NOT and unary minus next to each operator
        g.prog('not-' + names[o], num(['A={n1}:B={n2}', 'PRINT NOT A %s B' % o, 'PRINT (NOT A) %s B' % o, 'PRINT NOT (A %s B)' % o, 'PRINT A %s (NOT B)' % o] + (['PRINT A %s NOT B' % o] if o in LOG else [])), {'n1': I(-3, 4), 'n2': I(-3, 4)})
        g.prog('neg-' + names[o], num(['A={n1}:B={n2}', 'PRINT -A %s B' % o, 'PRINT -(A %s B)' % o, 'PRINT A %s -B' % o if o != '^' else 'PRINT A^(-B)', 'PRINT A %s -(-B)' % o if o != '^' else 'PRINT -A^-B' if 0 else 'PRINT A^B']), {'n1': H(-4, 4), 'n2': I(-3, 4)})
    # relations over arbitrary doubles; four operands
    for o in REL:
        g.prog('rel-' + names[o], num(['A={n1}:B={n2}', 'PRINT A%sB' % o, 'PRINT (A+B)%sA' % o if 0 else 'PRINT B%sA' % o, 'IF A%sB THEN PRINT "Y" ELSE PRINT "N"' % o, 'PRINT (A%sB)+(B%sA)' % (o, o)]), {'n1': S(1e300), 'n2': S(1e300)})
    for i, e in enumerate(['A+B*C-D', 'A*B+C*D', 'A-B-C-D', 'A/B/C/D', 'A^B^C^D', 'A^B*C^D', '-A^B+C', 'A-(B-C)-D', 'A-(B-(C-D))', 'A/(B/(C/D))', '(A^B)^(C^D)', '((A+B)*(C-D))/2', 'A*-B*-C', '--A', '-(-A)', 'A+-B', 'A--B', '2^-1' if 0 else '2^(-1)', 'A*B/C*D', 'A/B*C/D', 'A+B-C+D', 'A-B+C-D']):
        if i % 6 == 0: ls = ['A={n1}:B={n2}:C={n3}:D={n4}']
        ls.append('PRINT ' + e)
        if i % 6 == 5 or i == 21: g.prog('four', num(ls), {'n%d' % k: S(1e6) for k in (1, 2, 3, 4)})
    for i, e in enumerate(['A<B AND C<D', 'A<B OR C<D AND A<D', 'NOT A<B OR C=D', 'NOT A AND NOT B', 'NOT (A AND B) OR C', 'A AND B OR C AND D', '(A OR B) AND (C OR D)', 'A=B=C', 'A<B<C', 'A+B>C-D', 'A AND B AND C OR D', 'A OR B OR C AND D', 'A>B=C<D', '-A=B AND C', 'NOT -A', 'NOT NOT A', 'A=-B OR A=B']):
        g.prog('logic', num(['A={n1}:B={n2}:C={n3}:D={n4}', 'PRINT ' + e]), {'n1': I(-1, 2), 'n2': I(-1, 2), 'n3': I(-1, 2), 'n4': I(-1, 2)} if not deep else {'n%d' % k: I(-2, 3) for k in (1, 2, 3, 4)})
    # 32-bit logic on the full range, refusal of other operands
    for o in LOG:
        g.prog('bits-' + o.lower(), num(['A={n1}:B={n2}', 'PRINT A %s B' % o]), {'n1': I(-2147483648, 2147483647), 'n2': I(-2147483648, 2147483647)})
        g.prog('bits-const-' + o.lower(), num(['A={n1}', 'PRINT A %s 255' % o, 'PRINT -256 %s A' % o]), {'n1': I(-2147483648, 2147483647)})
        g.prog('refuse-l-' + o.lower(), num(['A={n1}', 'PRINT "B"', 'PRINT A %s 3' % o]), {'n1': H(-2147483660, 2147483660)}, after=['PRINT A'])
        g.prog('refuse-r-' + o.lower(), num(['A={n1}', 'PRINT "B"', 'PRINT 3 %s A' % o]), {'n1': S(1e12)}, after=['PRINT A'])
    g.prog('bits-not', num(['A={n1}', 'PRINT NOT A']), {'n1': I(-2147483648, 2147483647)})
    g.prog('refuse-not', num(['A={n1}', 'PRINT NOT A']), {'n1': H(-2147483660, 2147483660)}, after=['PRINT A'])
    g.prog('refuse-not2', num(['A={n1}', 'PRINT NOT A']), {'n1': S(1e15)}, after=['PRINT A'])
    # numeric functions
    for f in ['ABS', 'SGN', 'INT', 'SQR', 'LOG', 'EXP', 'SIN', 'COS', 'TAN', 'ATN']:
        g.prog('fun-' + f.lower(), num(['A={n1}', 'PRINT %s(A)' % f, 'PRINT %s(-A)' % f, 'B=%s(A)+1' % f, 'PRINT B']), {'n1': S(1e12)}, after=['PRINT A'])
        g.prog('fun-int-' + f.lower(), num(['A={n1}', 'PRINT -%s(A)^2*3' % f, 'PRINT %s(A+1)-%s(A)' % (f, f)]), {'n1': H(-6, 6)}, after=['PRINT A'])
    g.prog('fun-nest', num(['A={n1}', 'PRINT SQR(ABS(INT(A)))', 'PRINT SGN(INT(A)-A)', 'PRINT ABS(SGN(A))', 'PRINT INT(ABS(A)+.5)*SGN(A)', 'PRINT INT(-A)']), {'n1': H(-20, 20)})
    g.prog('log', num(['A={n1}', 'PRINT LOG(A)']), {'n1': H(-3, 3)}, after=['PRINT "OK"', 'PRINT LOG(0)', 'PRINT LOG(-1)', 'PRINT LOG(1)'])
    g.prog('zero-div', num(['A={n1}:B={n2}', 'PRINT A/B', 'PRINT 1/(A-B)', 'PRINT INT(A/B)', 'PRINT SGN(A/B)']), {'n1': I(-2, 2), 'n2': I(-1, 1)})
    # strings
    g.prog('concat', num(['A$="{b1}":B$="{b2}":C$="{b3}"', 'PRINT A$+B$+C$', 'PRINT A$+(B$+C$)', 'PRINT (A$+B$)+C$', 'PRINT A$+B$=C$+"x"', 'PRINT (A$+B$)<(B$+A$)']), {'b1': Bt(33, 126, '"'), 'b2': Bt(33, 126, '"'), 'b3': Bt(33, 126, '"')})
    for o in REL:
        g.prog('srel-' + names[o], num(['A$="{b1}{b2}":B$="{b3}{b4}"', 'PRINT A$%sB$' % o, 'PRINT (A$%s"")+(LEFT$(A$,1)%sB$)' % (o, o), 'PRINT A$%sB$ AND 5' % o, 'PRINT NOT A$%sB$' % o]), {'b%d' % k: Bt(32, 126, '"') for k in (1, 2, 3, 4)})
    # the same expression in every place an expression can stand
    ex = 'A-B*C'
    rg = {'n1': I(0, 4), 'n2': I(0, 2), 'n3': I(1, 2)}
    st = 'A={n1}:B={n2}:C={n3}'
    g.prog('places-print', num([st, 'PRINT %s' % ex, 'LET X=%s:PRINT X' % ex, 'DEF FNA(Z)=A-B*Z', 'PRINT FNA(C);FNA(%s)' % ex, 'PRINT ABS(%s)' % ex]), {'n1': S(1e6), 'n2': S(1e6), 'n3': S(1e6)})
    g.prog('places-str', num([st, 'PRINT STR$(%s);"A"+STR$(%s)' % (ex, ex)]), rg)
    g.prog('places-if', num([st, 'IF %s THEN PRINT "T" ELSE PRINT "F"' % ex, 'IF %s<1 THEN 50' % ex, 'PRINT "X"', 'PRINT "Y"']), rg)
    g.prog('places-array', num([st, 'DIM X(10)', 'X(ABS(%s))=%s' % (ex, ex), 'FOR I=0 TO 5:PRINT X(I);:NEXT']), rg)
    g.prog('places-for', num([st, 'FOR I=%s TO %s+1:PRINT I:NEXT' % (ex, ex)]), rg)
    g.prog('places-on', num([st, 'ON %s GOTO 40,50,60' % ex, 'PRINT 1', 'PRINT 2', 'PRINT 3', 'PRINT 4']), rg)
    g.prog('places-tab', num([st, 'PRINT "A";TAB(%s+5);"B";SPC(%s+5);"C"' % (ex, ex), 'PRINT LEFT$("ABCDEFG",%s+4)' % ex]), rg)
    g.imm('immediate', ['A={n1}', 'B={n2}', 'PRINT A-B-1', '?A/B/2', '?-A^2', '?A+B*2', '?(A+B)*2', '?A-(B-1)', '?2^3^A', '?A<B', '?NOT A<B'], {'n1': I(-5, 5), 'n2': I(-5, 5)})
    # depth of the evaluation stack
    for d in ([6, 13, 14, 15, 16, 17] if not deep else range(2, 22)):
        g.prog('depth', num(['A={n1}', 'PRINT ' + 'A+(' * d + 'A' + ')' * d]), {'n1': I(-9, 9)}, after=['PRINT A'])
        g.prog('depth-left', num(['A={n1}', 'PRINT ' + '(' * d + 'A' + '+A)' * d]), {'n1': I(-9, 9)}, after=['PRINT A'])
        g.prog('depth-pow', num(['A={n1}', 'PRINT ' + 'A^' * d + 'A']), {'n1': I(1, 2)}, after=['PRINT A'])
    for d in [5, 6, 7, 8, 9]:
        g.prog('depth-s', num(['A$="{b1}"', 'PRINT ' + 'A$+(' * d + 'A$' + ')' * d]), {'b1': Bt(65, 90)}, after=['PRINT A$'])
    if deep:
        import itertools
        for o1, o2, o3 in itertools.product(AR, AR, AR):
            g.prog('triple', num(['A={n1}:B={n2}:C={n3}:D={n4}', 'PRINT A%sB%sC%sD' % (o1, o2, o3), 'PRINT A%s(B%sC)%sD' % (o1, o2, o3), 'PRINT A%s(B%sC%sD)' % (o1, o2, o3), 'PRINT (A%sB)%s(C%sD)' % (o1, o2, o3), 'PRINT -A%sB%s(-C)%sD' % (o1, o2, o3)]), {'n%d' % k: S(1e6) for k in (1, 2, 3, 4)})
        for o1, o2, o3 in itertools.product(ops, ops, ops):
            if len({o1, o2, o3} & set(AR)) < 3 and (REL.index(o1) if o1 in REL else 0) + (REL.index(o2) if o2 in REL else 0) + (REL.index(o3) if o3 in REL else 0) in (0, 2, 4):
                g.prog('triple-mixed', num(['A={n1}:B={n2}:C={n3}:D={n4}', 'PRINT A %s B %s C %s D' % (o1, o2, o3)]), {'n%d' % k: I(0, 2) for k in (1, 2, 3, 4)})

def c02(g):
    deep = g.deep
    L3 = {'b1': Bt(32, 126, '"'), 'b2': Bt(32, 126, '"'), 'b3': Bt(32, 126, '"')}
    nn = I(-2, 6)
    for f in ['LEFT$', 'RIGHT$']:
        k = f[:-1].lower()
        for n, s in ((0, ''), (1, '{b1}'), (3, '{b1}{b2}{b3}')):
            g.prog('%s-%d' % (k, n), num(['S$="%s":N={n1}:T$="keep"' % s, 'PRINT "[";%s(S$,N);"]"' % f, 'T$=%s(S$,N)+"|"+%s(S$,0)' % (f, f), 'PRINT T$;LEN(T$)']), dict({b: L3[b] for b in L3 if b in s}, n1=nn), after=['PRINT S$;N;T$'])
        g.prog('%s-half' % k, num(['N={n1}', 'PRINT "[";%s("abcd",N);"]"' % f]), {'n1': H(-3, 6)}, after=['PRINT N'])
        g.prog('%s-big' % k, num(['N={n1}', 'PRINT "[";%s("abcd",N);"]"' % f]), {'n1': S(1e12)}, after=['PRINT N'])
        g.prog('%s-wide' % k, num(['N={n1}', 'PRINT "[";%s("abcd",N);"]"' % f]), {'n1': I(-5000000000, 5000000000)}, after=['PRINT N'])
        g.prog('%s-long' % k, num(['A$="%s"' % ('0123456789' * 9), 'B$=A$+A$:N={n1}', 'C$=%s(B$,N)' % f, 'PRINT LEN(C$);"[";LEFT$(C$,2);RIGHT$(C$,2);"]"']), {'n1': I(170, 190) if not deep else I(0, 300)})
    for s in ('', '{b1}', '{b1}{b2}{b3}'):
        g.prog('mid-%d' % (len(s) // 4), num(['S$="%s":I={n1}:N={n2}:T$="keep"' % s, 'PRINT "[";MID$(S$,I,N);"]"', 'T$=MID$(S$,I,N)', 'PRINT T$;LEN(T$)']), dict({b: L3[b] for b in L3 if b in s}, n1=I(-1, 5), n2=I(-1, 5)), after=['PRINT S$;I;N;T$'])
    g.prog('mid-half-i', num(['I={n1}', 'PRINT "[";MID$("abcd",I,2);"]"']), {'n1': H(-1, 6)}, after=['PRINT I'])
    g.prog('mid-half-n', num(['I={n1}', 'PRINT "[";MID$("abcd",2,I);"]"']), {'n1': H(-1, 6)}, after=['PRINT I'])
    g.prog('mid-big-i', num(['I={n1}', 'PRINT "[";MID$("abcd",I,2);"]"']), {'n1': S(1e12)}, after=['PRINT I'])
    g.prog('mid-big-n', num(['I={n1}', 'PRINT "[";MID$("abcd",2,I);"]"']), {'n1': S(1e12)}, after=['PRINT I'])
    g.prog('mid-wide', num(['I={n1}:N={n2}', 'PRINT "[";MID$("abcd",I,N);"]"']), {'n1': I(-4294967300, 4294967300), 'n2': I(-4294967300, 4294967300)}, after=['PRINT I'])
    g.prog('mid-long', num(['A$="%s"' % ('0123456789' * 9), 'B$=A$+A$:I={n1}:N={n2}', 'C$=MID$(B$,I,N)', 'PRINT LEN(C$);"[";LEFT$(C$,2);RIGHT$(C$,2);"]"']), {'n1': I(176, 182), 'n2': I(0, 8)})
    g.prog('mid-long2', num(['A$="%s"' % ('0123456789' * 9), 'B$=A$+A$:I={n1}:N={n2}', 'C$=MID$(B$,I,N)', 'PRINT LEN(C$);"[";LEFT$(C$,2);RIGHT$(C$,2);"]"']), {'n1': I(1, 3), 'n2': I(176, 182)})
    # strings of exactly the longest length
    big = ['A$="%s":B$=A$+A$+A$+A$+LEFT$(A$,14)+"{b1}"' % ('0123456789' * 6), 'N={n1}:PRINT LEN(B$)']
    hb = {'n1': I(250, 258), 'b1': Bt(65, 90)}
    for f in ('LEFT$(B$,N)', 'RIGHT$(B$,N)', 'MID$(B$,1,N)', 'MID$(B$,N,1)', 'MID$(B$,N,9)', 'MID$(B$,2,N)', 'MID$(B$,N-250,N)', 'LEFT$(B$,N-250)', 'RIGHT$(B$,N-250)', 'LEFT$(B$+"",N)', 'LEFT$(B$,N-5)+LEFT$(B$,5)', 'RIGHT$(LEFT$(B$,N),N)', 'B$+LEFT$(B$,N-254)', 'LEFT$(B$,N-254)+B$'):
        g.prog('max', num(big + ['C$=%s:PRINT LEN(C$);"[";LEFT$(C$,2);"]";RIGHT$(C$,3)' % f, 'IF C$=B$ THEN PRINT "SAME"', 'IF C$<B$ THEN PRINT "LESS"', 'PRINT C$;"."', 'D$=C$:DIM E$(2):E$(1)=D$:PRINT LEN(E$(1));ASC(E$(1))']), hb, after=['PRINT N;LEN(B$);LEN(C$)'])
    for n in (251, 252, 253, 254, 255, 256):
        w = ('0123456789' * 26)[:n - 1]
        g.file('max-line', ['10 LINE INPUT A$', '20 PRINT LEN(A$);RIGHT$(A$,2)'], {'b1': Bt(65, 90)}, stdin=w + '{b1}\n')
    # nested use: arguments must not disturb each other
    g.prog('nest', num(['S$="{b1}{b2}{b3}":I={n1}', 'PRINT LEFT$(MID$(S$,2,2)+"xy",I)+RIGHT$(S$,LEN(LEFT$(S$,I)))', 'PRINT MID$(LEFT$(S$,3)+RIGHT$(S$,1),I+1,LEN(S$)-1)', 'PRINT LEN(S$+S$);LEN("");LEN(MID$(S$,1,0))']), dict(L3, n1=I(0, 4)))
    # concatenation at the limit
    w = 'x' * 100
    for lens in ((100, 100), (50, 100)):
        pass
    for first in ('C$+D$', 'D$+C$', '"abc"+C$', 'C$+"abc"', 'A$+B$+D$', 'D$+(B$+A$)', 'B$+D$+A$', 'LEFT$(C$,200)+D$+LEFT$(C$,50)'):
        g.prog('limit', num(['A$="%s"' % ('0123456789' * 10), 'B$=A$+"%s"' % ('abcdefghij' * 5), 'C$=A$+B$', 'D$=LEFT$("{b1}234567890",N)' if 0 else 'N={n1}:D$=LEFT$("{b1}234567890",N):T$="keep"', 'T$=%s' % first, 'PRINT LEN(T$);LEFT$(T$,3);RIGHT$(T$,12)']), {'n1': I(0, 10), 'b1': Bt(48, 57)}, after=['PRINT T$;N', 'PRINT LEN(A$);LEN(B$);LEN(C$);LEN(D$)'])
    g.prog('limit-acc', num(['A$="":N={n1}', 'FOR I=1 TO 300', 'A$=A$+LEFT$("abcdefghij",N)', 'NEXT', 'PRINT LEN(A$)']), {'n1': I(0, 10) if deep else I(3, 8)}, after=['PRINT I;LEN(A$);N;RIGHT$(A$,3)'])
    g.prog('limit-double', num(['A$="{b1}"', 'FOR I=1 TO {n1}', 'A$=A$+A$', 'NEXT', 'PRINT LEN(A$)']), {'n1': I(6, 10), 'b1': Bt(65, 70)}, after=['PRINT I;LEN(A$)'])
    g.prog('limit-args', num(['A$="%s"' % ('0123456789' * 10), 'A$=A$+A$:N={n1}', 'PRINT LEN(A$+LEFT$(A$,N))', 'DEF FNL(X)=LEN(A$+LEFT$(A$,X))', 'PRINT FNL(N)', 'IF A$+LEFT$(A$,N)=A$ THEN PRINT "SAME"', 'PRINT A$+LEFT$(A$,N)']), {'n1': I(53, 58)}, after=['PRINT LEN(A$)', 'PRINT FNL(2)'])
    # relations: unsigned code order, prefixes, all six operators
    for o in REL:
        nm = {'=': 'eq', '<>': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[o]
        g.prog('rel-code-' + nm, num(['A$=CHR$({n1}):B$=CHR$({n2})', 'PRINT A$%sB$;A$+"a"%sB$+"b";"a"+A$%s"a"+B$' % (o, o, o)]), {'n1': I(0, 255), 'n2': I(0, 255)} if deep else {'n1': I(120, 135), 'n2': I(0, 255)})
        g.prog('rel-len-' + nm, num(['S$="{b1}{b2}{b3}":T$="{b4}{b5}{b6}"', 'A$=LEFT$(S$,{n1}):B$=LEFT$(T$,{n2})', 'IF A$%sB$ THEN PRINT "yes" ELSE PRINT "no"' % o]), {'b1': Bt(64, 66), 'b2': Bt(64, 66), 'b3': Bt(64, 66), 'b4': Bt(64, 66), 'b5': Bt(64, 66), 'b6': Bt(64, 66), 'n1': I(0, 3), 'n2': I(0, 3)})
        g.prog('rel-long-' + nm, num(['A$="%s{b1}z"' % ('q' * 60), 'B$="%s{b2}{b3}"' % ('q' * 60), 'PRINT A$%sB$;B$%sA$' % (o, o)]), {'b1': Bt(32, 126, '"'), 'b2': Bt(32, 126, '"'), 'b3': Bt(120, 123)})
        g.prog('rel-case-' + nm, num(['PRINT "{b1}"%s"{b2}";"x{b1}"%s"x{b2}"' % (o, o)]), {'b1': Bt(64, 123), 'b2': Bt(64, 123)})
    # copies are independent
    hb = {'b1': Bt(65, 90), 'b2': Bt(65, 90), 'n1': I(0, 3), 'n2': I(0, 3)}
    g.prog('copy', num(['A$="{b1}":B$=A$:A$="{b2}"', 'PRINT A$;B$', 'B$=A$+B$:C$=B$:B$=LEFT$(B$,1):C$=C$+A$', 'PRINT A$;B$;C$', 'A$=A$:B$=B$+B$:PRINT A$;B$', 'A$=A$+A$+B$:PRINT A$;B$;C$']), hb)
    g.prog('copy-array', num(['DIM A$(3)', 'A$({n1})="{b1}":A$({n2})=A$({n1})+"{b2}"', 'A$({n1})="new":B$=A$({n2}):A$({n2})=""', 'FOR I=0 TO 3:PRINT "[";A$(I);"]";:NEXT', 'PRINT B$', 'A$({n1})=A$({n1}):A$({n2})=A$({n1})', 'A$({n1})="zz":FOR I=0 TO 3:PRINT "[";A$(I);"]";:NEXT']), hb)
    g.prog('copy-swap', num(['DIM A$(2,1):N={n1}', 'FOR I=0 TO 2:A$(I,1)=CHR$(65+I):NEXT', 'T$=A$(0,1):A$(0,1)=A$(N,1):A$(N,1)=T$', 'FOR I=0 TO 2:PRINT A$(I,1);A$(I,0);:NEXT', 'PRINT T$']), {'n1': I(0, 2)})
    g.prog('copy-data', num(['FOR I=1 TO 2:RESTORE:READ A$,B$:C$=A$:A$=A$+"{b2}":B$="x":PRINT A$;B$;C$:NEXT', 'DATA "{b1}","k"']), hb)
    g.prog('copy-def', num(['A$="{b1}"', 'DEF FNA$(X)=A$+LEFT$("{b2}yz",X)', 'B$=FNA$(1):A$="q":C$=FNA$(2)', 'PRINT A$;B$;C$']), hb)
    g.imm('copy-imm', ['A$="{b1}"', 'B$=A$', 'A$="{b2}"+A$', 'PRINT A$,B$', 'C$=B$+A$+B$', 'B$=""', 'PRINT A$,B$,C$'], hb)
    g.imm('copy-input', ['LINE INPUT A$', '{b1}{b2}', 'B$=A$', 'LINE INPUT A$', '{b2}', 'PRINT A$;B$', 'INPUT C$,D$', '{b1},x', 'PRINT A$;B$;C$;D$'], hb)
    # longest strings by character
    for n in (126, 127, 128):
        g.imm('const-len', ['A$="%s{b1}"' % ('y' * (n - 1 - 8)), 'PRINT LEN(A$);RIGHT$(A$,2)'], {'b1': Bt(32, 126, '"')})
    for n in (125, 126, 127, 128):
        g.file('const-len', ['10 A$="%s{b1}"' % ('y' * (n - 1)), '20 PRINT LEN(A$);RIGHT$(A$,2);A$'], {'b1': Bt(32, 126, '"')})

NUMCH = '0123456789.+-eE '
def c03(g):
    deep = g.deep
    g.prog('chr-asc', num(['N={n1}', 'A$=CHR$(N):PRINT LEN(A$);ASC(A$)', 'PRINT ASC(CHR$(N)+"x");ASC("x"+A$)']), {'n1': I(-3, 260)}, after=['PRINT N;A$;"."'])
    g.prog('chr-half', num(['N={n1}', 'PRINT ASC(CHR$(N))']), {'n1': H(-2, 258)}, after=['PRINT N'])
    g.prog('chr-big', num(['N={n1}', 'PRINT ASC(CHR$(N))']), {'n1': S(1e15)}, after=['PRINT N'])
    g.prog('chr-wrap', num(['N={n1}', 'PRINT ASC(CHR$(N))']), {'n1': I(-4294967600, 4294967600)}, after=['PRINT N'])
    g.prog('chr-out', num(['N={n1}', 'PRINT "[";CHR$(N);CHR$(N)+CHR$(N);"]"']), {'n1': I(0, 255)})
    g.prog('asc', num(['A$="{b1}{b2}":PRINT ASC(A$);ASC(RIGHT$(A$,1));ASC("")', 'PRINT CHR$(ASC(A$));CHR$(ASC(A$)+1)']), {'b1': Bt(32, 125, '"'), 'b2': Bt(32, 126, '"')})
    g.prog('asc-cmp', num(['A$="{b1}"', 'IF ASC(A$)=65 THEN PRINT "is A" ELSE PRINT "not A"', 'IF CHR$(ASC(A$))=A$ THEN PRINT "same"']), {'b1': Bt(32, 126, '"')})
    # STR$ and PRINT agree
    for nm, h in (('int', I(-150, 150)), ('half', H(-12, 12)), ('1e6', I(999990, 1000010)), ('neg', I(-1000002, -999996))):
        g.prog('str-' + nm, num(['N={n1}', 'PRINT N;"|";STR$(N);"|"', 'PRINT VAL(STR$(N));LEN(STR$(N))', 'IF VAL(STR$(N))=N THEN PRINT "EQ" ELSE PRINT "NE"', 'A$=STR$(N)+"x"+STR$(-N):PRINT A$']), {'n1': h})
    g.prog('str-wide', num(['N={n1}', 'PRINT N;VAL(STR$(N))', 'PRINT LEN(STR$(N))']), {'n1': I(-999999, 999999)} if deep else {'n1': I(-9999, 9999)})
    for e in ('N/4', 'N/1000', 'N*1E10', 'N/1E7', 'N/3', '1/N', 'N*123456789', 'N*N*N*N*N*N*N*N', '(N+.5)*1E-6'):
        g.prog('str-expr', num(['N={n1}:X=%s' % e, 'PRINT X;STR$(X);LEN(STR$(X))', 'PRINT VAL(STR$(X))']), {'n1': I(-6, 6) if not deep else I(-40, 40)})
    # VAL of every short text over the characters of numerals
    ch = pick('0123456789.+-eE ') if deep else pick('017.+-eE ')
    g.prog('val1', num(['PRINT VAL("{b1}")']), {'b1': Bt(32, 126, '"')}, after=['PRINT "OK"'])
    g.prog('val2', num(['PRINT VAL("{b1}{b2}")']), {'b1': ch, 'b2': Bt(32, 126, '"')}, after=['PRINT "OK"'])
    g.prog('val2b', num(['PRINT VAL("{b1}{b2}")']), {'b2': ch, 'b1': Bt(32, 126, '"')}, after=['PRINT "OK"'])
    g.prog('val3', num(['PRINT VAL("{b1}{b2}{b3}")']), {'b1': ch, 'b2': ch, 'b3': ch}, after=['PRINT "OK"'])
    g.prog('val4', num(['PRINT VAL("1{b1}{b2}{b3}")']), {'b1': ch, 'b2': ch, 'b3': ch}, after=['PRINT "OK"'])
    g.prog('val5', num(['PRINT VAL("{b1}.{b2}{b3}2")']), {'b1': ch, 'b2': ch, 'b3': ch}, after=['PRINT "OK"'])
    g.prog('val6', num(['PRINT VAL(" {b1}5{b2}{b3} ")']), {'b1': ch, 'b2': ch, 'b3': ch}, after=['PRINT "OK"'])
    for t in ['inf', 'nan', '0x10', '0X1F', 'infinity', '1e', '1e+', '1d3', '1_0', '1,0', '', ' ', '+', '-', '.', '-.', '.5', '5.', '+.5', '--5', '- 5', '+ 5', '1 2', '1e400', '1e-400', '1E5', '1e05', '1e+05', '$5', '5$', '5%', '&H10', '1e5.5', '00012', '-0', '123456789012345678901234567890', '0.000000000000000000001']:
        g.prog('val-text', num(['A$="%s{b1}"' % t, 'PRINT VAL(LEFT$(A$,%d))' % len(t), 'PRINT "K"', 'PRINT VAL(A$)']), {'b1': pick(' 0x')}, after=['PRINT "OK"'])
        g.prog('val-lit', num(['READ A:PRINT A', 'DATA %s' % (t or '""')]), {}, after=['PRINT VAL("%s")' % t, 'INPUT A', t, '7', 'PRINT A'])
    # the same numeral in the four places
    d = pick('0123456789'); e2 = pick('05.eE') if not deep else pick('0125.eE')
    for nm, pat, hs in (('int', '{b1}{b2}', (d, d)), ('frac', '{b1}.{b2}{b3}', (d, d, d)), ('exp', '{b1}e{b2}', (d, pick('01234'))), ('expn', '{b1}E-{b2}', (d, pick('01234'))), ('expp', '{b1}.5e+{b2}', (d, pick('01234'))), ('dot', '.{b1}{b2}', (d, d)), ('enddot', '{b1}{b2}.', (d, d)), ('mix', '{b1}{b2}{b3}', (e2, e2, e2)), ('lead', '0{b1}{b2}', (e2, e2))):
        hs = {'b%d' % (i + 1): h for i, h in enumerate(hs)}
        t = pat
        g.prog('same-const-' + nm, num(['A=%s' % t, 'PRINT A;-%s;A=VAL("%s")' % (t, t)]), hs, after=['PRINT %s' % t])
        g.prog('same-data-' + nm, num(['READ A,B', 'PRINT A;A=VAL("%s");B' % t, 'DATA %s , -%s' % (t, t)]), hs, after=['PRINT A'])
        g.prog('same-input-' + nm, num(['INPUT A', 'PRINT A;A=VAL("%s")' % t]), hs, reply=t + '\n0\n', after=['PRINT A'])
    for t in ['123456.5', '1234567', '1e10', '1e-5', '0.1', '3.14159265358979', '1e308', '4.9e-324', '2147483648', '99999999999', '.000001', '1E+2', '16777217', '0.30000000000000004']:
        g.prog('same-lit', num(['A=%s:READ B:INPUT C:D=VAL("%s")' % (t, t), 'PRINT A;B;C;D;A=B;B=C;C=D;{n1}', 'DATA %s' % t]), {'n1': I(0, 9)}, reply=t + '\n')
    for l in ['1 2', '1.2.3', '1e5e5', '1..2', '1e', '1e+', '1eX', '.', '5E', '1E1E1', '0x10']:
        g.prog('const-odd', num(['A=1', 'PRINT %s' % l]), {}, after=['PRINT A'])
        g.prog('const-odd2', num(['A={n1}', 'E=2:X=3:PRINT %s;A' % l]), {'n1': I(0, 9)}, after=['PRINT A'])
