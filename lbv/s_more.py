"""Further families: crosses of language features with each other, lengths around every fixed size, repetition."""
import itertools
from .gen import *

any_ = Bt(32, 126); d = pick('0123456789')

# ---- values of every kind, and how to print them all
SETALL = ['A=1:A$="a"', 'A(0)=2:A(1)=3:A(10)=4', 'B(0,0)=5:B(1,2)=6:B(10,10)=7', 'A$(0)="b":A$(1)="c":A$(10)="d"', 'B$(0,0)="e":B$(1,2)="f":B$(10,10)="g"', 'LONGNAME=8:LONGNAME$="h":LONGNAME(2)=9:LONGNAME$(2)="i"', 'DIM C(2,3):C(2,3)=10:DIM C$(2,3):C$(2,3)="j":DIM D(20):D(20)=11:DIM D$(20):D$(20)="k"']
SHOWALL = ['PRINT A;A$;A(0);A(1);A(10);B(0,0);B(1,2);B(10,10)', 'PRINT A$(0);A$(1);A$(10);B$(0,0);B$(1,2);B$(10,10);"."', 'PRINT LONGNAME;LONGNAME$;LONGNAME(2);LONGNAME$(2);"."', 'PRINT C(2,3);C$(2,3);D(10);D$(10);"."']
SHOWD = ['PRINT D(20);D$(20)']

def c02(g):
    deep = g.deep
    mk = ['10 A$="12345678":FOR I=1 TO 4:A$=A$+A$:NEXT', '20 B$=A$:PRINT LEN(A$)']
    for L in range(120, 136):
        g.prog('cat', mk + ['30 PRINT LEN(LEFT$(A$,{n1})+LEFT$(A$+A$,%d))' % L if L < 128 else '30 C$=A$+LEFT$(A$,%d):PRINT LEN(C$+LEFT$(A$,{n1}))' % (L - 10)], {'n1': I(118 if L < 128 else 0, 129 if L < 128 else 20)}, after=['PRINT "K"'])
    g.prog('cat3', mk + ['30 C$=LEFT$(A$,{n1})+LEFT$(A$,{n2})+"x":PRINT LEN(C$);RIGHT$(C$,3)'], {'n1': I(126, 128), 'n2': I(124, 129)}, after=['PRINT "K"'])
    g.prog('cat-chars', mk + ['30 C$=LEFT$(A$,127)+B$:PRINT LEN(C$);MID$(C$,{n1},3);RIGHT$(C$,{n2})'], {'n1': I(124, 130), 'n2': I(0, 2)}, after=['PRINT C$;"."'])
    g.prog('mid-long', mk + ['30 C$=LEFT$(A$,127)+B$', '40 PRINT LEN(MID$(C$,{n1},{n2}));LEN(RIGHT$(C$,{n1}));LEN(LEFT$(C$,{n1}))'], {'n1': I(250, 258), 'n2': I(0, 8)}, after=['PRINT "K"'])
    g.prog('cmp-long', mk + ['30 C$=LEFT$(A$,127)+"{b1}":B$=LEFT$(A$,127)+"{b2}":PRINT C$=B$;C$<B$;C$>B$;C$<=B$;C$>=B$;C$<>B$'], {'b1': pick('789'), 'b2': pick('789')})
    g.prog('array-long', mk + ['30 S$(1)=LEFT$(A$,127)+A$:S$(2)=S$(1):S$(1)="":PRINT LEN(S$(2));LEN(S$(1));LEN(S$(2)+"{b1}")'], {'b1': pick('ab')}, after=['PRINT S$(2)', 'PRINT "K"'])

def c10(g):
    deep = g.deep
    tg = ['A', 'A$', 'A(1)', 'A(1,2)', 'A$(1)', 'A$(2,1)', 'A,B', 'A$,B$', 'A(1),B', 'B,A(1)', 'A(1,2),B$', 'A$(1,2),B(1)', 'A(1),A(2)', 'I,A(I)', 'A(1),B(1,1),C', 'A,A$,B,B$']
    bad = ['x', '-', '1x', 'x,1,2']
    for ti, t in enumerate(tg):
        pr = 'PRINT A;A$;B;B$;C'
        # every kind of target, with and without a prompt, against a run of unacceptable replies
        for pi, p in enumerate(('', '"p";', '"q",', 'LINE' if 0 else '"";')):
            if not deep and (ti + pi) % 2: continue
            g.prog('retry', ['5 A=-1:A$="o":B=-2:B$="r"', '10 PRINT "ab";:INPUT %s%s' % (p, t), '20 PRINT "c"', '30 ' + pr], {'b1': pick('x,"1 ')}, reply='{b1}\nx,y,z,u\n' + '1,2,3,4,5\n\n' + '1\n1,2\n1,2,3\n1,2,3,4\n', after=['PRINT A(1);A$(1)', 'PRINT A(1,2);A$(1,2);A$(2,1);B(1);B(1,1)', 'PRINT "K"'])
        # many rejections in a row leave nothing behind
        rj = ''.join(bad[(k + ti) % 4] + '\n' for k in range(60 if deep else 26))
        if t[0] != 'A' or '$' not in t.split(',')[0]:
            g.prog('many', ['10 INPUT %s' % t, '20 PRINT "c"'], {'b1': pick('345')}, reply=rj + '{b1}\n{b1},2\n1,2,3\n1,2,3,4\n', after=['PRINT "K"', 'PRINT A$+B$;1+2*(3+4)', 'FOR Q=1 TO 2:PRINT Q:NEXT'])
    # long replies: too short in items, rejected, then a shorter one; the same variable twice
    for L in (60, 90, 99, 100, 101, 102, 110, 118, 124, 125, 126):
        for t, r2 in (('A$,B$', 'p,{b1}q'), ('A$,B', 'pq,3'), ('A,B$', '4,{b1}'), ('A$(1),B$', 'z,{b1}')):
            g.prog('long-few', ['10 INPUT %s' % t, '20 PRINT A$;B$;A;B;A$(1)' if '(' in t else '20 PRINT A$;B$;A;B'], {'b1': pick('xyz')}, reply='w' * (L - 1) + '{b1}\n' + r2 + '\n1,2\n')
        g.prog('long-2', ['10 INPUT A$,B$:PRINT A$;"|";B$', '20 INPUT A$,B$:PRINT A$;"|";B$', '30 LINE INPUT A$:PRINT A$'], {'b1': Bt(32, 126, ',')}, reply='w' * (L - 30) + ',' + 'v' * 28 + '{b1}\nk,{b1}\n' + '{b1}' + 'u' * (L - 1) + '\n')
    # a reply exactly filling the buffer, over it, and what comes next
    for L in (126, 127, 128, 129, 200, 253, 254, 255, 256, 300):
        g.prog('fill', ['10 LINE INPUT A$:PRINT LEN(A$);RIGHT$(A$,2)', '20 INPUT B$:PRINT LEN(B$);RIGHT$(B$,2)', '30 INPUT B:PRINT B'], {'b1': pick('xyz')}, reply='w' * (L - 1) + '{b1}\n' + 'v' * (L - 1) + '{b1}\n7\n8\n9\n', after=['PRINT "K"'])
    # characters: quotes, control characters and high characters in every kind of reply
    for r in ('{b1}"a,b"', '"a{b1}b",c', 'a"{b1}",c', '"a"{b1},c', '{b1}{b2},c', '"{b1}', 'a{b1},"b,c"', ' "a"{b1} , b '):
        g.prog('quotes', ['10 INPUT A$,B$', '20 PRINT A$;"|";B$;"|"'], {'b1': any_, 'b2': pick(' ",a')} if '{b2}' in r else {'b1': any_}, reply=r + '\nk,l\nm,n\n')
        g.prog('quotes1', ['10 INPUT A$', '20 PRINT A$;"|"', '30 LINE INPUT A$:PRINT A$;"|"'], {'b1': any_, 'b2': pick(' ",a')} if '{b2}' in r else {'b1': any_}, reply=r + '\nk\nl\nm\n')
    # inside other constructs, rejected and accepted
    for i, p in enumerate((['10 FOR I=1 TO 2:INPUT A(I):NEXT', '20 PRINT A(1);A(2)'], ['10 GOSUB 30:PRINT A', '20 END', '30 INPUT "s";A:RETURN'], ['10 IF 1 THEN INPUT A:PRINT "t" ELSE PRINT "e"', '20 PRINT A'], ['10 IF 0 THEN PRINT 1 ELSE INPUT A,B:PRINT "e"', '20 PRINT A;B'], ['10 DEF FNA(X)=X+1:INPUT A(FNA(1))', '20 PRINT A(2)'], ['10 INPUT A:INPUT B:INPUT A$', '20 PRINT A;B;A$'], ['10 INPUT A:IF A<3 THEN 10', '20 PRINT A'], ['10 PRINT "x",:INPUT A:PRINT "y",A'], ['10 ON 1 GOSUB 30,30:PRINT A', '20 END', '30 INPUT A:PRINT "r":RETURN'], ['10 READ A:INPUT B:READ C:PRINT A;B;C', '20 DATA 5,6'], ['10 A$="z":INPUT A$:PRINT A$+A$'])):
        g.prog('in', p, {'b1': pick('0123x,'), 'b2': pick('45x ')}, reply='{b1}\n{b2}\n1,2\n3\n4\n5\n6\n', after=['PRINT "K";A;B;A$'])
        g.file('inf', p, {'b1': pick('0123x,'), 'b2': pick('45x ')}, stdin='{b1}\n{b2}\n1,2\n3\n4\n5\n6\n')

def c13(g):
    deep = g.deep
    # equal-length (and nearly) replacements of lines of every length, run before and after
    for L in (1, 2, 5, 8, 15, 16, 17, 20, 21, 24, 31, 32, 33, 40, 60, 64, 80, 100, 110):
        for dl in (0, 1, -1):
            if not deep and dl and L not in (8, 20, 40, 80): continue
            a = 'PRINT "%s{b1}"' % ('x' * (L - 1)); b = 'PRINT "%s{b2}"' % ('y' * (max(L + dl, 1) - 1))
            g.imm('same-len', ['10 PRINT 1', '20 ' + a, '30 PRINT 3', 'RUN', '20 ' + b, 'LIST', 'RUN', '20 ' + a, 'RUN', 'LIST'], {'b1': pick('abc'), 'b2': pick('abc')})
    # numbers that agree in their low bits or digits are different lines
    for n in (1, 10, 20, 255, 256):
        for m in (128, 256, 397, 512, 1000, 1024, 4096, 10000, 32768, 65536, 100000, 131072, 1000000, 16777216, 2147483648):
            if not deep and (n + m) % 3: continue
            big = n + m
            g.imm('collide', ['%d PRINT "small"' % n, '%d PRINT "big"' % big, 'LIST', 'RUN', '{b1}%d PRINT "x"' % (n if m < 100 else n), 'LIST', '%d' % big, 'LIST', 'RUN', '%d PRINT "b2"' % big, '%d' % n, 'LIST', 'RUN', 'LIST %d' % big, 'LIST %d' % n], {'b1': pick('0 1')})
    for ms in ((10, 65546), (65546, 10), (10, 266, 522), (397, 794, 1191), (1, 65537, 131073), (5, 4294967290 - 1)):
        t = ['%d GOSUB %d:PRINT %d:END' % (ms[0], ms[-1], ms[0])] + ['%d PRINT %d' % (m, m) for m in ms[1:-1]] + ['%d PRINT "last":RETURN' % ms[-1]]
        g.imm('collide-jump', t + ['RUN', 'LIST', '%d PRINT "n{b1}":RETURN' % ms[-1], 'RUN', '%d' % ms[-1], 'RUN', 'LIST'], {'b1': pick('ab')})
    # many edits in a row on one line number / ascending / descending / alternating, run between
    for i, sq in enumerate(([5, 5, 5, 5], [1, 2, 3, 4], [4, 3, 2, 1], [1, 4, 2, 3], [2, 1, 2, 1], [3, 1, 3, 2])):
        g.imm('seq', sum([['%d0 PRINT "%d{b1}"' % (k, j), 'RUN'] for j, k in enumerate(sq)], []) + ['LIST'] + sum([['%d0' % k, 'LIST', 'RUN'] for k in sq], []), {'b1': pick('ab')})
        g.imm('seq2', ['%d0 PRINT "%d"' % (k, k) for k in (1, 2, 3, 4)] + sum([['{b%d}0 PRINT "e%d"' % (j % 2 + 1, j), '{b%d}5' % (j % 2 + 1), 'LIST', 'RUN'] for j, k in enumerate(sq[:2])], []) + ['{b2}0', '{b1}0', 'RUN', 'LIST'], {'b1': pick('1245'), 'b2': pick('1245')})
    # after a run-time error, a syntax error, STOP, INPUT or an immediate statement, edits act the same
    for i, pre in enumerate((['RUN'], ['PRINT LOG(0)'], ['PRINT ('], ['GOTO 20'], ['GOSUB 20'], ['LIST'], ['RENUM'], ['SAVE "t.bas"'], ['COMPILE'], ['CLEAR'], ['A=1'], ['FOR I=1 TO 2'], ['RUN', 'CONT'], ['DIM A(3)'], ['DEF FNA(X)=X'], ['PRINT FNA(1)'], ['READ Q'], ['RESTORE 20'], ['HELP'], ['X']))  :
        for st in ('PRINT "B"', 'STOP', 'PRINT LOG(0)', 'END'):
            if not deep and (i + len(st)) % 2: continue
            g.imm('after', ['10 PRINT "A"', '20 ' + st, '30 PRINT "C"'] + pre + ['{b1}0 PRINT "n"', 'LIST', 'RUN', '{b2}0', 'RUN'] + pre + ['LIST', 'GOTO 30', 'CONT'], {'b1': pick('123'), 'b2': pick('123')})
    for n in (126, 127, 128, 129, 130, 140):  # growth of the table of lines
        g.imm('grow', ['%d A=A+%d' % (k, k) for k in range(100, 100 + n)] + ['RUN', 'PRINT A', '{b1}55', '{b1}56 A=0', 'RUN', 'PRINT A', 'LIST 2{b2}0'], {'b1': pick('12'), 'b2': pick('12')}, maxsteps=12000000)

def c15(g):
    deep = g.deep
    # words that look like references in places where they are not, and references in every position of a line
    first = ['PRINT 1', 'A=1', 'A$="x"', 'PRINT "q"', 'GOSUB 20', 'RESTORE 20', 'FOR I=1 TO 2', 'NEXT', 'READ A', 'DIM A(3)', 'IF A THEN PRINT 1', 'IF A THEN 20', 'IF A THEN PRINT 1 ELSE PRINT 2', 'ON A GOTO 20,20', 'PRINT', 'INPUT A', 'CLEAR', 'DATA 1,2', 'DEF FNA(X)=X', 'STOP', 'PRINT 1;', 'PRINT 20', '']
    second = ['GOTO {b1}0', 'REM GOTO 20', 'DATA GOTO 20', 'PRINT "GOTO 20"', 'ON B GOSUB 20,{b1}0', 'IF B THEN 20', 'RESTORE {b1}0', 'PRINT 20', 'IF B THEN PRINT 20:GOTO 20', 'IF B THEN 20 ELSE PRINT 10', 'REM', 'RESTORE']
    for i, a in enumerate(first):
        for j, b in enumerate(second):
            if not deep and (i * 5 + j) % 3: continue
            g.imm('pos', ['10 %s:%s' % (a, b), '20 %s:REM GOTO 10' % (b if not b.startswith(('REM', 'DATA')) else 'A=2'), '30 PRINT 30', 'RENUM 100', 'LIST'], {'b1': pick('123')} if '{b1}' in b else {})
    # every pair of old numbers and new numbers of different widths; three or more references of one line
    for a, b in itertools.product(('1', '9', '99', '999', '9999'), ('1', '10', '100', '1000', '10000', '60000')):
        if not deep and (len(a) + len(b)) % 2: continue
        g.imm('width', ['%s GOTO %s:GOSUB %s:GOTO %s' % (a, a, a, a), '%d ON A GOTO %s,%s,{b1},%s' % (int(a) + 1, a, int(a) + 1, a), 'RENUM %s' % b, 'LIST', 'RENUM 1,,1', 'LIST'], {'b1': d})
    # after RENUM everything that names lines agrees: errors, STOP, trace, DATA, GOSUB in progress
    for i, (p, aft) in enumerate(((['1 PRINT LOG(0)'], ['RUN']), (['1 A=1', '2 STOP', '3 PRINT "c"'], ['RUN', 'CONT']), (['1 GOSUB 3', '2 END', '3 PRINT LOG(0)', '4 RETURN'], ['RUN']), (['1 READ A', '2 RESTORE 4', '3 READ B:PRINT A;B:END', '4 DATA 8', '5 DATA 9'], ['RUN', 'RESTORE {b1}0', 'READ C', 'PRINT C']), (['1 PRINT (', '2 PRINT 2'], ['RUN', 'LIST']), (['1 GOTO 7'], ['RUN']), (['1 DEF FNA(X)=X+1', '2 PRINT FNA(1)', '3 PRINT FNA(LOG(0))'], ['RUN']), (['1 FOR I=1 TO 2', '2 PRINT I', '3 NEXT', '4 NEXT'], ['RUN']))):
        for o in (['-q'], ['-q', '-t']):
            g.imm('agree', p + ['RENUM {b1}0', 'LIST'] + aft + ['RENUM', 'LIST'] + aft, {'b1': pick('12345')}, args=o)
            g.imm('agree-run', p + aft + ['RENUM {b1}0,1,{b1}'] + aft + ['LIST'], {'b1': pick('12345')}, args=o)
    # RENUM then edits, saves and runs; twice in a row; on an edited program
    g.imm('edit', ['10 GOTO 30', '20 PRINT "b":END', '30 PRINT "c":GOTO 20', 'RENUM {b1}', '{b2} PRINT "ins"', 'LIST', 'RUN', 'RENUM', 'LIST', 'RUN', 'SAVE "t.bas"', 'NEW', 'LOAD "t.bas"', 'RENUM 5', 'LIST', 'RUN'], {'b1': d, 'b2': d})
    g.imm('edit2', ['10 GOTO 30', '20 PRINT "b":END', '30 PRINT "c":GOTO 20', '{b1}5 PRINT "i"', '{b2}0', 'RENUM', 'LIST', 'RUN'], {'b1': pick('0123'), 'b2': pick('134')})
    g.file('load', ['10 GOTO 30', '20 PRINT "b":END', '30 PRINT "c":GOTO 20'], {'b1': d}, stdin='')
    g.add('loaded', 'LOAD "f.bas"\nRENUM {b1}\nLIST\nRUN\nBYE\n', {'b1': d}, files={'f.bas': '10 GOTO 30\n20 PRINT "b":END\n30 PRINT "c":GOTO 20\n'})

BETWEEN = ['DATA 9:READ Q', 'DATA 9', 'READ Q', 'RESTORE', 'RESTORE 80', 'RESTORE 70', 'DIM Z(3)', 'DEF FNZ(X)=X:PRINT FNZ(1)', 'PRINT FNA(3)', 'RANDOMIZE 1', 'PRINT RND(1)<1', 'CLS', 'PRINT "abc";', 'PRINT TAB(9)"q"', 'FOR Q=1 TO 2:NEXT', 'FOR I=5 TO 6:PRINT I:NEXT', 'FOR Q=1 TO 2', 'GOSUB 60', 'IF 1 THEN PRINT "t":PRINT "u" ELSE PRINT "e"', 'ON 1 GOSUB 60:PRINT "r"', 'INPUT Q', 'LINE INPUT Q$', 'Q$="x"+LEFT$("abc",2)', 'PRINT LOG(0)', 'READ Q,Q,Q,Q,Q,Q', 'A$=A$+"z"', 'FOR Q=1 TO 2:GOSUB 60:NEXT', 'A=A*2:B(1)=5', 'REM x', ':', '', 'PRINT (', 'LIST', 'LIST 20', 'LIST 10P', 'PRINT A;I;A$', 'COMPILE', 'HELP', 'SAVE "t.bas"', '*x', 'RETURN', 'NEXT', 'STOP', 'END', 'LET A=5', '?', 'PRINT 1:STOP:PRINT 2', 'GOTO 90', 'DATA 1,2:DATA 3:READ Q,R:PRINT Q;R', 'READ Q:DATA 4:READ R:PRINT Q;R', 'RESTORE:READ Q', 'LOAD "none.bas"', 'RENUM 99999', 'RUN x', 'CONT x', 'BYE x', 'DIM A$(2)', 'PRINT FNB$(2)']

def c16(g):
    deep = g.deep
    progs = [['10 READ A:PRINT A:{s}READ A:PRINT A', '20 READ A$:PRINT A$', '50 END', '60 PRINT "S":RETURN', '70 DATA 1', '80 DATA 2,3', '90 END'],
             ['5 DEF FNA(X)=X+1:DEF FNB$(X)=CHR$(65+X)+"-"', '10 FOR I=1 TO 2:PRINT I,:{s}NEXT:PRINT I', '20 A=FNA(I)+A:PRINT A;"q";', '50 PRINT ,"e":END', '60 PRINT "S":RETURN', '70 DATA 1', '80 DATA 2', '90 END'],
             ['5 DEF FNA(X)=X+1:A$="k"', '10 GOSUB 30:PRINT "R";A$;A', '20 END', '30 FOR I=1 TO 2:IF I=1 THEN {s}PRINT "T":PRINT FNA(I) ELSE PRINT "E"', '40 NEXT:RETURN', '60 PRINT "S":RETURN', '70 DATA 1', '80 DATA 2', '90 END']]
    for pi, p in enumerate(progs):
        for bi, b in enumerate(BETWEEN):
            q = [x.replace('{s}', 'STOP:') for x in p]
            rep = ['7'] if 'INPUT' in b else []
            g.imm('mid', q + ['RUN', b] + rep + ['CONT', b] + rep + ['CONT', 'CONT', 'PRINT "K"'], {})
            if deep: g.imm('mid2', q + ['RUN', b] + rep + [BETWEEN[(bi * 7 + 3) % 20], 'CONT', 'CONT', 'RUN', b] + rep + ['CONT', 'CONT'], {})
    # pairs of commands between STOP and CONT
    for i in range(200 if deep else 60):
        a, b = BETWEEN[(i * 13) % len(BETWEEN)], BETWEEN[(i * 29 + 7) % len(BETWEEN)]
        if 'INPUT' in a + b: continue
        q = [x.replace('{s}', 'IF I<{n1} THEN STOP:') if 'IF I=1' not in x else x.replace('{s}', 'STOP:') for x in progs[i % 3]]
        if i % 3 == 0: q = [x.replace('{s}', 'STOP:') for x in progs[0]]
        q = [x.replace('IF I<{n1} THEN STOP:NEXT', 'IF I<{n1} THEN STOP:PRINT "v"') if 0 else x for x in q]
        g.imm('pair', q + ['RUN', a, b, 'CONT', b, 'CONT', 'CONT', 'CONT', 'PRINT "K"'], {'n1': I(1, 3)} if i % 3 == 1 else {})

def c18(g):
    deep = g.deep
    # the line named by an error is the one being executed, whatever was executed before on that line
    sw = ['A=FNA(1)', 'A$=FNB$(3)', 'GOSUB 80', 'ON 1 GOSUB 80', 'FOR I=1 TO 2:NEXT', 'FOR I=1 TO 2:GOSUB 80:NEXT', 'READ R', 'IF 1 THEN GOSUB 80', 'IF 1 THEN A=FNA(2)', 'IF 0 THEN PRINT 1', 'INPUT R', 'RESTORE 90:READ R', 'A=FNC(2)', 'STOP', 'A=FNA(FNA(1))', 'IF FNA(0) THEN PRINT FNA(3);', 'GOTO 50', 'CLEAR']
    er = ['PRINT LOG(0)', 'B(99)=1', 'RETURN', 'NEXT', 'A=FNA(LOG(0))', 'PRINT FND(0)', 'READ A,A,A,A,A', 'A$=CHR$(-{n1})', 'GOTO 999', 'A=FNA(1)+LOG(0)', 'PRINT FNE(1)']
    pre = ['10 DEF FNA(X)=X+1', '20 DEF FNB$(X)=CHR$(65+X)+"y":DEF FNC(X)=FNA(X)*2', '30 DEF FND(X)=ASC(CHR$(X-1)):DEF FNE(X)=FNA(1)+FND(0)']
    for i, s in enumerate(sw):
        for j, e in enumerate(er):
            if not deep and (i + j) % 3: continue
            p = pre + (['40 %s:%s:PRINT "no"' % (s, e)] if s != 'GOTO 50' else ['40 GOTO 50', '50 ' + e]) + ['60 PRINT "after":END', '80 PRINT "sub":RETURN', '90 DATA 1,2']
            h = {'n1': I(0, 2)} if '{n1}' in e else {}
            g.prog('where', p, h, reply='5\n' if 'INPUT' in s else '', after=(['CONT'] if s == 'STOP' else []) + ['PRINT "K";A', 'PRINT FNA(1)', 'RUN' if s not in ('STOP', 'INPUT R') else 'REM', 'PRINT LOG(0)', '%s:%s' % (s, e) if s not in ('STOP', 'INPUT R', 'GOTO 50') else 'REM'], maxsteps=800000)
    # a failing statement leaves every variable and element as it was
    fail = ['A$(-1)="z"', 'A$(11)="z"', 'B$(0,11)="z"', 'B$(11,0)="z"', 'B$(-1,2)="z"', 'A(-1)=99', 'A(11)=99', 'B(1,11)=99', 'B(11,1)=99', 'A(0)=LOG(0)', 'A$(0)=CHR$(-1)', 'A$=CHR$(-1)', 'A=LOG(0)', 'B$(1,2)=A$+CHR$(-1)', 'READ A(1),A(11)', 'READ A$(1),A$(11)', 'A(A(11))=99', 'A(LOG(0))=99', 'FOR A=1 TO LOG(0)', 'FOR A=LOG(0) TO 1', 'FOR A=1 TO 2 STEP LOG(0)', 'DIM A(-1)', 'DIM A(3),B(-1)', 'DIM A$(-1)', 'DIM B$(1,-1)', 'DIM C(99999,99999)', 'A(1,1)=5', 'A$(1,1)="z"', 'B(1)=5', 'B$(1)="z"', 'A(1)=A(1)+A(1,1)', 'INPUT A(11)', 'A$(1)=A$(1)+A$(11)', 'A=FNQ(1,2)', 'A$(0)=LEFT$(A$(0),-1)', 'LONGNAME=LOG(0)+LOG(0)', 'LONGNAME$(2)=MID$("x",0,1)', 'READ A,A$,A(1),B(0,0),LONGNAME,X1,X2,X3', 'DATA 1:READ A(1),A(2)', 'PRINT A(0);A(11)', 'GOTO A(11)', 'ON A(11) GOTO 10', 'RESTORE 999', 'RANDOMIZE LOG(0)', 'A({n1})=A({n1}+9)', 'A$({n1}*20-10)="z"']
    for i, f in enumerate(fail):
        h = {'n1': I(0, 2)} if '{n1}' in f else {}
        rep = '5\n6\n' if 'INPUT' in f else ''
        g.prog('keep', ['%d %s' % (10 + k, s) for k, s in enumerate(SETALL)] + ['30 PRINT "go"', '40 ' + f, '50 PRINT "no":END', '60 DATA 41,42'], h, reply=rep, after=SHOWALL + SHOWD + ['A=2:A$(1)="zz"', 'PRINT A;A$(1);A(1)', 'READ Q:PRINT Q'])
        g.imm('keep-imm', SETALL + ([f, f] if not rep else [f, '5', f, '6']) + SHOWALL + SHOWD, h)
    # a jump that fails leaves the return stack as it was, however often it is tried
    for j, e in enumerate(('GOSUB 500', 'ON {n1} GOSUB 500,600,510', 'IF 1 THEN GOSUB 500', 'GOSUB 0500')):
        h = {'n1': I(1, 3)} if '{n1}' in e else {}
        g.prog('nosub', ['10 ' + e, '20 RETURN', '30 PRINT "d":GOSUB 40:PRINT "u":END', '40 D=D+1:IF D<8 THEN GOSUB 40', '50 D=D-1:RETURN'], h, after=['GOTO 10'] * 9 + ['GOTO 30', 'GOTO 20', 'PRINT D'], maxsteps=2000000)
        g.imm('nosub-imm', ['10 PRINT "t"', '20 RETURN', '30 D=D+1:IF D<7 THEN GOSUB 30', '40 D=D-1:RETURN'] + [e] * 9 + ['RETURN', 'GOSUB 10:PRINT "x"', 'GOSUB 30:PRINT D'], h, maxsteps=2000000)
        g.prog('nosub-inside', ['10 GOSUB 100:PRINT "back":END', '100 PRINT "in":IF K=0 THEN K=1:' + (e if e[0] != 'I' else 'GOSUB 500'), '110 PRINT "out":RETURN', '120 RETURN'], h, after=['GOTO 110', 'GOTO 120', 'PRINT K'], maxsteps=800000)
    # a DIM that fails leaves an array as it was; one that succeeds empties it
    for j, (d, u) in enumerate((('A(-1)', 'A({n2})'), ('A(70000)', 'A({n2})'), ('A(300,300)', 'A({n2})'), ('A({n1})', 'A({n2})'), ('A(2,LOG(0))', 'A({n2})'), ('A$(-1)', 'A$({n2})'), ('A$(70000)', 'A$({n2})'), ('A$({n1},20)', 'A$({n2})'), ('B(3),A(-1)', 'A({n2})'), ('A({n1}),A(7)', 'A({n2})'))):
        st = 'A$(%d)="v%d"' if '$' in d else 'A(%d)=7%d'
        h = {'n2': I(0, 9)}
        if '{n1}' in d: h['n1'] = I(-3, 3)
        set1 = ['DIM %s(8)' % u[:u.index('(')]] + [st % (k, k) for k in (0, 3, 8)]
        g.prog('redim', ['%d %s' % (10 + k, x) for k, x in enumerate(set1)] + ['20 DIM ' + d, '30 PRINT "dim";' + u + ':END'], h, after=['PRINT ' + u, 'GOTO 30', 'RUN'], maxsteps=800000)
        g.imm('redim-imm', set1 + ['DIM ' + d, 'PRINT ' + u, 'PRINT ' + u.replace('{n2}', '3'), 'DIM ' + d, 'PRINT ' + u.replace('{n2}', '0')], h, maxsteps=800000)
    # a reference that fails says nothing about what its name is for; nor does a refused line
    for j, e in enumerate(('PRINT Q(-1)', 'PRINT Q(70000)', 'PRINT Q({n1})', 'PRINT 1+Q(LOG(0))', 'PRINT Q$(-1)', 'A=Q(1)+LOG(0)', 'INPUT Q(-1)', 'READ Q(1)', 'PRINT Q(300,300)', 'IF Q(-{n1}) THEN PRINT 1', 'Q(-1)=4', 'DIM Q(-1)', 'DIM FNA(3', 'LET Q(1)=)', 'Q(1)=1:PRINT )', 'DIM Q(4):X', 'PRINT Q(1) Q(2', 'READ Q(1),', 'DEF Q(X)=X+', 'DEF Q(X)=Q$', 'Q$(1)=1', 'Q=1:Q("', 'FOR Q=1 TO', 'PRINT Q(1),Q(1,2),', 'DIM Q(1),R(2),', 'DIM Q$(1),R(2),', 'DEF Q(X)=X:PRINT (')):
        h = {'n1': I(-2, 2)} if '{n1}' in e else {}
        t = [e] * 2 if 'INPUT' not in e else [e, '4']
        for k, u in enumerate((['DEF Q(X)=X+1', 'PRINT Q(4);Q(Q(1))'], ['DIM Q(3)', 'Q(3)=5:PRINT Q(3);Q(4)'], ['DEF Q$(X)="<"+CHR$(X)', 'PRINT Q$(65)'], ['Q(2)=9', 'PRINT Q(2);Q(11)', 'DEF Q(X)=X'])):
            if not deep and (j + k) % 2: continue
            g.imm('forget', t + u + ['PRINT Q;Q$', 'PRINT Q(2)', 'DEF FNA(X)=X*2', 'PRINT FNA(3);R(1)'], h)
            g.imm('forget-mid', ['PRINT Q(1)' if k % 2 == 0 else 'Q=3'] + t + u + ['PRINT Q;Q(2)'], h)
            if not deep and j % 3: continue
            g.prog('forget-run', ['10 X=3', '20 ' + e], h, reply='4\n' if 'INPUT' in e else '', after=u + ['PRINT X;Q', '20', 'RUN'] + u)
    # after any error the nesting of the number and string stacks starts afresh
    for i, e in enumerate(('PRINT 1+(2+(3+LOG(0)))', 'PRINT "a"+("b"+("c"+CHR$(-1)))', 'A(1)=A(2)+A(99)', 'A(3,LOG(0))=1', 'FOR I=1 TO LOG(0)', 'ON 1+LOG(0) GOTO 10', 'A$="a"+LEFT$("b"+"c",-1)', 'PRINT 1;2;"x"+CHR$(-1)', 'A=FNA(1+FNA(2+LOG(0)))', 'GOSUB 999', 'IF 1+LOG(0) THEN PRINT 1', 'READ A(1+LOG(0))', 'PRINT "x";TAB(1+LOG(0))', 'A$=MID$("abc",1,LOG(0))', 'A$(1)="x"+A$(99)', 'INPUT A(99)', 'DIM C(1,LOG(0))')):
        n = 40 if deep else 20
        rp = [e] * n if 'INPUT' not in e else [e, '1'] * n
        g.imm('repeat', ['DEF FNA(X)=X+1'] + rp + ['PRINT 1+(2+(3+(4+(5+(6+(7+8))))));"a"+("b"+("c"+("d"+"e")))', 'FOR I=1 TO 2:PRINT I:NEXT', 'PRINT FNA(1)'], {})
        g.prog('repeat-run', ['5 DEF FNA(X)=X+1', '10 PRINT "p";:GOSUB 20', '20 FOR J=1 TO 2:' + e], {}, run='', after=(['RUN'] * 12 if 'INPUT' not in e else ['RUN', '1'] * 12) + ['PRINT 1+(2+(3+(4+(5+(6+(7+8))))))', 'PRINT "K"'])

def c20(g):
    deep = g.deep
    # blanks inside tokens, and the spellings of numerals
    for i, (t, k) in enumerate((('PRINT 1<{b1}>2', 0), ('PRINT 1<{b1}=2', 0), ('PRINT 1>{b1}=2', 0), ('PRINT 1={b1}>2', 0), ('PRINT 1={b1}<2', 0), ('PRINT 1>{b1}<2', 0), ('GO{b1}TO 30', 0), ('GO{b1}SUB 40', 0), ('PR{b1}INT 5', 0), ('PRINT 1{b1}2', 0), ('PRINT 1{b1}E2', 0), ('PRINT 1E{b1}2', 0), ('PRINT 1E{b1}+2', 0), ('PRINT 1E+{b1}2', 0), ('PRINT 1.{b1}5', 0), ('PRINT 1{b1}.5', 0), ('PRINT A{b1}$', 0), ('PRINT A{b1}(1)', 0), ('PRINT A${b1}(1)', 0), ('PRINT LEFT{b1}$("ab",1)', 0), ('PRINT LEFT${b1}("ab",1)', 0), ('PRINT ABS{b1}(-2)', 0), ('PRINT TAB{b1}(3)"x"', 0), ('PRINT FN{b1}A(1)', 0), ('PRINT FNA{b1}(1)', 0), ('DEF FN{b1}B(X)=X', 0), ('GOTO 3{b1}0', 0), ('PRINT -{b1}1;+{b1}2' if 0 else 'PRINT -{b1}1', 0), ('LINE{b1}INPUT L$', 0), ('IF 1 THEN{b1}30', 0), ('A{b1}1=5', 0), ('PRINT 1 A{b1}ND 1', 0), ('FOR I=1 T{b1}O 2:NEXT', 0), ('ON 1 GO{b1}TO 30', 0), ('RE{b1}M x', 0), ('?{b1}1', 0), ('PRINT "a{b1}b"', 0), ('PRINT .{b1}5', 0), ('PRINT 5.{b1}', 0), ('PRINT 1{b1}-2', 0))):
        bs = ('b', 1, 126, '\n')
        kw = dict(maxsteps=300000)
        rep = ['rr'] if 'LINE' in t else []
        sk = pick(' \t$.AX9+-:;') if 'GOTO' in t or 'GO{b1}' in t or 'THEN' in t else bs
        if deep or 1:
            g.imm('inside', ['A=3:A$="q":A(1)=4:A$(1)="s":DEF FNA(X)=X+1', '10 ' + t, '20 PRINT "n"', '30 PRINT "e":END', '40 RETURN', 'RUN'] + rep + ['PRINT "K"', '10', t] + rep + ['PRINT "K"'], {'b1': pick(' \tA1$.') if 'GO' in t or 'THEN' in t else Bt(32, 126)}, **kw)
            g.file('inside-f', ['5 A=3:A$="q":A(1)=4:A$(1)="s":DEF FNA(X)=X+1', '10 ' + t, '20 PRINT "n"', '30 PRINT "e":END', '40 RETURN'], {'b1': ('b', 1, 126, '\n0123456789') if 'GO' in t or 'THEN' in t else bs}, stdin='rr\n', **kw)
            g.imm('inside-k', ['A=3:A$="q":A(1)=4:A$(1)="s":DEF FNA(X)=X+1', '10 ' + t, '20 PRINT "n"', '30 PRINT "e":END', '40 RETURN', 'RUN'] + rep + ['PRINT "K"'], {'b1': pick(' \tA1$.')}, args=['-q', '-k'], **kw)
    for t in ('1{b1}2', '1{b1}{b2}2', '1.5{b1}{b2}1', '.5{b1}{b2}1', '5.{b1}{b2}1', '1{b1}{b2}', '1E{b1}{b2}', '1e{b1}{b2}', '{b1}{b2}E1', '12{b1}+{b2}', 'A{b1}{b2}2'):
        h = {'b1': pick('eE+-.0 5') if not t.startswith('{b1}') else pick('0129.')}
        if '{b2}' in t: h['b2'] = pick('+-0159.eE ')
        g.imm('numeral', ['PRINT %s' % t, 'Q=%s' % t if t[0] != 'A' else 'Q=1', 'PRINT Q', '10 PRINT %s;"x"' % t, '20 DATA %s' % t, '30 READ Q$:PRINT Q$', 'RUN', 'LIST'], h)
        g.file('numeral-f', ['10 PRINT %s;"x"' % t, '20 DATA %s' % t, '30 READ Q$:PRINT Q$', '40 IF %s THEN PRINT "t"' % t], h)
        g.imm('numeral-k', ['PRINT %s' % t, '10 FORI=%sTO%s:PRINTI:NEXT' % ('1', '2'), '20 IF%sTHENPRINT"t"ELSEPRINT"f"' % t, 'RUN'], h, args=['-q', '-k'])
    # control characters between and inside tokens of file lines
    for t in ('10{b1}PRINT 1', '10 PRINT{b1}1', '10 PRINT 1{b1}', '10 PRINT 1{b1}:PRINT 2', '10 PRINT "a"{b1};2', '10 A{b1}=1:PRINT A', '10 A={b1}1:PRINT A', '10 IF 1{b1}THEN PRINT 1', '10 REM{b1}x', '10 DATA a{b1},b', '10 PRINT "a{b1}b"', '10 FOR I=1{b1}TO 2:NEXT', '10 {b1}', '10{b1}', '{b1}10 PRINT 1', '10 PRINT 1:{b1}PRINT 2', '10 PRINT{b1}{b2}1', '10 PRINT 1{b1}{b2}'):
        h = {'b1': ('b', 1, 126, '\n')}
        if '{b2}' in t: h = {'b1': ('b', 1, 32, '\n'), 'b2': ('b', 1, 32, '\n')}
        for o in (('-q',), ('-q', '-k')):
            g.file('ctl', [t, '20 READ Q$:PRINT Q$;"."', '30 PRINT "e"'], h, opts=o)
        g.imm('ctl-i', [t, 'LIST', 'RUN', t.replace('10', '', 1)], {k: v[:3] + ('\n\r',) for k, v in h.items()})

def c23(g):
    deep = g.deep
    n = {'n1': I(0, 9)}
    for ci, cmd in enumerate(('RUN', 'CLEAR', 'NEW', 'LOAD "f.bas"', 'GOTO 90', 'CLEAR:CLEAR', '10 REM', 'RENUM', 'GOSUB 95', 'PRINT (', 'PRINT LOG(0)', 'END', 'CONT')):
        for wi, where in enumerate(('prog', 'imm')):
            ls = ['%d %s' % (10 + k, s) for k, s in enumerate(SETALL)]
            sh = ['%d %s' % (90 + k, s) for k, s in enumerate(SHOWALL)]
            if where == 'prog':
                g.imm('all', ['5 ' + SHOWALL[0], '6 ' + SHOWALL[1], '7 ' + SHOWALL[2]] + ls + sh + ['95 RETURN', 'RUN', cmd] + SHOWALL + ['RUN'], {}, files={'f.bas': '10 PRINT "f";A$\n'})
            else:
                g.imm('all-i', sh + ['95 RETURN'] + SETALL + [cmd] + SHOWALL + ['DIM A(3),B(2,2),A$(4),B$(5,5)'] + ['A(3)=1:B$(5,5)="q":PRINT A(3);B$(5,5)', cmd] + SHOWALL, {}, files={'f.bas': '10 PRINT "f";A$\n'})
    # one kind at a time, each with symbolic position
    for i, (s, t) in enumerate((('A({n1})=5', 'A({n2})'), ('A$({n1})="q"', 'A$({n2})'), ('B({n1},{n2})=5', 'B({n1},{n2})'), ('B$({n1},{n2})="q"', 'B$({n1},{n2})'), ('DIM A({n1}+3):A(3)=4', 'A({n2}+8)'), ('DIM B$({n1}+1,{n2}+1):B$(1,1)="q"', 'B$({n1}+1,10)'), ('DEF FNA(X)=X+{n1}', 'FNA({n2})'), ('DEF FNA$(X)=CHR$(65+X)+"q"', 'FNA$({n1})'), ('FOR I={n1} TO 5:IF I<5 THEN NEXT', 'I'))):
        for cmd in ('RUN', 'CLEAR', 'NEW', 'LOAD "f.bas"'):
            g.imm('kind', ['10 ' + s, '20 PRINT %s;"."' % t, 'RUN', cmd, 'PRINT %s;"."' % t, s, 'PRINT %s;"."' % t, cmd, 'PRINT %s;"."' % t], {'n1': I(0, 2), 'n2': I(0, 3)} if '{n2}' in s + t else {'n1': I(0, 2)}, files={'f.bas': '10 PRINT "f"\n'})
    # RND, columns, data position, options, trace across RUN
    for i, p in enumerate((['10 PRINT "ab";'], ['10 READ A:PRINT A', '20 DATA 1,2'], ['10 RANDOMIZE 3:A=RND(1)', '20 RANDOMIZE 3:PRINT A=RND(1)'], ['10 DATA 1', '20 READ A:PRINT A:RESTORE 10', '30 READ A:PRINT A'], ['10 FOR I=1 TO 3', '20 PRINT I'], ['10 GOSUB 30', '20 END', '30 PRINT "s"'], ['10 INPUT A:PRINT A'], ['10 PRINT LOG(0)'], ['10 STOP'], ['10 A=A+1:IF A<3 THEN 10', '20 PRINT A'])):
        for o in (['-q'], ['-q', '-t'], ['-q', '-f'], ['-q', '-m']):
            g.imm('again', p + ['RUN', '7', 'RUN', '8', 'PRINT A;I', 'RUN', '9', 'CLEAR', 'PRINT A;I', 'RUN', '6'], {}, args=o)

def c25(g):
    deep = g.deep
    M = ['-q', '-m']
    n2 = {'n1': I(0, 2), 'n2': I(0, 2)}
    for i, s in enumerate(('DIM A$(2,2):A$({n1},{n2})="x"', 'DIM A$(2):A$({n1})="x"', 'A$({n1},{n2})="x"', 'A$({n1}*5)="x"', 'DIM A$({n1},{n2}):A$({n1},{n2})="z"', 'DIM A$(2,2):A$({n1},{n2})="x":A$({n2},{n1})="y"', 'DIM A$({n1}+1):A$({n1}+1)="x":DIM A$({n2}+1)', 'FOR I=0 TO {n1}:FOR J=0 TO {n2}:A$(I,J)="x"+STR$(I):NEXT:NEXT', 'INPUT A$({n1},{n2})', 'READ A$({n1},{n2})', 'LINE INPUT A$({n1},{n2})', 'A$({n1},{n2})="x":CLEAR', 'A$({n1},{n2})="x":A$({n1},{n2})=A$({n1},{n2})+"y"', 'A$({n1}*10,{n2}*5)="x"', 'A$(10,10)="a":A$({n1}*5,{n2}*5)="x"')):
        rep = 'q\n' if 'INPUT' in s else ''
        g.prog('arr', ['10 ' + s, '20 PRINT "e"', '30 DATA r,s,t'], n2, reply=rep, after=['A$({n1},0)="m"', 'RUN'] + ([rep.strip()] if rep else []), args=M)
        g.file('arr-f', ['10 ' + s, '20 PRINT "e"', '30 DATA r,s,t'], n2, stdin=rep, opts=M)
        if not rep: g.imm('arr-i', [s if 'READ' not in s else s + ':DATA q', 'PRINT "K"', s if 'READ' not in s else s + ':DATA q', 'NEW'], n2, args=M)
    # every kind of value, then every command
    for cmd in ('', 'RUN', 'CLEAR', 'NEW', 'LOAD "f.bas"', 'RENUM', 'LIST', 'GOTO 90', 'DIM A$(3),B$(2,2)', 'PRINT (', 'PRINT LOG(0)', '10 REM', 'SAVE "t.bas"'):
        g.imm('all', SETALL + ['90 PRINT "p"'] + [cmd] + SHOWALL + [cmd, 'A$(1)="n":B$(1,1)="m"'], {}, args=M, files={'f.bas': '10 PRINT "f";A$\n'})
        g.imm('all-p', ['%d %s' % (10 + k, s) for k, s in enumerate(SETALL)] + ['90 PRINT "p"', 'RUN', cmd, 'RUN', cmd], {}, args=M, files={'f.bas': '10 PRINT "f";A$\n'})
    for i, b in enumerate(BETWEEN):
        if 'INPUT' in b: continue
        g.imm('between', ['10 A$="x"+A$:DEF FNA(X)=X:DEF FNB$(X)=CHR$(65+X)+"y":PRINT FNB$(1)+A$:STOP:READ Q', '20 FOR I=1 TO 2:STOP:B$(I)=B$(I)+"q":NEXT:END', '60 RETURN', '80 DATA 5,6', '70 DATA 7', '90 END', 'RUN', b, 'CONT', b, 'CONT', 'CONT', 'RUN', b], {}, args=M)
    # long strings and many of them
    for n in (100, 126, 127, 128, 254, 255, 256):
        g.prog('long', ['10 A$="{b1}2345678":FOR I=1 TO 4:A$=A$+A$:NEXT', '20 B$=LEFT$(A$+LEFT$(A$,127),%d):PRINT LEN(B$):C$(1)=B$:PRINT LEN(C$(1)+"{b1}")' % n], {'b1': pick('ab')}, after=['PRINT LEN(B$)', 'B$=""', 'RUN'], args=M)
    g.prog('grow', num(['FOR I=1 TO 60:A$=A$+CHR$(65+I/4)+"x":NEXT:PRINT LEN(A$)', 'FOR I=0 TO 10:B$(I)=LEFT$(A$,I):NEXT', 'FOR I=0 TO 10:B$(I)=B$(10-I)+"{b1}":NEXT:PRINT B$(3)']), {'b1': pick('ab')}, after=['RUN'], args=M, maxsteps=4000000)

def c19(g):
    deep = g.deep
    g.prog('cat256', ['10 A$="12345678":FOR I=1 TO 4:A$=A$+A$:NEXT', '20 PRINT LEN(LEFT$(A$,{n1})+LEFT$(A$,{n2}))'], {'n1': I(126, 129), 'n2': I(126, 129)}, after=['PRINT LEN(A$+A$)', 'PRINT LEN(A$+LEFT$(A$,127)+"x")', 'PRINT "K"'])
    for L in (100, 120, 125, 126, 127, 128):
        g.prog('in-long', ['10 INPUT A$,B$', '20 PRINT A$;B$', '30 LINE INPUT A$:PRINT A$'], {'b1': pick('xy,')}, reply='w' * (L - 1) + '{b1}\nz,' + 'v' * (L - 2) + '\n' + 'u' * L + '\n', after=['PRINT "K"'])
    for t in ('A', 'A(1)', 'A(1,2)', 'A(1),B(2,3)', 'A$(1),B'):
        g.prog('in-many', ['10 INPUT %s' % t, '20 PRINT "e"'], {'b1': pick('12')}, reply='x\n' * 30 + '{b1}\n1,2\n', after=['PRINT "K"', 'PRINT 1+(2+(3+4))'])
    # every statement form inside every construct that saves and restores a place
    from .s_robust import STM
    for i, s in enumerate(STM):
        if s.startswith(('REM', 'DATA', 'CLEAR')): continue
        for j, w in enumerate(('IF 1 THEN %s', 'IF 0 THEN PRINT 1 ELSE %s', 'FOR Q=1 TO 2:%s:NEXT Q', '%s:%s', 'IF 1 THEN IF 1 THEN %s ELSE PRINT 2', 'IF 0 THEN %s', 'PRINT "a":IF A THEN %s ELSE %s', 'GOSUB 60', 'ON 1 GOSUB 60')):
            if not deep and (i + j) % 3: continue
            if s.startswith('IF') and j in (1, 4, 6): continue
            t = w.replace('%s', s)
            if len(t) > 110: continue
            if 'GOTO 30' in s or 'THEN 30' in s: pass
            g.add('in', '10 K=K+1:IF K>3 THEN END\n15 A=3:A$="xy":B(2)=4:DEF FNA(X)=X+1\n20 %s\n30 PRINT "e"\n35 END\n40 DATA 1,x,2\n50 RETURN\n60 %s:RETURN\nRUN\nCONT\nNEXT\nRETURN\nPRINT A;A$;B(2)\nPRINT "{b1}"\nBYE\n' % (t, s if not s.startswith('IF') or 'ELSE' in s or 1 else s), {'b1': pick('KL')}, maxsteps=4000000)
