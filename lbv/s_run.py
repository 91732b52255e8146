"""C16-C18, C22-C25: STOP/CONT, interrupts, errors, RND, resets, batch options, memory."""
from .gen import *

# small programs with several statement kinds; {s} marks places where a STOP may go
STOPS = [
    ['10 PRINT "A"{s}:PRINT "B"{s}', '20 PRINT "C"{s}', '30 PRINT "D"'],
    ['10 FOR I=1 TO 2{s}', '20 PRINT I{s}', '30 NEXT{s}', '40 PRINT "E";I{s}'],
    ['10 FOR I=1 TO 2:FOR J=1 TO 2{s}:PRINT I;J:NEXT{s}:NEXT', '20 PRINT "E"{s}'],
    ['10 GOSUB 40{s}:PRINT "B"', '20 PRINT "C"{s}', '30 END', '40 PRINT "S"{s}', '50 PRINT "T"{s}:RETURN'],
    ['5 A={n1}', '10 IF A THEN PRINT "T"{s}:PRINT "U"{s} ELSE PRINT "F"{s}:PRINT "G"{s}', '20 PRINT "N"{s}'],
    ['5 A={n1}', '10 IF A THEN IF A>1 THEN PRINT 1{s}:PRINT 2 ELSE PRINT 3{s}:PRINT 4', '20 PRINT "N"'],
    ['5 A={n1}{s}', '10 ON A+1 GOSUB 40,50{s}:PRINT "R"', '20 END', '40 PRINT 4{s}:RETURN', '50 PRINT 5:RETURN'],
    ['10 READ A{s},B'.replace('{s},B', ',B{s}'), '20 PRINT A;B{s}', '30 READ C:PRINT C', '40 DATA 1,2{s}', '50 DATA 3'],
    ['10 DEF FNA(X)=X+{n1}{s}', '20 X=5{s}', '30 PRINT FNA(2);X{s}'],
    ['10 DIM A(3){s}:A(2)={n1}', '20 A(1)=A(2)+1{s}', '30 PRINT A(1);A(2)'],
    ['10 A$="x"{s}:B$=A$+"y"', '20 PRINT B$;{s}', '30 PRINT ,"z"{s}'],
    ['10 LET A={n1}{s}:PRINT A,{s}', '20 PRINT "t";{s}:PRINT TAB(20);"u"'],
    ['10 I=0', '20 I=I+1{s}:IF I<3 THEN 20', '30 PRINT I{s}'],
    ['10 REM x', '20 GOTO 40{s}', '30 PRINT "no"{s}', '40 PRINT "yes"{s}', '50 END{s}', '60 PRINT "after"'],
    ['10 CLEAR{s}:A={n1}:PRINT A', '20 RANDOMIZE 1{s}', '30 RESTORE{s}', '40 PRINT "e"'],
    ['10 PRINT "A":IF {n1} THEN 30{s}', '20 PRINT "B"{s}', '30 PRINT "C"'],
]
INSPECT = ['PRINT A;I;J;A$', 'Z=A+I:PRINT Z', 'FOR Q=1 TO 2:PRINT Q:NEXT', 'PRINT', 'LIST', 'IF A THEN PRINT 1 ELSE PRINT 2', 'PRINT LEFT$("abc",2)', 'Y$="q"+"r"', 'DEF FNZ(X)=X', 'PRINT FNZ(1)', 'REM', 'COMPILE', 'HELP', '*x', 'SAVE "t.bas"', 'PRINT UNSET', 'LET W(3)=1', 'GOSUB {g}']

def c16(g):
    deep = g.deep
    h = {'n1': I(0, 2)}
    for pi, p in enumerate(STOPS):
        t = '\n'.join(p) + '\n'; k = t.count('{s}')
        hs = h if '{n1}' in t else {}
        for i in range(k):
            parts = t.split('{s}'); u = ''.join(x + (':STOP' if j == i else '') for j, x in enumerate(parts[:-1])) + parts[-1]
            u = u.replace(';:STOP', ';:STOP').replace('THEN 20:STOP', 'THEN 20:STOP')
            g.add('p%02d' % pi, u + 'RUN\nCONT\nCONT\nCONT\nCONT\nCONT\nPRINT A;B;C;I;J;A$;B$\nBYE\n', hs)
        if k > 1: # all at once
            g.add('all%02d' % pi, t.replace('{s}', ':STOP') + 'RUN\n' + 'CONT\n' * (k * 3) + 'PRINT A;B;C;I;J;A$;B$\nBYE\n', hs)
        # inspecting in between
        u = t.replace('{s}', ':STOP', 1).replace('{s}', '')
        for j, ins in enumerate(INSPECT[:-1]):
            if deep or (pi + j) % 4 == 0: g.add('inspect%02d' % pi, u + 'RUN\n' + ins + '\nCONT\n' + ins + '\nCONT\nPRINT A;B;I\nBYE\n', hs)
    # a STOP placed by a symbolic condition
    g.prog('when', num(['FOR I=1 TO 4', 'IF I={n1} THEN STOP', 'PRINT I', 'NEXT', 'PRINT "E"']), {'n1': I(0, 5)}, after=['PRINT "in";I', 'CONT', 'CONT', 'PRINT I'])
    g.prog('when2', num(['FOR I=1 TO 3:GOSUB 40:NEXT', 'PRINT "E"', 'END', 'IF I={n1} THEN PRINT "s":STOP:PRINT "r" ELSE PRINT "n"', 'RETURN']), {'n1': I(0, 4)}, after=['PRINT I', 'CONT', 'CONT'])
    g.prog('change', num(['A={n1}:B=1', 'STOP', 'PRINT A+B', 'IF A>B THEN PRINT "gt" ELSE PRINT "le"', 'STOP:PRINT A;B']), {'n1': I(-3, 3), 'n2': I(-3, 3)}, after=['B={n2}', 'CONT', 'A=B*2', 'CONT', 'CONT'])
    g.prog('change-loop', num(['FOR I=1 TO 5', 'PRINT I', 'IF I=2 THEN STOP', 'NEXT', 'PRINT "E";I']), {'n1': I(-2, 6)}, after=['I={n1}', 'CONT', 'CONT', 'PRINT I'], maxsteps=400000)
    g.prog('change-str', num(['A$="a":STOP', 'PRINT A$', 'IF A$="{b1}" THEN PRINT "eq"']), {'b1': pick('abc')}, after=['A$="b"', 'CONT'])
    g.prog('change-array', num(['A(1)=1:STOP', 'PRINT A(1);A(2)']), {'n1': I(0, 3)}, after=['A({n1})=7', 'CONT', 'DIM A(2)', 'CONT', 'PRINT A(1)'])
    g.prog('change-data', num(['READ A:PRINT A:STOP', 'READ B:PRINT B', 'DATA 1,2,3']), {}, after=['READ C:PRINT C', 'CONT', 'RESTORE', 'CONT'])
    g.prog('change-def', num(['DEF FNA(X)=X+1:PRINT FNA({n1}):STOP', 'PRINT FNA({n1})']), {'n1': I(0, 3)}, after=['DEF FNA(X)=X*10', 'PRINT FNA(2)', 'CONT', 'PRINT FNA(3)'])
    g.prog('clear', num(['A={n1}:FOR I=1 TO 2:PRINT I:STOP', 'NEXT:PRINT A;I']), {'n1': I(0, 3)}, after=['CLEAR', 'CONT', 'PRINT A;I'])
    # immediate control flow in between
    for ins in ('GOTO {b1}0', 'GOSUB {b1}0', 'FOR K=1 TO 2:PRINT K:NEXT', 'IF 1 THEN PRINT "i"', 'END', 'STOP', 'PRINT 1/0', 'X=', 'RETURN', 'NEXT', 'A=LOG(-1)', 'ON 1 GOTO {b1}0', 'READ Q', 'STOP:PRINT "s"', 'END:PRINT 2', 'GOSUB 50'):
        g.imm('between', ['10 PRINT "A"', '20 STOP', '30 PRINT "C"', '40 END', '50 PRINT "S":RETURN', 'RUN', ins, 'PRINT "k"', 'CONT', 'CONT'], {'b1': pick('134')} if '{b1}' in ins else {})
        g.imm('between-sub', ['10 GOSUB 40:PRINT "B"', '20 END', '30 PRINT "no"', '40 FOR I=1 TO 2:STOP', '50 PRINT I:NEXT', '60 RETURN', 'RUN', ins, 'PRINT "k"', 'CONT', 'CONT', 'CONT'], {'b1': pick('13')} if '{b1}' in ins else {})
    # every edit cancels CONT, refused ones do not
    for ed in ('{b1}0 PRINT "x"', '{b1}0', '{b1}5', '{b1}5 REM', 'NEW', 'LOAD "f.bas"', 'LOAD "none.bas"', 'RENUM', 'RENUM 10,1,10', 'RENUM {b1}00', 'RENUM 1,30,1', 'RENUM 99999', 'RENUM x', 'SAVE "t.bas"', 'LIST', 'COMPILE', 'HELP', '0 PRINT', '99999999999 PRINT', 'FOO', 'PRINT "', 'CLEAR', 'RUN', 'A=1', 'DIM A(3)', '20 STOP', '20 STOP ', '  {b1}0'):
        g.add('edit', '10 PRINT "A"\n20 STOP\n30 PRINT "C"\nRUN\n%s\nCONT\nCONT\nLIST\nRUN\nCONT\nBYE\n' % ed, {'b1': pick('1234')} if '{b1}' in ed else {}, files={'f.bas': '10 PRINT "f":STOP:PRINT "g"\n'})
        g.add('edit-twice', '10 PRINT "A":STOP\n20 STOP\n30 PRINT "C"\nRUN\nCONT\n%s\nCONT\nCONT\nBYE\n' % ed, {'b1': pick('1234')} if '{b1}' in ed else {}, files={'f.bas': '10 PRINT "f":STOP:PRINT "g"\n'})
    # never stopped, ended, failed
    g.imm('none', ['CONT', '10 PRINT "A"', 'CONT', 'RUN', 'CONT', '20 END', 'RUN', 'CONT', '15 PRINT 1/0:A$=CHR$(-1)', 'RUN', 'CONT', 'GOTO 10', 'CONT', '15 STOP', 'GOTO {b1}0', 'CONT', 'CONT'], {'b1': pick('12')})
    g.imm('syntax', ['10 PRINT "A":STOP', '20 PRINT )', 'RUN', 'CONT', '20 PRINT "B"', 'RUN', 'CONT', 'CONT', '20 PRINT {b1}', 'CONT', 'RUN', 'CONT'], {'b1': pick('1)x')})
    g.imm('error-after', ['10 STOP', '20 PRINT "A":PRINT LOG(0)', '30 PRINT "C"', 'RUN', 'CONT', 'CONT', 'PRINT "k"', 'CONT'], {})
    g.imm('error-in-imm', ['10 A=3:STOP', '20 PRINT A', 'RUN', 'PRINT A;LOG(0)', 'PRINT LEFT$("a",-{n1})', 'A=A+1:A=LOG(0)', 'CONT', 'PRINT A'], {'n1': I(0, 2)})
    g.imm('imm-stop', ['10 PRINT "A"', 'STOP', 'CONT', 'PRINT 1:STOP:PRINT 2', 'CONT', 'GOTO 10', 'CONT', 'FOR I=1 TO 2:STOP:NEXT', 'CONT', 'NEXT', 'PRINT I'], {})
    g.imm('goto-stop', ['10 PRINT "A":STOP:PRINT "B"', '20 PRINT "C"', 'GOTO {b1}0', 'CONT', 'GOSUB {b1}0', 'CONT', 'CONT'], {'b1': pick('12')})
    g.imm('stop-end', ['10 PRINT "A"', '20 STOP', 'RUN', 'CONT', 'CONT', 'RUN', 'RUN', 'CONT', 'CONT'], {})
    g.imm('stop-in-sub', ['10 GOSUB 30:PRINT "B"', '20 END', '30 STOP:PRINT "S":RETURN', 'RUN', 'RETURN', 'CONT', 'RUN', 'CONT', 'CONT'], {})
    g.imm('for-imm', ['10 FOR I=1 TO 3', '20 STOP', '30 PRINT I:NEXT', '40 PRINT "E"', 'RUN', 'FOR K=1 TO 2:PRINT K:NEXT', 'CONT', 'NEXT', 'CONT', 'CONT', 'PRINT I'], {})
    g.imm('input', ['10 PRINT "A":STOP', '20 INPUT A:PRINT A:STOP', '30 PRINT A+1', 'RUN', 'CONT', '{b1}', '5', 'CONT', 'PRINT A'], {'b1': pick('0123456789x')})
    g.imm('nested', ['10 STOP:STOP', '20 IF {n1} THEN STOP:PRINT "T" ELSE STOP:PRINT "F"', '30 PRINT "N"', 'RUN', 'CONT', 'CONT', 'CONT', 'CONT'], {'n1': I(0, 1)})
    g.imm('col', ['10 PRINT "abc";:STOP:PRINT ,"d"', '20 PRINT TAB(5)"e"', 'RUN', 'CONT', 'RUN', 'PRINT "xy";', 'CONT'], {})
    g.imm('depth', ['10 N=N+1:IF N<8 THEN GOSUB 10:N=N-1:RETURN', '20 STOP:RETURN', 'RUN', 'CONT', 'PRINT N', 'CONT'], {})
    g.imm('random', ['10 RANDOMIZE 5:A=RND(1):STOP', '20 B=RND(1):RANDOMIZE 5:PRINT A=RND(1);B=RND(1)', 'RUN', 'CONT'], {})
    g.file('batch', ['10 PRINT "A";:STOP', '20 PRINT {n1}'], {'n1': I(0, 9)}, stdin='CONT\nPRINT 5\n')

def c17(g):
    deep = g.deep
    progs = [
        ['10 PRINT "A":PRINT "B"', '20 PRINT "C"'],
        ['10 FOR I=1 TO 3', '20 PRINT I;', '30 NEXT', '40 PRINT "E"'],
        ['10 FOR I=1 TO 2:FOR J=1 TO 2:PRINT I*J,:NEXT J,I'],
        ['10 GOSUB 40:PRINT "B"', '20 GOSUB 40', '30 END', '40 PRINT "S":RETURN'],
        ['10 DEF FNA(X)=X*2+Y', '20 Y=3:X=1', '30 A=FNA(X+1)+FNA(2):PRINT A;X'],
        ['10 DEF FNA$(X)=CHR$(64+X)+"-"+Y$', '20 Y$="y":X=5', '30 A$=FNA$(X+1)+FNA$(2):PRINT A$;X'],
        ['10 IF 1 THEN PRINT "T":PRINT "U" ELSE PRINT "F"', '20 IF 0 THEN PRINT "T" ELSE PRINT "F":PRINT "G"', '30 PRINT "N"'],
        ['10 READ A,B$:PRINT A;B$', '20 RESTORE:READ C:PRINT C', '30 DATA 1,two'],
        ['10 A=1+2*3-4/5^2:B=-A:C=NOT 5 AND 3 OR 8', '20 PRINT A;B;C'],
        ['10 A$="abc"+"def":B$=LEFT$(A$,2)+MID$(A$,2,3)', '20 PRINT A$;B$;LEN(B$);ASC(B$)'],
        ['10 DIM A(3):A(1)=5:A(2)=A(1)+A(1)', '20 PRINT A(A(1)-3);A(2)'],
        ['10 A=A+1', '20 IF A<4 THEN 10', '30 PRINT A'],
        ['10 ON 2 GOSUB 30,40:PRINT "R"', '20 END', '30 PRINT 3:RETURN', '40 PRINT 4:RETURN'],
        ['10 ON 1 GOTO 30', '20 PRINT "no"', '30 PRINT "x";:PRINT TAB(6);"y",:PRINT SPC(2);"z"'],
        ['10 RANDOMIZE 7:A=RND(1):RANDOMIZE 7', '20 PRINT A=RND(1)'],
        ['10 PRINT "A":STOP:PRINT "B"', '20 PRINT "C"'],
        ['10 FOR I=1 TO 2:STOP:PRINT I:NEXT'],
        ['10 PRINT "A":PRINT LOG(0)', '20 PRINT "C"'],
        ['10 A$="k":FOR I=1 TO 2:A$=A$+CHR$(64+I)+STR$(I):NEXT:PRINT A$'],
        ['10 CLEAR:A=1:PRINT A:END', '20 PRINT "no"'],
        ['10 IF 1 THEN IF 0 THEN PRINT 1 ELSE PRINT 2:GOTO 30', '20 PRINT "no"', '30 PRINT "e"'],
        ['10 FOR I=1 TO 2:GOSUB 30:NEXT:PRINT I:END', '30 FOR J=1 TO 2:PRINT I;J:NEXT:RETURN'],
        ['10 A(1,2)=3:A$(1)="x":PRINT A(1,2);A$(1)', '20 LET B=A(1,2):PRINT B'],
        ['10 PRINT ABS(-1);SQR(4);INT(2.5);SGN(-3);VAL("7");INSTR("abc","c")' if 0 else '10 PRINT ABS(-1);SQR(4);INT(2.5);SGN(-3);VAL("7")', '20 PRINT TAB(3)"q"'],
        ['10 IF FNB(1) THEN PRINT 1', '5 DEF FNB(Z)=Z>0', '20 ON FNB(2)+2 GOTO 30,30', '30 FOR I=FNB(0) TO 1:PRINT I:NEXT'],
        ['10 REM a', '20 DATA 1', '30 PRINT "x"', '40 REM z'],
        ['10 A=1', '20 B=2', '30 C=3'],
    ]
    n = 300 if deep else 120
    for i, p in enumerate(progs):
        for cmd in (['RUN'],):
            stops = sum(l.count('STOP') for l in p) + (1 if i == 16 else 0)
            g.add('p%02d' % i, '\n'.join(p).replace('END', 'GOTO 99') + '\n99 PRINT A;B;C;I;J;X;Y;A$;B$;X$\n' + cmd[0] + '\n' + 'CONT\n' * (1 + stops) + 'BYE\n', {}, interrupt=n, maxpaths=n + 10, timeout=25 if not deep else 150)
    hs = [
        (['10 FOR I={n1} TO {n2}', '20 PRINT I;', '30 NEXT', '40 PRINT "E"'], {'n1': I(0, 2), 'n2': I(0, 2)}),
        (['10 DEF FNA(X)=X*2+Y', '20 Y={n1}:X={n2}', '30 A=FNA(X+1)+FNA(2):PRINT A;X'], {'n1': I(-9, 9), 'n2': I(-9, 9)}),
        (['10 A={n1}:IF A THEN PRINT "T":PRINT "U" ELSE PRINT "F":PRINT "G"', '20 PRINT "N"'], {'n1': I(-1, 1)}),
        (['10 ON {n1} GOSUB 30,40:PRINT "R"', '20 END', '30 PRINT 3:RETURN', '40 PRINT 4:RETURN'], {'n1': I(-1, 3)}),
        (['10 PRINT "A":A$=CHR$({n1}):PRINT "B"', '20 PRINT "C"'], {'n1': I(-1, 1)}),
        (['10 A=2:GOTO {b1}0', '20 PRINT "B":END', '30 PRINT "C"'], {'b1': pick('234')}),
    ]
    for i, (p, h) in enumerate(hs):
        g.add('sym%d' % i, '\n'.join(p).replace('END', 'GOTO 99') + '\n99 PRINT A;I;X;Y;A$\nRUN\nCONT\nBYE\n', h, interrupt=60 if not deep else 160, maxpaths=1000, timeout=25 if not deep else 150)
    for i, p in enumerate([['10 FOR I=1 TO 3:PRINT I:NEXT'], ['10 GOSUB 20:PRINT "b":END', '20 PRINT "s":RETURN'], ['10 A=1:PRINT A']]):
        for o in (['-q', '-t'], ['-q', '-f'], ['-q', '-m'], ['-q', '-k']):
            if deep or (i + len(o[1])) and o[1] in ('-m', '-f'): g.add('opt%d' % i, '\n'.join(p).replace('END', 'GOTO 99') + '\n99 PRINT A;I\nRUN\nCONT\nBYE\n', {}, interrupt=n, maxpaths=n + 10, args=o)

ERRS = ['A=LOG(0)', 'A$=CHR$(-1)', 'A$=CHR$({n1}-400)', 'A=LOG(0)', 'A=SQR(-1)', 'B(3)=B(11)', 'B({n1}-100)=1', 'A=B(1,2,3)', 'GOTO 999', 'GOSUB 999', 'RETURN', 'NEXT', 'NEXT Q', 'RESTORE 999', 'READ Q', 'A=FNQ(1)', 'DIM C(-1)', 'DIM C(99999,99999)', 'A$=A$+A$+A$+A$+A$+A$+A$+A$+A$+A$+A$+A$+A$', 'A=VAL("x")', 'ON 1 GOTO 999', 'A=NOT 1.5', 'A=1.5 AND 1', 'A$=LEFT$("abc",-1)', 'A$=MID$("abc",0,1)', 'PRINT TAB(-1)', 'PRINT "p";SPC(-1);"q"', 'RANDOMIZE -1', 'A$=B$(0)+CHR$(999)', 'FOR I=1 TO LOG(0):PRINT I:NEXT', 'IF LOG(0) THEN PRINT 1', 'PRINT "a";1;LOG(0);"z"', 'A=1+2*(3+LOG(0))', 'A$="x"+("y"+CHR$(-1))', 'B(LOG(0))=5', 'B(1)=LOG(0)', 'A$(1)=CHR$(-1)', 'PRINT FNA(LOG(0))', 'A=FNB(-4)', 'A=3:B(1)=4:A=LOG(0)', 'READ A,Q', 'A=B(1)+B(2)*B(99)', 'A$="p"+LEFT$("abc",2)+MID$("x",-1,1)', 'LET A=1E9:A=NOT 1E10']
SYN = ['PRINT (', 'A=', 'A="x"', 'A$=1', 'FOO', 'PRINT "abc', 'IF 1', 'FOR', 'NEXT 1', 'GOTO', 'GOTO A B', 'DIM', 'DIM A', 'A(1=2', 'LEFT$(A$,1)=2', 'PRINT LEFT$("a")', 'PRINT ABS("x")', 'ELSE PRINT 1', 'DEF FNA(X)', 'READ 1', 'INPUT "x"', 'ON 1', 'RESTORE x', '&', 'PRINT 1 2 )', 'LET', 'PRINT A$+1', 'THEN', '1=2', 'IF "a" THEN 10', 'IF 1 THEN 10 PRINT', 'RUN 5', 'BYE x', 'LIST x', 'RENUM x', 'NEW x', 'LOAD x', 'SAVE', 'FOR I$=1 TO 2', 'PRINT USR(1)', '=', ':', '::', 'PRINT :=', 'DATA', 'A$(1)=2', 'PRINT B+B$', 'PRINT TAB', 'REM', '?', '"x"', "'", '.', 'PRINT .', 'GOSUB', 'RETURN 5', 'STOP 1', 'END 1', 'CLEAR 1', 'RANDOMIZE "x"', 'LINE A', 'LINE INPUT A', 'INPUT 5', 'X+1', 'PRINT NOT', 'PRINT 1 AND', 'PRINT 5 OR "x"', 'DEF A(X)=1', 'DEF FNA(1)=1', 'DIM 5(1)', 'PRINT A(', 'PRINT A(1,', 'PRINT )']

def c18(g):
    deep = g.deep
    chk = ['PRINT "K";A;A$;B(1);B(2);I;J;FNA(2);X;FNB(9)', 'READ R:PRINT R']
    pre = ['DEF FNA(X)=X+A:DEF FNB(X)=SQR(X)', 'A=7:A$="str":B(1)=1:B(2)=2:X=6']
    for i, e in enumerate(ERRS):
        h = {'n1': I(0, 99)} if '{n1}' in e else {}
        # in the program, with pending loop and subroutine; the session goes on
        g.add('run%02d' % i, '10 DEF FNA(X)=X+A:DEF FNB(X)=SQR(X)\n20 A=7:A$="0123456789012345678901234567890":B(1)=1:B(2)=2:X=6\n30 FOR I=1 TO 2:GOSUB 60:NEXT\n40 PRINT "E"\n50 END\n60 PRINT "S":%s:PRINT "T"\n70 RETURN\n80 DATA 41\nRUN\n' % e + '\n'.join(chk) + '\nRETURN\nNEXT\nPRINT I\nCONT\nRUN\nLIST 60\nBYE\n', h)
        # in immediate mode, repeatedly
        g.add('imm%02d' % i, '10 PRINT "P":DATA 5,6\n' + '\n'.join(pre) + '\n' + e + '\n' + chk[0] + '\n' + e + '\n' + e + '\n' + chk[0] + '\nRUN\nBYE\n', h)
    if True:
        for i, e in enumerate(SYN):
            g.add('syn%02d' % i, '10 PRINT "P":DATA 5,6\n20 PRINT A\n' + '\n'.join(pre) + '\nPRINT 1:' + e + ':PRINT 2\n' + chk[0] + '\n' + e + '\nLIST\n' + '\n'.join(chk) + '\nRUN\nBYE\n', {})
            g.add('psyn%02d' % i, '10 PRINT "P":A=1\n20 %s\n30 PRINT "Q"\nA=4\nRUN\nPRINT A\nGOTO 10\nPRINT A\nLIST\n20\nRUN\nPRINT A\nBYE\n' % e, {})
    # stacks: many errors do not fill anything up
    for e in ('A=LOG(0)+1', 'A=1+LOG(0)', 'A$="x"+"y"+CHR$(-1)', 'PRINT 1+(2+(3+(4+LOG(0))))', 'PRINT "a"+("b"+("c"+("d"+CHR$(-1))))', 'A=FNB(-1)', 'A=1+FNB(-1)', 'FOR I=1 TO 2:NEXT:NEXT', 'B(99)=1', 'B(1)=B(99)', 'PRINT FNA(FNB(1))', 'ON LOG(0) GOTO 10', 'INPUT B(99)', 'READ B(99)', 'A$(99)="x"', 'DIM Q(LOG(0))', 'A$=LEFT$("abc"+"def",LOG(0))', 'IF "a"+CHR$(-1)="b" THEN 10'):
        g.add('repeat', 'DEF FNA(X)=X+A:DEF FNB(X)=SQR(X)\nA={n1}:X=6\n' + ((e + '\n') if not e.startswith('INPUT') else e + '\n5\n') * 20 + 'PRINT A;X;FNA(1);1+(2+(3+(4+5)));"a"+("b"+("c"+"d"))\nBYE\n', {'n1': I(-5, 5)})
        g.prog('repeat-run', num(['DEF FNA(X)=X+A:DEF FNB(X)=SQR(X):X=6', 'PRINT "S";A', e, 'PRINT "no"']), {'n1': I(-5, 5)}, after=(['3'] if e.startswith('INPUT') else []) + ['A=A+{n1}:GOTO 20'] * 1 + (['3'] if e.startswith('INPUT') else []) + ['PRINT A;X', 'PRINT 1+(2+(3+(4+5)));"a"+("b"+("c"+"d"))', 'PRINT FNA(1)'])
    # the position of the report
    g.prog('report', num(['PRINT "A"', 'IF {n1}=1 THEN PRINT 1:A=LOG(0)', 'IF {n1}=2 THEN GOSUB 70', 'FOR I=1 TO 2:IF {n1}=3 THEN B(99)=1', 'NEXT:DEF FNA(X)=LOG(X):IF {n1}=4 THEN PRINT FNA(0)', 'PRINT "ok":END', 'PRINT "s":RETURN:RETURN', 'RETURN']), {'n1': I(0, 5)}, after=['PRINT "K"'])
    g.prog('report-def', ['10 DEF FNA(X)=LOG(X)', '20 PRINT "x"', '30 PRINT FNA({n1})', '40 PRINT "y"'], {'n1': I(-1, 1)}, after=['PRINT FNA(-1)', 'PRINT "K"'])
    g.prog('report-goto', num(['PRINT "a":GOTO {b1}5', 'PRINT "b"', 'GOSUB {b1}5', 'RESTORE {b1}5']), {'b1': pick('12')}, after=['GOTO 20', 'GOTO 30', 'GOTO 40'])
    g.prog('parts', num(['A=1:A$="x":B(1)=2:A={n1}+LOG(0):A=99']), {'n1': I(0, 1)}, after=['PRINT A;A$;B(1)', 'A$="y":A=5:A$=A$+CHR$({n1}-1):A=6', 'PRINT A;A$'])
    g.prog('parts-read', num(['READ A,B(1),B(99),C', 'DATA 1,2,3,4']), {}, after=['PRINT A;B(1);C', 'READ C:PRINT C'])
    g.prog('parts-print', num(['PRINT "a";{n1};', 'PRINT "b";B(99);"c"']), {'n1': I(-9, 9)}, after=['PRINT "K"', 'PRINT ,"L"'])
    g.prog('parts-dim', num(['DIM C(2),D({n1}),E(2)', 'PRINT "ok"']), {'n1': I(-2, 2)}, after=['C(2)=1:PRINT C(2)', 'PRINT E(5)'])
    g.prog('parts-for', num(['I=9:FOR I=1 TO LOG(0):PRINT I', 'NEXT']), {}, after=['PRINT "K"', 'NEXT', 'FOR J=1 TO 2:PRINT J:NEXT'])
    g.imm('two-runs', ['10 PRINT "A":A={n1}:B$=CHR$(A)', '20 PRINT "ok"', 'RUN', 'RUN', '10 PRINT "B"', 'RUN', 'PRINT A'], {'n1': I(-2, 2)})
    g.imm('stop-error', ['10 A=1:STOP', '20 A=2:STOP', '30 PRINT A', 'RUN', 'PRINT LOG(0)', 'FOO', '5x', 'PRINT A', 'CONT'], {})
    g.imm('error-cont', ['10 PRINT "A":PRINT LOG(0)', '20 PRINT "B"', 'RUN', 'CONT', 'GOTO 20', 'CONT'], {})
    g.imm('error-line-end', ['10 PRINT "A"', '20 PRINT LOG(0)', 'RUN', '30 PRINT "C"', 'RUN', '20', 'RUN'], {})
    g.imm('def-error', ['DEF FNA(X)=X/0', 'PRINT FNA({n1})', 'DEF FNB(X)=LOG(0)', 'X=3:PRINT FNB(1)', 'PRINT X', 'PRINT FNB(1)', 'DEF FNB(X)=X', 'PRINT FNB({n1});X'], {'n1': I(-1, 1)})
    g.imm('input-error', ['10 INPUT A,B(A)', '20 PRINT A;B(1)', 'RUN', '{b1}{b2},5', '1,6', 'PRINT A', 'RUN', '1,7'], {'b1': pick('019x'), 'b2': pick('019')})
    g.imm('long-then-short', ['10 PRINT "A"', 'PRINT ' + 'x' * 125, 'PRINT "' + 'y' * 122, 'PRINT "' + 'z' * 200 + '"', 'PRINT "K"', 'RUN'], {})
    g.imm('errors-mixed', ['10 A=5:GOSUB 30', '20 END', '30 B$=CHR$({n1})', '40 PRINT LEFT$("abc",{n1})', '50 PRINT SQR({n1})', '60 RETURN', 'RUN', 'PRINT A', 'GOSUB 40', 'GOSUB 50', 'PRINT A;"K"', 'RETURN'], {'n1': I(-1, 1)})
    if deep:
        for i, e in enumerate(ERRS):
            for j, f in enumerate(ERRS):
                if (i * 7 + j) % 9 == 0: g.add('two', '\n'.join(pre) + '\n10 GOSUB 20\n20 %s\n%s\nRUN\n%s\nA=7:B(1)=1:%s\n' % (e, f, e, f) + chk[0] + '\nBYE\n', {'n1': I(0, 99)} if '{n1}' in e + f else {})

def c22(g):
    deep = g.deep
    g.prog('range', num(['X=RND(1)', 'PRINT X>=0;X<1']), {})
    for f in ('RND', 'RND()', 'RND(0)', 'RND(1)', 'RND(-1)', 'RND("")', 'RND(A$)', 'RND({n1})', 'rnd(1)'):
        g.prog('form', num(['A$="z":X=%s' % f, 'PRINT X>=0 AND X<1;X=0 OR X>0', 'PRINT X']), {'n1': I(-9, 9)} if '{n1}' in f else {})
        g.prog('repeat', num(['RANDOMIZE 3:A=%s:B=%s' % (f, f), 'RANDOMIZE 3:C=%s:D=%s' % (f, f), 'PRINT A=C;B=D']), {'n1': I(-9, 9)} if '{n1}' in f else {})
    g.prog('dice', num(['X=INT(RND(1)*6)+1', 'PRINT X>=1 AND X<=6', 'PRINT X']), {})
    g.prog('three', num(['A=RND(1):B=RND(1):C=RND(1)', 'PRINT A>=0 AND A<1;B>=0 AND B<1;C>=0 AND C<1', 'PRINT A;B;C']), {}, timeout=25)
    g.prog('fresh', num(['PRINT RND(1);RND(1)', 'A=RND(1)+RND(1):PRINT A']), {})
    g.prog('fresh-if', num(['IF RND(1)<0.5 THEN PRINT "lo" ELSE PRINT "hi"', 'PRINT RND(1)<0.5']), {})
    g.prog('array', num(['DIM A(3):A(INT(RND(1)*4))=1', 'FOR I=0 TO 3:PRINT A(I);:NEXT']), {})
    g.prog('def', num(['DEF FNR(N)=INT(RND(1)*N)', 'X=FNR(5):PRINT X>=0 AND X<5;X']), {})
    g.prog('seed', num(['RANDOMIZE {n1}:A=RND(1)', 'RANDOMIZE {n2}:B=RND(1)', 'RANDOMIZE {n1}:PRINT A=RND(1):PRINT A;B']), {'n1': I(0, 100000), 'n2': I(0, 100000)})
    g.prog('seed-big', num(['RANDOMIZE {n1}:PRINT RND(1)']), {'n1': I(0, 4294967295)}, after=['PRINT "K"'])
    g.prog('seed-any', num(['RANDOMIZE 1:A=RND(1)', 'RANDOMIZE {n1}', 'PRINT RND(1)']), {'n1': I(-4294967299, 8589934599)}, after=['PRINT RND(1)'])
    g.prog('seed-half', num(['RANDOMIZE 1:A=RND(1)', 'RANDOMIZE {n1}', 'PRINT RND(1)']), {'n1': H(-3, 9)}, after=['PRINT RND(1)'])
    g.prog('seed-real', num(['RANDOMIZE 1', 'RANDOMIZE {n1}', 'PRINT RND(1)']), {'n1': S(1e20)}, after=['PRINT RND(1)'])
    g.prog('seed-expr', num(['N={n1}:RANDOMIZE N*2+1:A=RND(1):RANDOMIZE N+N+1', 'PRINT A=RND(1)']), {'n1': I(0, 1000)})
    g.prog('undisturbed', num(['RANDOMIZE 5:A=RND(1):B=RND(1)', 'RANDOMIZE 5:C=RND(1):RANDOMIZE -{n1}', 'PRINT "no"']), {'n1': I(1, 5)}, after=['PRINT B=RND(1)'])
    g.prog('clock', num(['RANDOMIZE:A=RND(1):PRINT A']), {})
    g.prog('clock2', num(['RANDOMIZE:A=RND(1):RANDOMIZE:PRINT A;RND(1)']), {})
    g.prog('run-again', num(['RANDOMIZE 9:PRINT RND(1)']), {}, after=['RUN', 'RUN'])
    g.prog('continues', num(['PRINT RND(1)']), {}, after=['RUN', 'PRINT RND(1)', 'CLEAR', 'PRINT RND(1)', 'NEW', 'PRINT RND(1)'])
    g.imm('imm', ['RANDOMIZE {n1}', 'PRINT RND(1)', 'RANDOMIZE {n1}:PRINT RND(1)', 'RANDOMIZE', 'PRINT RND(1)'], {'n1': I(0, 99)})
    g.prog('syntax', num(['RANDOMIZE "a"']), {}, after=['RANDOMIZE ,', 'PRINT RND(1,2)', 'PRINT RND(', 'PRINT RND'])
    g.prog('var', num(['RND=5:PRINT RND']), {}, after=['PRINT "K"'])
    g.file('batch', ['10 PRINT RND(1);RND(1)', '20 RANDOMIZE {n1}:PRINT RND(1)'], {'n1': I(0, 9)})
    g.file('batch-z', ['10 PRINT RND(1);RND(1)'], {}, opts=('-q', '-z'))
    g.file('batch-z2', ['10 X=RND(1):PRINT X>=0 AND X<1'], {}, opts=('-z', '-q'))
    g.add('inter-z', 'PRINT RND(1)\nRANDOMIZE 4:PRINT RND(1)\nBYE\n', {}, args=['-q', '-z'])
    g.prog('shuffle', num(['DIM A(3):FOR I=1 TO 3:A(I)=I:NEXT', 'J=INT(RND(1)*3)+1:T=A(1):A(1)=A(J):A(J)=T', 'PRINT A(1);A(2);A(3);A(1)+A(2)+A(3)']), {})
    g.prog('compare', num(['A=RND(1):B=RND(1)', 'IF A<B THEN PRINT "lt" ELSE PRINT "ge"']), {})
    g.prog('mix', num(['A=INT(RND(1)*{n1})', 'PRINT A>=0 AND A<{n1}']), {'n1': I(1, 100)})

def c23(g):
    deep = g.deep
    dirty = ['A={n1}:A$="q":DIM B(5):B(3)=4:DEF FNA(X)=X+1', 'FOR I=1 TO 3:PRINT I', 'GOSUB 200' if 0 else 'READ D', 'C$(2)="z":X=9']
    # whatever happened before, RUN starts from nothing
    obs = ['100 PRINT A;A$;B(1);C$(2);D;I;X', '110 READ D:PRINT D', '120 A=A+1:A$=A$+"x":B(3)=B(3)+1:PRINT A;A$;B(3)', '130 DATA 5,6', '140 IF A>1 THEN PRINT "bad"']
    for ends in ([], ['150 STOP'], ['150 FOR I=1 TO 3'], ['150 GOSUB 160', '160 PRINT "s"'], ['150 GOSUB 160', '160 PRINT LOG(0)'], ['150 NEXT'], ['150 RETURN'], ['150 DIM A(3),B(2):DEF FNA(X)=X'], ['150 DEF FNA(A)=A*2:PRINT FNA(4);A'], ['150 CLEAR:PRINT A;A$;B(3)'], ['150 RESTORE 130:READ E:PRINT E'], ['150 END']):
        g.add('rerun', '\n'.join(obs + ends) + '\n' + '\n'.join(dirty) + '\nRUN\nPRINT A;A$;B(3)\nRUN\nNEXT\nRETURN\nPRINT A;A$;B(3);D\nRUN\nBYE\n', {'n1': I(-3, 3)})
    g.prog('same', num(['IF S=0 THEN S={n1}', 'S=S+1:PRINT S', 'IF S<4 THEN 20', 'PRINT A$;:A$="x"']), {'n1': I(-2, 5)}, after=['RUN', 'PRINT S;A$', 'RUN'])
    g.prog('first-line', ['20 PRINT "B"', '{b1}0 PRINT "x"', '10 PRINT "A"', '{b2} PRINT "y"'], {'b1': pick('123'), 'b2': pick('1239')}, after=['RUN'])
    # kinds of name after RUN / CLEAR / NEW
    for cmd in ('RUN', 'CLEAR', 'NEW', '10 PRINT "e"', '10', 'LOAD "f.bas"', 'RENUM', 'SAVE "t.bas"', 'LIST', 'COMPILE', 'CLEAR:PRINT "c"', 'GOTO 10', 'GOSUB 10', 'HELP', 'BYE x', 'REM', 'PRINT 1', 'STOP', 'END', 'FOO', 'CONT', 'RESTORE'):
        g.add('kinds', '10 PRINT "P";A;A$\n20 DATA 7,8\nA={n1}:A$="s":B(2)=3:B$(2)="t":DIM C(20):C(15)=6:DEF FNA(X)=X+A:READ D\n%s\nPRINT A;A$;B(2);B$(2);D\nPRINT C(15)\nPRINT FNA(1)\nREAD E:PRINT E\nLIST\nC(12)=1\nBYE\n' % cmd, {'n1': I(-3, 3)}, files={'f.bas': '10 PRINT "f";A\n20 DATA 9\n'})
        g.add('control', '10 PRINT "P"\n20 RETURN\n30 FOR I=1 TO 3\n40 GOSUB 60\n50 PRINT "no":END\n60 STOP\n70 NEXT\nGOTO 30\n%s\nNEXT\nPRINT I\nRETURN\nCONT\nPRINT "K"\nBYE\n' % cmd, {}, files={'f.bas': '10 PRINT "f";A\n20 DATA 9\n'})
        g.add('recheck', '10 PRINT "P"\nX=5:DIM Y(3)\n%s\nDIM X(3)\nX=2:X(1)=3:PRINT X;X(1)\nY$="a":Y=1:PRINT Y;Y$;Y(2)\nBYE\n' % cmd, {}, files={'f.bas': '10 PRINT "f";A\n20 DATA 9\n'})
    # CLEAR in the program
    g.prog('clear-run', num(['A={n1}:A$="s":B(1)=2:DEF FNA(X)=X+1', 'CLEAR', 'PRINT A;A$;B(1)', 'A=A+1:PRINT A:PRINT FNA(1)']), {'n1': I(-3, 3)}, after=['PRINT A', 'LIST'])
    g.prog('clear-loop', num(['FOR I=1 TO 2', 'CLEAR:PRINT I:I={n1}', 'NEXT', 'PRINT "E";I']), {'n1': I(2, 5)}, after=['NEXT', 'PRINT "K";I'])
    g.prog('clear-sub', num(['GOSUB 30', 'PRINT "B":END', 'A=1:CLEAR:PRINT A', 'RETURN']), {}, after=['PRINT "K"', 'RETURN'])
    g.prog('clear-data', num(['READ A:PRINT A:CLEAR:READ A:PRINT A', 'DATA 1,2']), {}, after=['READ A:PRINT A'])
    g.prog('clear-if', num(['A={n1}:IF A THEN CLEAR:PRINT A ELSE PRINT A', 'PRINT A;"e"']), {'n1': I(0, 1)})
    g.prog('clear-imm', num(['A=1', 'STOP', 'PRINT A']), {}, after=['CLEAR', 'PRINT A', 'CONT', 'PRINT A'])
    g.prog('clear-dim', num(['DIM A({n1}+2):A(1)=5', 'CLEAR:DIM A(3,3):A(3,3)=1:PRINT A(3,3);A(1,1)', 'CLEAR:A(1)=2:PRINT A(1);A(10)']), {'n1': I(0, 3)}, after=['PRINT A(1)'])
    # persistence from program to immediate mode and across immediate statements
    g.prog('persist', num(['A={n1}:A$="p{b1}":B(2)=3:DEF FNA(X)=X*A', 'FOR I=1 TO 2:NEXT:READ D', 'DATA 1,2,3']), {'n1': I(-9, 9), 'b1': Bt(32, 126, '"')}, after=['PRINT A;A$;B(2);FNA(2);I;D', 'A=A+1', 'A$=A$+"z"', 'B(3)=B(2)+A', 'READ E', 'PRINT A;A$;B(3);FNA(2);E', 'X=4', 'PRINT FNA(X);X'])
    g.imm('persist-imm', ['A={n1}', 'B=A+1:C(1)=B', 'A$="x"', 'A$=A$+STR$(B)', 'PRINT A;B;C(1);A$', 'FOO', 'PRINT LOG(0)', 'PRINT A;B;C(1);A$', '10 PRINT A', '10', 'PRINT A', 'NEW', 'PRINT A;A$'], {'n1': I(-9, 9)})
    g.imm('persist-edit', ['10 A=A+1:PRINT A', 'RUN', 'GOTO 10', '20 PRINT "new"', 'GOTO 10', 'PRINT A', '10', 'PRINT A', 'RUN', 'PRINT A'], {})
    g.imm('bad-run', ['A={n1}', '10 PRINT )', 'RUN', 'PRINT A', '10 PRINT A', 'GOTO 10', 'RUN', 'PRINT A'], {'n1': I(1, 3)})
    g.imm('no-prog', ['A={n1}', 'RUN', 'PRINT A', 'NEW', 'RUN', 'PRINT A', '10 PRINT "A"', '10', 'A={n1}', 'RUN', 'PRINT A'], {'n1': I(1, 3)})
    g.imm('new', ['10 PRINT "A"', 'A={n1}:DEF FNA(X)=X', 'NEW', 'LIST', 'PRINT A', 'PRINT FNA(1)', 'RUN', '20 PRINT "B"', 'RUN', 'LIST', 'CONT'], {'n1': I(1, 3)})
    g.imm('new-control', ['10 FOR I=1 TO 3', '20 GOSUB 30', '30 STOP', 'RUN', 'NEW', 'NEXT', 'RETURN', 'CONT', 'READ A'], {})
    g.imm('new-array', ['DIM A(3)', 'A(2)=5', 'NEW', 'PRINT A(2);A(9)', 'A=1:A(1)=2', 'NEW', 'DEF FNA(X)=X', 'PRINT FNA(3)'], {})
    g.imm('run-input', ['10 INPUT A:S=S+A:PRINT S', 'RUN', '{b1}', 'RUN', '{b1}', 'PRINT S'], {'b1': pick('0123456789')})
    g.imm('run-in-stop', ['10 A=A+1:PRINT A:GOSUB 30', '20 END', '30 STOP', '40 RETURN', 'RUN', 'RUN', 'CONT', 'CONT', 'RUN', 'CONT'], {})
    g.imm('run-depth', ['10 GOSUB 20', '20 FOR I=1 TO 2', '30 STOP'] + ['RUN'] * 12 + ['CONT', 'PRINT I'], {})
    g.imm('goto-depth', ['10 FOR I=1 TO 2', '20 END'] + ['GOTO 10'] * 12 + ['PRINT I'], {})
    g.imm('gosub-depth', ['10 END', '20 RETURN'] + ['GOSUB 10'] * 12 + ['PRINT "K"', 'RETURN'], {})
    g.imm('col', ['10 PRINT "abc";', 'RUN', 'RUN', '10 PRINT ,"x"', 'RUN', 'PRINT "ab";', 'RUN', 'PRINT TAB(4)"z"'], {})
    g.imm('rnd', ['10 RANDOMIZE 1:A=RND(1)', '20 B=RND(1):PRINT A=B', 'RUN', 'RUN'], {})
    g.file('batch', ['10 PRINT A;A$;B(1)', '20 A=1:IF C=0 THEN C=1:GOTO 10'], {}, stdin='')

def c24(g):
    deep = g.deep
    progs = {
        'hello': (['10 PRINT "A";{n1}', '20 IF {n1}>2 THEN 40', '30 PRINT "B"', '40 PRINT "C"'], {'n1': I(0, 4)}, ''),
        'loop': (['10 FOR I=1 TO {n1}', '20 PRINT I;', '30 FOR J=1 TO 2:PRINT J:NEXT J', '40 NEXT I', '50 PRINT "E"'], {'n1': I(0, 2)}, ''),
        'sub': (['5 REM start', '10 GOSUB 40:PRINT "B"', '20 ON {n1} GOSUB 40,50', '30 END', '40 PRINT "S":RETURN', '50 PRINT "T":RETURN'], {'n1': I(0, 3)}, ''),
        'error': (['10 PRINT "A"', '20 PRINT LEFT$("abc",{n1})', '30 PRINT "B"'], {'n1': I(-1, 1)}, ''),
        'input': (['10 INPUT "v";A', '20 PRINT A', '30 LINE INPUT A$', '40 PRINT A$;"."'], {'b1': pick('0123456789x')}, '{b1}\n7\nhello\nz\n'),
        'stop': (['10 PRINT "A":IF {n1} THEN STOP', '20 PRINT "B"'], {'n1': I(0, 1)}, 'CONT\n'),
        'bad': (['10 PRINT "A"', '20 PRINT {b1}1', '30 PRINT "C"'], {'b1': Bt()}, ''),
        'names': (['10 A=1:B$="x":DIM C(3):LET Dog=2', '20 DEF FNA(X)=X+A:PRINT FNA({n1});b$;DOG', '30 C(1)=A:PRINT C(1)'], {'n1': I(0, 9)}, ''),
        'data': (['10 READ A,A$:PRINT A;A$', '20 DATA {n1}, q r ,"s"', '30 RESTORE:READ B:PRINT B'], {'n1': I(0, 99)}, ''),
        'forleft': (['10 FOR I=1 TO 3', '20 PRINT I', '30 IF I={n1} THEN END', '40 NEXT'], {'n1': I(0, 3)}, ''),
        'multi': (['10 A={n1}:PRINT "x":IF A THEN PRINT "t":PRINT "u" ELSE PRINT "f"', '20 REM', '30 GOTO 50', '40 PRINT "no"', '50 PRINT ,"y"'], {'n1': I(0, 1)}, ''),
    }
    opts = [['-q'], [], ['-t'], ['-q', '-t'], ['-q', '-f'], ['-q', '-m'], ['-m'], ['-q', '-g'], ['-q', '-r'], ['-r'], ['-q', '-k'], ['-q', '-t', '-f', '-m'], ['-q', '-t', '-g'], ['-l'], ['-q', '-l'], ['-n'], ['-p'], ['-c'] , ['-q', '-p'], ['-q', '-n'], ['-q', '-c'], ['-q', '-m', '-p'], ['-q', '-m', '-l'], ['--quiet', '--trace-basic'], ['--quiet', '--trace-for'], ['--quiet', '--report-memory'], ['--quiet', '--run'], ['--list'], ['--list-names'], ['--parse'], ['--quiet', '--keywords-anywhere']]
    for nm, (p, h, inp) in progs.items():
        for i, o in enumerate(opts):
            kw = {}
            if '-g' in o or '--trace-log' in o: kw['nostderr'] = 1
            if '-c' in o: kw['mode'] = 1
            g.file(nm + '-' + ''.join(x.strip('-')[:4] for x in o), p, h, stdin=inp, opts=o, **kw)
    # the command line itself
    for o in (['-x'], ['--unknown'], ['-'], ['--'], ['-qq'], ['-tq'], ['-q', '-x'], ['-h'], ['--help'], ['-v'], ['--version'], ['-l', '-p'], ['-p', '-r'], ['-n', '-l'], ['--lis'], ['-Q'], ['--QUIET'], ['-q', 'p.bas', '-t'], ['p.bas'], ['-', '-q']):
        a = o + (['p.bas'] if 'p.bas' not in o else [])
        hk = {'noout': 1} if '-h' in o or '--help' in o else {}
        g.add('cmdline', 'PRINT 5\n', {'b1': pick('AB')}, **hk, files={'p.bas': '10 PRINT "{b1}"\n20 GOSUB 40\n30 END\n40 RETURN\n'}, args=a)
        g.add('noarg', 'PRINT "{b1}"\nBYE\n', {'b1': pick('AB')}, **hk, files={'p.bas': '10 PRINT 1\n'}, args=[x for x in o if x != 'p.bas'])
    g.add('two-files', '', {}, files={'p.bas': '10 PRINT 1\n', 'q.bas': '10 PRINT 2\n'}, args=['-q', 'p.bas', 'q.bas'])
    g.add('missing', '', {}, args=['-q', 'none.bas'])
    for o in ('-l', '-n', '-p', '-r', '-m', '-t'): g.add('missing-opt', '', {}, args=['-q', o, 'none.bas'])
    # batch against RUN: same output, by running the code under test both ways
    for nm in ('hello', 'loop', 'sub', 'error', 'data', 'names', 'multi', 'forleft'):
        p, h, inp = progs[nm]
        g.file('trace-' + nm, p, h, stdin=inp, opts=['-q', '-t'])
        g.add('inter-trace-' + nm, '\n'.join(p) + '\nRUN\nRUN\nPRINT A\nBYE\n', h, args=['-q', '-t'])
        g.add('inter-f-' + nm, '\n'.join(p) + '\nRUN\nRUN\nPRINT A\nBYE\n', h, args=['-q', '-f'])
        g.add('inter-m-' + nm, '\n'.join(p) + '\nRUN\nRUN\nPRINT A\nBYE\n', h, args=['-q', '-m'])
    # --parse/--code accept what run accepts
    for src in ('PRINT {b1}', 'A{b1}1', 'END:GOTO 1{b1}', 'IF A {b1}THEN PRINT 1', 'PRINT "x{b1}', 'A$={b1}', 'DATA {b1}', 'FOR I=1 TO 2{b1}', 'DIM A(1{b1}', 'DEF FNA(X)=X{b1}', 'PRINT A{b1}B', '{b1}', 'REM {b1}', 'PRINT LEFT$("a"{b1}1)', 'ON A GOTO 2{b1}'):
        for o in (['-q', '-p'], ['-q', '-c'], ['-q', '-n'], ['-q', '-l'], ['-q', '-r'], ['-q', '-p', '-k']):
            g.file('accept', ['10 %s' % src, '20 REM'], {'b1': Bt()}, opts=o, **({'noout': 1} if '-c' in o else {}))
    # names
    for src in (['10 {b1}=1:{b1}$="x":Zed=2', '20 PRINT zed;ZED'], ['10 DIM {b1}(3):{b1}(1)=2', '20 A=1'], ['10 FOR {b1}=1 TO 2:NEXT:READ Q$', '20 DATA {b1}'], ['10 DEF FN{b1}(X)=X:PRINT FNA(1)'], ['10 PRINT A{b1};AB;A1;ABC;A'], ['10 A=B+C+D:B$="x":PRINT LEFT$(B$,1);ABS(A);RND(1)'], ['10 ZZ=1:AA=2:MM=3:zz=4:aa$="p"']):
        g.file('names', src, {'b1': pick('abcmxzABCMXZ')}, opts=['-n'])
        g.file('names', src, {'b1': pick('abcmxzABCMXZ')}, opts=['-q', '-n'])
        g.file('names', src, {'b1': pick('abcmxzABCMXZ')}, opts=['-n', '-k'])
    g.file('list-text', ['10 PRINT "{b1}"', '20{b2}REM x', '65535 GOTO 10'], {'b1': Bt(), 'b2': Bt()}, opts=['-l'])
    g.file('trace-if', num(['A={n1}:IF A THEN 30', 'PRINT "F"', 'IF A>1 THEN PRINT "T":GOTO 50', 'PRINT "x"', 'PRINT "y"']), {'n1': I(0, 2)}, opts=['-q', '-t'])
    g.file('trace-col', num(['PRINT "abc";', 'PRINT {n1},', 'PRINT "z"']), {'n1': I(0, 2)}, opts=['-q', '-t'])
    g.file('trace-fn', num(['DEF FNA(X)=X+1', 'PRINT FNA({n1})', 'PRINT FNA(FNB(1))']), {'n1': I(0, 2)}, opts=['-q', '-t'])
    g.file('trace-for', num(['FOR I=1 TO 2', 'FOR J=1 TO {n1}', 'NEXT', 'NEXT']), {'n1': I(0, 2)}, opts=['-q', '-f'])
    g.file('trace-for-many', num(['FOR %s=1 TO 2' % v for v in 'ABCDEFGHI']), {}, opts=['-q', '-f'])
    g.file('trace-for-exit', num(['FOR I=1 TO 2', 'GOTO 30', 'FOR J=1 TO 2', 'PRINT "e"']), {}, opts=['-q', '-f'])
    g.add('inter-k', '10 FORI=1TO3:PRINTI:NEXTI\nRUN\nPRINT"{b1}"\nIFI=4THENPRINT"y"ELSEPRINT"n"\nBYE\n', {'b1': Bt(32, 126, '"')}, args=['-q', '-k'])

def c25(g):
    deep = g.deep
    M = ['-q', '-m']
    def both(id, lines, holes=None, stdin='', **kw):
        """as a batch file and typed in; the memory report is compared as balanced / unbalanced"""
        g.file(id, lines, holes, stdin=stdin, opts=M, **kw)
        g.add(id + '-i', '\n'.join(lines) + '\nRUN\n' + stdin + 'PRINT "K"\nRUN\n' + stdin + 'BYE\n', holes, args=M, **kw)
    body = ['A$="abc"', 'A$=A$+"x"', 'A$=LEFT$("abc",{n1})', 'PRINT LEFT$("abc",{n1})+"z"', 'A$(1)="x":A$(1)="y"', 'DIM A$(3):A$(2)="q":DIM A$(5)', 'DIM A({n1}):DIM A(3)', 'A$=STR$({n1})+CHR$(65+{n1})', 'IF A$+"x"="x" THEN PRINT "y"', 'PRINT "a";"b"+"c";A$;', 'DEF FNA$(X)=CHR$(64+X)+"q":PRINT FNA$(1)+A$', 'DEF FNA$(X)=STR$(X)+A$:A$=FNA$(1)+FNA$(LEN(FNA$(2)))', 'DEF FNA$(X$)=X$+"q":PRINT FNA$("a"+A$)', 'DEF FNA(X)=X:DEF FNA(Y)=Y+1:PRINT FNA(1)', 'X$="k":DEF FNA(X)=LEN(X$+"p")+X:PRINT FNA(2);X$', 'FOR I=1 TO 3:A$=A$+"x":NEXT', 'READ A$,B:READ A$:DATA "x",5,y', 'A$=MID$("abc"+"def",2,{n1}):B$=RIGHT$(A$,1)', 'PRINT LEN("a"+"b");ASC("c"+"d");VAL("1"+"2")', 'CLEAR:A$="x":CLEAR', 'RESTORE:GOSUB 20', 'A$="a":B$=A$:A$=B$+A$', 'LINE=1' if 0 else 'LET A$="z"', 'A$="":B$="":PRINT A$+B$', 'STOP', 'END', 'A=5:A(1)=2:A(A(1))=A', 'ON {n1} GOTO 20', 'PRINT TAB(3)"x"+"y"', 'PRINT INKEY$' , 'PRINT TIME$', 'PRINT A$<B$;"a"+"b">"c"+"d"', 'A$=A$(3)+B$(2):B$(2)=A$', 'Q$(3,4)="t":Q$(3,4)=Q$(3,4)+"u"']
    for i, b in enumerate(body):
        both('b%02d' % i, ['10 ' + b, '20 PRINT "e"'], {'n1': I(0, 3)} if '{n1}' in b else {})
    errs = ERRS
    for i, e in enumerate(errs):
        h = {'n1': I(0, 99)} if '{n1}' in e else {}
        both('err%02d' % i, ['5 DEF FNA(X)=X:DEF FNB(X)=SQR(X):A$="0123456789012345678901234"', '10 ' + e, '20 PRINT "e"'], h)
    more = ['A$="a"+CHR$(-1)', 'A$="a"+("b"+CHR$(-1))', 'A$="a"+LEFT$("bcd",-1)', 'PRINT "x";"a"+MID$("bcd"+"e",0,1)', 'A$(99)="a"+"b"', 'A$(1)="a"+A$(99)', 'B("x"+"y")=1' if 0 else 'B(99)=LEN("x"+"y")', 'IF "a"+CHR$(-1)="b" THEN 20', 'X$="k":PRINT FNC$(LEN("a"+"b")-2)', 'PRINT "a"+FNC$(66)+FNC$(LEN("a"+"b")-2)', 'PRINT "x"+FNC$(LEN("y"+FNC$(0)))', 'READ A$,B(99)', 'DIM A$(3),B(-1)', 'A$="a":A$=A$+STR$(1)+RIGHT$("abc",-1)', 'FOR I=LEN("a"+"b") TO LOG(0)', 'PRINT VAL("1"+"x")', 'A=ASC("a"+"")+LOG(0)', 'A$="x"+STRING$(3,"a")' if 0 else 'A$="x"+STR$(LOG(0))']
    for i, e in enumerate(more):
        both('serr%02d' % i, ['5 DEF FNC$(X)="p"+CHR$(Z-1+X)', '7 DATA x,y', '10 ' + e, '20 PRINT "e"'], {})
    for i, e in enumerate(SYN):
        both('syn%02d' % i, ['10 PRINT "a"', '20 ' + e, '30 A$="x"'], {}, **({} if 1 else {}))
        g.add('isyn%02d' % i, 'A$="q"\nA$="x"+A$:%s\n%s\nPRINT A$\nBYE\n' % (e, e), {}, args=M)
    inp = [('INPUT A', '{b1}\n5\n'), ('INPUT A$', '{b1}\n'), ('INPUT A$,B$', '{b1}\nx,{b1}\n'), ('INPUT A,B$', '1,x\n'), ('INPUT "p";A$,A', 'x,{b1}\ny,2\n'), ('LINE INPUT A$', '{b1}\n'), ('INPUT A$(1),A$(99)', 'x,{b1}\n'), ('INPUT B(1),A$', '5,x,{b1}\n'), ('LINE INPUT A$(99)', 'x\n')]
    for i, (s, r) in enumerate(inp):
        both('in%d' % i, ['5 A$="old"', '10 ' + s, '20 PRINT A$'], {'b1': Bt()} if '{b1}' in r else {}, stdin=r)
    g.file('in-eof', ['10 A$="q":INPUT A$,B$', '20 PRINT A$'], {'b1': Bt()}, stdin='{b1}', opts=M)
    # commands
    for i, c in enumerate(['LIST', 'NEW', 'RENUM', 'RENUM 5', 'RENUM 99999', 'SAVE "t.bas"', 'LOAD "f.bas"', 'LOAD "none.bas"', 'LOAD "bad.bas"', 'SAVE "nodir/x"', 'COMPILE', 'CLEAR', 'HELP', '*x', 'LOAD x', '10', '20 PRINT "new"', '15 REM', 'CONT', 'RUN', 'GOTO 20', 'GOSUB 20', 'STOP', 'READ A$', 'RESTORE', 'DEF FNA(X)=X', 'FOR I=1 TO 2', 'NEXT', 'RETURN', 'FOO', '0', '99999999999 x', 'PRINT A$+"z"', 'DIM A$(4)', 'x' * 130, 'BYE x', 'LIST 10-20P', 'LOAD ""', 'LOAD "long.bas"']):
        for pre in ([], ['RUN'], ['GOTO 20']):
            g.add('cmd%02d' % i, '10 A$="x"+A$:DEF FNA$(X)=CHR$(65+X)+"y":PRINT FNA$(2)+A$:STOP\n20 DIM B$(3):B$(1)="q"\n30 DATA "s"\n' + '\n'.join(pre + [c, c, 'PRINT A$']) + '\nBYE\n', {}, args=M, files={'f.bas': '10 PRINT "f"\n20 DATA z\n', 'bad.bas': '10 PRINT "f"\nx\n', 'long.bas': '10 ' + 'x' * 300 + '\n'})
    g.add('eof', '10 A$="x":PRINT A$\nRUN\nB$="q"+A$\n{b1}', {'b1': Bt()}, args=M)
    g.add('eof-empty', '', {}, args=M)
    g.add('imm-byte', 'A$="x"\n{b1}A$="z"\nA$={b1}A$\nPRINT A${b1}"x"\nBYE\n', {'b1': Bt(32, 126)}, args=M)
    g.add('imm-byte2', 'A$="x"+{b1}"y"\nIF {b1}A$="x" THEN B$="y"\nDIM A${b1}3)\nBYE\n', {'b1': Bt(32, 126)}, args=M)
    g.file('byte', ['10 A$="x"+{b1}{b2}"y"', '20 PRINT A$'], {'b1': Bt(32, 126), 'b2': pick('A$"+( 1,')}, opts=M)
    for o in (['-l'], ['-n'], ['-p'], ['-r'], ['-t'], ['-f'], ['-k'], ['-n', '-k']):
        g.file('opt', ['10 A$="x":FOR I=1 TO 2', '20 PRINT A$;FNA(1){b1}', '30 NEXT'], {'b1': pick('1 :+')}, opts=['-m'] + o)
    # no accumulation, and no use after release, under repetition
    for r in ('A$="x"+A$', 'PRINT "a"+"b"', 'DIM A$(3):A$(1)="x"', 'A$=LEFT$("abc",-1)', 'A$="a"+CHR$(-1)', 'FOO', 'A$=', 'B(99)=LEN("a"+"b")', 'DEF FNA$(X)=CHR$(65+X)+"q":PRINT FNA$(1)', 'PRINT FNZ("a"+"b")', 'READ A$', 'CLEAR', 'NEW', 'RUN', 'GOTO 20', 'GOSUB 20', '10 A$="y"', '10', 'RENUM', 'FOR I=1 TO 2', 'IF A$+"b"="c" THEN PRINT 1 ELSE PRINT 2', 'LIST', 'STOP'):
        g.add('rep', '10 A$="p"+A$:PRINT A$\n20 GOSUB 30\n30 B$=B$+"q"\n' + (r + '\n') * (40 if deep else 12) + 'BYE\n', {}, args=M)
    g.add('leak', '10 A$="x"\nRUN\nA$=A$+"y"\nA$="a"+CHR$(-1)\nFOO "x\nBYE\n', {'b1': Bt()}, mode=1, leak=1)
