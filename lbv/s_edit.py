"""C13-C15: stored program, SAVE/LOAD, RENUM."""
from .gen import *

def c13(g):
    deep = g.deep
    d = pick('0123456789'); any_ = Bt(32, 126)
    # where a line goes: every number against a stored program
    base = ['10 PRINT 10', '20 PRINT 20', '30 PRINT 30']
    g.imm('insert', base + ['{b1}{b2} PRINT "new"', 'LIST', 'RUN'], {'b1': d, 'b2': d})
    g.imm('delete', base + ['{b1}{b2}', 'LIST', 'RUN'], {'b1': d, 'b2': d})
    g.imm('replace', base + ['{b1}0 PRINT "new{b2}"', 'LIST', 'RUN', '{b1}0 PRINT 7', 'LIST', 'RUN'], {'b1': pick('1234'), 'b2': Bt(32, 126, '"')})
    g.imm('insert2', base + ['{b1}5 PRINT "p"', '{b2}5 PRINT "q"', 'LIST', 'RUN'], {'b1': pick('01234'), 'b2': pick('01234')})
    g.imm('insert-delete', base + ['{b1}5 PRINT "p"', '{b2}0', '{b1}0', 'LIST', 'RUN', '{b2}5', 'LIST', 'RUN'], {'b1': pick('01234'), 'b2': pick('01234')})
    g.imm('empty', ['LIST', '{b1}0', 'LIST', 'RUN', '{b1}0 PRINT 1', 'LIST', 'RUN', '{b2}0', 'LIST', 'RUN', '{b1}0 PRINT 2', 'LIST'], {'b1': pick('12'), 'b2': pick('12')})
    g.imm('order3', ['{b1} PRINT 1', '{b2} PRINT 2', '{b3} PRINT 3', 'LIST', 'RUN', '{b2}', 'LIST', 'RUN'], {k: pick('123') for k in ('b1', 'b2', 'b3')})
    g.imm('order4', ['%s PRINT %s' % (x, k) for k, x in enumerate(('5', '{b1}', '3', '{b2}', '9', '{b3}'))] + ['LIST', 'RUN'], {k: pick('13579' if deep else '1359') for k in ('b1', 'b2', 'b3')})
    g.imm('many', ['%d A=%d' % (k, k) for k in range(1, 40)] + ['{b1}{b2} A=99', '{b2}{b1}', 'LIST 5-{b1}{b2}', 'RUN', 'PRINT A'], {'b1': pick('0123'), 'b2': pick('0129')})
    g.imm('many-del', ['%d PRINT %d;' % (k, k) for k in range(70, 40, -1)] + ['{b1}{b2}', '5{b2}', 'RUN', 'LIST'], {'b1': pick('4567'), 'b2': pick('0159')})
    g.imm('dense', ['%d PRINT %d;' % (k, k) for k in (8, 2, 6, 4)] + ['{b1} PRINT "n"', '{b2}', 'LIST', 'RUN'], {'b1': pick('123456789'), 'b2': pick('123456789')})
    # the text is kept as typed
    for pre in ('10{b1}PRINT 1', '10 {b1} PRINT 1', '10  REM{b1}', '10 REM {b1}{b2}', ' 10 PRINT "{b1}"', '\t10\t{b1}', '10 {b1}', '010 REM{b1}x', '1{b1}0 PRINT 1', '10 PRINT 1{b1}', '10 PRINT 1 {b1}', '{b1}10 REM x', '10{b1}', '1{b1}'):
        g.imm('text', ['5 REM first', pre, '20 REM last', 'LIST', '10', 'LIST'], {'b1': any_, 'b2': any_} if '{b2}' in pre else {'b1': any_})
    g.imm('text-ctl', ['10 REM a{b1}b', 'LIST', 'RUN', '10 PRINT "{b1}"', 'LIST', 'RUN'], {'b1': ('b', 1, 31, '\n\r')})
    g.imm('blanks', ['10 ', '20   ', '30\tX', '40 \t{b1}', 'LIST', 'RUN', '10', 'LIST'], {'b1': pick(' \t1') if 0 else pick(' 1X')})
    g.imm('long', ['10 REM ' + 'x' * 119 + '{b1}', '20 REM ' + 'y' * 118 + '{b1}', '30 REM ' + 'z' * 121, '40 PRINT "{b1}"', 'LIST', 'RUN'], {'b1': pick('abc ')})
    for L in (125, 126, 127, 128, 129, 254, 260):
        g.imm('long-line', ['10 PRINT "A"', '20 REM' + 'x' * (L - 7) + '{b1}', 'PRINT "K"', 'LIST', 'RUN'], {'b1': pick('ab')})
    # line numbers: invalid, huge, leading zeros
    g.imm('zero', base + ['0 PRINT 0', '00 PRINT 0', '0', '000{b1} PRINT 5', 'LIST', 'RUN'], {'b1': d})
    for w in ('65535', '65536', '99999', '4294967290', '429496729{b1}', '42949672{b1}5', '{b1}000000000', '1{b1}000000000', '99999999999{b1}', '18446744073709551626', '4294967306', '184467440737095516{b1}6'):
        g.imm('big', base + [w + ' PRINT "big"', 'LIST', 'RUN', w, 'LIST', w + ' ', 'LIST'], {'b1': d} if '{b1}' in w else {})
    g.imm('neg', base + ['-{b1}0 PRINT 1', '.5 PRINT', '1{b2}5 PRINT "z"', 'LIST', 'RUN'], {'b1': d, 'b2': pick('.eE+-,:;')})
    # LIST ranges
    pr = ['%d REM %d' % (k, k) for k in (5, 10, 15, 20, 30)]
    g.imm('list', pr + ['LIST {b1}{b2}', 'LIST -{b1}{b2}', 'LIST {b1}{b2}-', 'list', 'LIST -'], {'b1': pick('0123'), 'b2': pick('0156')})
    g.imm('list-range', pr + ['LIST {b1}{b2}-{b3}{b4}'], {'b1': pick('0123'), 'b2': pick('05'), 'b3': pick('0123'), 'b4': pick('059')})
    g.imm('list-syntax', pr + ['LIST{b1}10', 'LIST 10{b1}', 'LIST 10{b1}20', 'LIST {b1}', 'LIST 10-20{b1}', 'LIST10', 'PRINT "K"'], {'b1': Bt(32, 126, 'pP')})
    g.imm('list-big', pr + ['LIST 4294967295', 'LIST -4294967295', 'LIST 10-42949672{b1}5', 'LIST 0-0', 'LIST 5-5', 'LIST 30-30'], {'b1': d})
    g.imm('list-page', ['%d REM' % k for k in range(1, 27)] + ['LIST {b1}P', '', 'LIST -2{b2}p', '', 'LIST 1{b2}-P', '', 'PRINT "K"'], {'b1': pick('1234'), 'b2': pick('123456')})
    g.imm('list-page2', ['%d REM' % k for k in range(1, 50)] + ['LISTP', '', '', 'LIST {b1}P', 'x', 'y', 'PRINT "K"', 'LIST 40'], {'b1': pick('1234')})
    # running reflects the edits, and everything that depends on the text
    g.imm('edit-run', ['10 PRINT "A"', '20 GOTO {b1}0', '30 PRINT "C":END', '40 PRINT "D":END', 'RUN', '30 PRINT "E":END', 'RUN', '30', 'RUN', '40', 'RUN', 'LIST'], {'b1': pick('345')})
    g.imm('edit-imm', ['10 PRINT "A":END', '20 PRINT "B"', 'GOTO {b1}0', '{b1}0 PRINT "C"', 'GOTO {b1}0', '{b1}0', 'GOTO {b1}0', 'LIST', 'RUN'], {'b1': pick('123')})
    g.imm('edit-vars', ['10 A=A+1:PRINT A', 'A=5', 'GOTO 10', '20 PRINT "x{b1}"', 'PRINT A', 'GOTO 10', '15', 'PRINT A', '10', 'PRINT A', 'GOTO 20'], {'b1': pick('ab')})
    g.imm('edit-bad', ['10 PRINT "A"', '20 PRINT (', '30 PRINT "C"', 'RUN', 'PRINT "imm"', '{b1}0', 'RUN', '20 PRINT "B"', 'RUN', 'LIST'], {'b1': pick('123')})
    g.imm('bad-line-kept', ['10 FOO BAR{b1}', '20 PRINT "B"', 'LIST', 'RUN', '10', 'RUN'], {'b1': any_})
    g.imm('refused', ['10 PRINT "A"', '{b1} PRINT "z"', '42949672{b2}5 PRINT "y"', '4294967296 PRINT "x"', 'LIST', 'RUN', 'PRINT "K"'], {'b1': pick('01'), 'b2': pick('89')})
    g.imm('refused-cont', ['10 PRINT "A":STOP:PRINT "B"', 'RUN', '{b1} PRINT "z"', 'CONT', 'LIST'], {'b1': pick('01')})
    g.imm('refused-cont2', ['10 PRINT "A":STOP:PRINT "B"', 'RUN', '5{b1}', 'CONT', '10', 'CONT', 'LIST'], {'b1': pick('0 1')})
    g.imm('same-cont', ['10 PRINT "A":STOP:PRINT "B"', '20 PRINT "C"', 'RUN', '{b1}0 PRINT "D"', 'CONT', 'RUN', 'CONT'], {'b1': pick('123')})
    g.imm('new', ['10 PRINT "A"', '20 PRINT {b1}', 'NEW', 'LIST', 'RUN', '{b1}5 PRINT "B"', 'LIST', 'RUN', '20', 'LIST'], {'b1': pick('12')})
    g.imm('new-syntax', ['10 PRINT "A"', 'NEW{b1}', 'LIST', 'NEW {b1}', 'LIST', 'PRINT "K"'], {'b1': any_})
    g.imm('compile', ['10 PRINT "A"', '20 PRINT {b1}', '{b1}0', 'COMPILE', 'LIST', 'RUN', 'compile'], {'b1': pick('12)')} if 0 else {'b1': pick('123')})
    g.imm('compile-bad', ['10 PRINT "A"', '20 PRINT 1{b1}', 'COMPILE', 'LIST', 'RUN'], {'b1': any_})
    g.imm('help', ['10 PRINT "A"', 'HELP', 'help{b1}', 'LIST', 'RUN'], {'b1': pick(' x1')})
    g.imm('commands', ['10 PRINT "A"', '{b1}IST', 'L{b2}ST', 'RU{b1}', 'PRINT "K"', 'LIST'], {'b1': Bt(65, 122, '[\\]^_`'), 'b2': pick('iIaA')})
    g.add('no-newline', '10 PRINT 1\n20 PRINT {b1}', {'b1': pick('23"')})
    g.add('no-newline2', '10 PRINT 1\nLIST {b1}', {'b1': pick('123-P')})
    g.add('no-newline3', '10 PRINT 1\nRUN\nPRINT "x{b1}', {'b1': any_})
    g.add('star', '10 PRINT 1\n*echo {b1}\n* \n*\n *x\nLIST\nBYE\n', {'b1': any_})
    g.add('bye', '10 PRINT 1\nBYE{b1}\nLIST\nbye \nLIST\n', {'b1': any_})
    if deep:
        g.imm('insert3', ['%d PRINT %d' % (k, k) for k in (100, 110, 200, 255, 256, 300)] + ['{b1}{b2}{b3} PRINT "new"', 'LIST', 'RUN'], {'b1': pick('0123'), 'b2': d, 'b3': d})
        g.imm('order5', ['{b1} PRINT 1', '{b2} PRINT 2', '{b3} PRINT 3', '{b4} PRINT 4', '{b5}', 'LIST', 'RUN'], {'b%d' % k: pick('12345') for k in (1, 2, 3, 4, 5)})
        g.imm('text3', ['10{b1}{b2}{b3}', 'LIST'], {'b1': any_, 'b2': any_, 'b3': any_})

def c14(g):
    deep = g.deep
    any_ = Bt(32, 126)
    sv = ['SAVE "t.bas"', 'NEW', 'LIST', 'LOAD "t.bas"', 'LIST', 'RUN']
    for pre in ('10 REM{b1}{b2}', '10 REM {b1}', '10 PRINT "{b1}"', '10{b1}REM x', '10  {b1}REM', '10 REM x {b1}', '10 {b1}', '10 DATA {b1},{b2}', '10 :{b1}', '010 REM{b1}', '10 \'{b1}' if 0 else '10 REM\'{b1}'):
        g.imm('text', [pre, '20 PRINT "last"'] + sv, {'b1': any_, 'b2': any_} if '{b2}' in pre else {'b1': any_})
    g.imm('ctl', ['10 REM a{b1}b', '20 PRINT "c{b1}"', '30 REM{b1}'] + sv, {'b1': ('b', 1, 31, '\n')})
    g.imm('high', ['10 REM a{b1}b', '30 REM{b1}'] + sv, {'b1': ('b', 127, 255)})
    g.imm('lines', ['{b1}0 PRINT 1', '{b2}0 PRINT 2', '{b3}5 PRINT 3', '{b2}5'] + sv, {k: pick('1234') for k in ('b1', 'b2', 'b3')})
    g.imm('one', ['{b1} PRINT {b1}'] + sv, {'b1': pick('0123456789')})
    g.imm('none', ['SAVE "t.bas"', 'LOAD "t.bas"', '10 PRINT 1', '{b1}0'] + sv, {'b1': pick('12')})
    g.imm('big', ['429496729{b1} PRINT 1', '65535 PRINT 2', '1{b1}0000 PRINT 3'] + sv, {'b1': pick('0123456789')})
    g.imm('long', ['10 REM ' + 'x' * 118 + '{b1}', '20 REM' + 'y' * 119 + '{b1}'] + sv, {'b1': pick('ab ')})
    g.imm('over', ['10 PRINT "A"', 'SAVE "t.bas"', '10 PRINT "B"', '20 PRINT "C"', 'SAVE "u.bas"', 'NEW', 'LOAD "{b1}.bas"', 'LIST', 'RUN', 'LOAD "{b2}.bas"', 'LIST', 'RUN'], {'b1': pick('tuv'), 'b2': pick('tuv')})
    g.imm('overwrite', ['10 PRINT "A"', '20 PRINT "longer"', 'SAVE "t.bas"', '{b1}0', 'SAVE "t.bas"', 'NEW', 'LOAD "t.bas"', 'LIST', 'RUN'], {'b1': pick('12')})
    g.imm('edit-after', ['10 PRINT "A"', '30 PRINT "C"', 'SAVE "t.bas"', 'NEW', 'LOAD "t.bas"', '{b1}0 PRINT "B"', 'LIST', 'RUN', 'SAVE "t.bas"', '{b1}0', 'LIST', 'LOAD "t.bas"', 'LIST'], {'b1': pick('1234')})
    g.imm('keep-vars', ['10 A=A+1:PRINT A', 'SAVE "t.bas"', 'A={n1}', 'LOAD "t.bas"', 'PRINT A', 'GOTO 10', 'RUN'], {'n1': I(0, 9)})
    g.imm('no-cont', ['10 PRINT "A":STOP:PRINT "B"', 'SAVE "t.bas"', 'RUN', 'LOAD "{b1}.bas"', 'CONT', 'LIST'], {'b1': pick('tu')})
    g.imm('save-cont', ['10 PRINT "A":STOP:PRINT "B"', 'RUN', 'SAVE "t{b1}.bas"', 'CONT', 'LIST'], {'b1': pick('tu')})
    g.imm('renum', ['7 PRINT "A":GOTO 9', '9 PRINT "B"', 'RENUM {b1}0', 'SAVE "t.bas"', 'NEW', 'LOAD "t.bas"', 'LIST', 'RUN'], {'b1': pick('123')})
    g.imm('data', ['10 READ A,A$:PRINT A;A$', '20 DATA {n1},"q,r"', '30 DEF FNA(X)=X+1:PRINT FNA(2)'] + sv + ['PRINT A;A$'], {'n1': I(0, 99)})
    # failing commands leave the program alone
    g.imm('cmd', ['10 PRINT "A"', 'LOAD{b1}', 'SAVE{b1}', 'LOAD {b1}t.bas"', 'LOAD "t.bas{b1}', 'SAVE "t.bas"{b1}', 'LIST', 'PRINT "K"', 'RUN'], {'b1': Bt(32, 126, '!#/.\\')})
    g.imm('missing', ['10 PRINT "A"', 'A=5', 'LOAD "none{b1}.bas"', 'LIST', 'RUN', 'PRINT A', 'SAVE "nodir/{b1}.bas"', 'LIST', 'LOAD ""', 'SAVE ""', 'LIST', 'RUN'], {'b1': pick('ab')})
    g.imm('missing-first', ['LOAD "none.bas"', 'LIST', 'RUN', 'SAVE "t.bas"', 'LOAD "t.bas"', '10 PRINT "A{b1}"', 'LIST', 'RUN'], {'b1': pick('ab')})
    # file contents
    def fl(id, data, holes, after=('LIST', 'RUN', 'PRINT "K"'), **kw):
        g.add(id, '5 PRINT "old"\nA=7\nLOAD "f.bas"\n' + ''.join(x + '\n' for x in after) + 'BYE\n', holes, files={'f.bas': data}, **kw)
    d = pick('0123456789')
    fl('f-order', '{b1}0 PRINT 1\n{b2}0 PRINT 2\n30 PRINT 3\n', {'b1': d, 'b2': d})
    fl('f-num', '{b1}{b2} PRINT 1\n', {'b1': any_, 'b2': any_})
    fl('f-mid', '10 PRINT 1\n{b1}0 PRINT 2\n30 PRINT 3\n', {'b1': any_})
    fl('f-last', '10 PRINT 1\n20 PRINT "{b1}', {'b1': any_})
    fl('f-last-nl', '10 PRINT 1\n20 PRINT 2{b1}', {'b1': ('b', 1, 126)})
    fl('f-crlf', '10 PRINT 1\r\n20 PRINT "x"{b1}\n30 REM y{b1}\r\n', {'b1': ('b', 1, 126, '\n')})
    fl('f-empty-line', '10 PRINT 1\n{b1}\n30 PRINT 3\n', {'b1': ('b', 1, 126)})
    fl('f-blank', '10 PRINT 1\n\n30 PRINT 3\n', {})
    fl('f-empty', '', {})
    fl('f-lead', ' 10 PRINT 1\n{b1}20 PRINT 2\n', {'b1': any_})
    fl('f-lead2', '10 PRINT 1\n{b1}20 PRINT 2\n', {'b1': ('b', 1, 126)})
    fl('f-text', '10{b1}PRINT 1\n20 {b1}PRINT 2\n', {'b1': any_})
    fl('f-only-num', '10{b1}\n20\n30 \n', {'b1': any_})
    fl('f-zero', '{b1} PRINT 1\n0{b1} PRINT 2\n', {'b1': d})
    fl('f-zero2', '00{b1} PRINT 1\n', {'b1': d})
    for w in ('429496729{b1}', '42949672{b1}6', '{b1}999999999', '1{b1}999999999', '18446744073709551{b1}26', '6553{b1}', '99999{b1}'):
        fl('f-big', '10 PRINT 1\n%s PRINT 2\n' % w, {'b1': d})
    fl('f-dup', '10 PRINT 1\n{b1}0 PRINT 2\n', {'b1': d})
    fl('f-syntax', '10 PRINT 1\n20 PRINT )\n30 {b1}\n', {'b1': any_})
    fl('f-nul', '10 PRINT 1\n20 REM a{b1}b\n30 PRINT 3\n', {'b1': ('b', 1, 255)})
    fl('f-many', ''.join('%d PRINT %d;\n' % (k, k) for k in range(1, 41)) + '{b1}0 PRINT\n', {'b1': pick('3456')})
    for L in (253, 254, 255, 256, 257, 509, 510, 511, 512, 513, 1023, 1024):
        fl('f-long', '10 PRINT 1\n20 REM' + 'x' * (L - 7) + '{b1}\n30 PRINT 3\n', {'b1': pick('ab\n' if 0 else 'ab')})
        fl('f-long-last', '10 PRINT 1\n20 REM' + 'x' * (L - 7) + '{b1}', {'b1': pick('ab')})
        fl('f-long-cr', '10 PRINT 1\n20 REM' + 'x' * (L - 8) + '{b1}\r\n30 PRINT 3\n', {'b1': pick('ab')})
    for L in (250, 255, 256, 300, 511, 512, 700, 1030):   # long and short lines in turn
        fl('f-long-mix', '10 REM' + 'x' * (L - 7) + '{b1}\n20 PRINT "{b1}"\n30 REM' + 'y' * 500 + '{b1}\n40 PRINT 3:REM' + 'z' * (L - 20) + '{b1}\n50 PRINT 5\n', {'b1': pick('ab')})
    # lines that RENUM makes longer than any that can be typed
    for k, (r, w) in enumerate((('1', 40), ('1', 54), ('2', 53), ('1', 43), ('1', 20))):
        t = ['1 PRINT "a{b1}"', '2 A=A+1:IF A>2 THEN END', '3 ON A GOTO ' + ','.join([r] * w), '4 PRINT "no"']
        g.imm('grown', t + ['RENUM %d' % (60000, 60000, 10000, 1000, 65001)[k], 'SAVE "f"', 'RUN', 'NEW', 'LOAD "f"', 'LIST', 'RUN', 'RENUM 1,1,1', 'SAVE "f"', 'LOAD "f"', 'LIST', 'RUN'], {'b1': pick('ab')}, maxsteps=3000000)
    fl('f-first-long', '1' * 254 + '{b1}\n', {'b1': pick('1 \n' if 0 else '1 ')})
    # the same file in batch mode and interactively
    g.file('batch', ['10 PRINT "A"', '{b1}0 PRINT "B"', '40 PRINT "C"'], {'b1': pick('0123456')})
    g.file('batch-nl', ['10 PRINT "A"', '20 PRINT "B{b1}'], {'b1': any_}, last=False)
    g.file('batch-cr', ['10 PRINT "A"', '20 PRINT "B{b1}', '30 PRINT "C"'], {'b1': Bt()}, nl='\r\n')
    g.file('batch-list', ['10 PRINT "A"', '20 PRINT {b1}"B"', '3{b1} REM'], {'b1': any_}, opts=('-l',))
    g.add('batch-missing', '', {}, args=['none.bas'])
    g.file('batch-bad', ['10 PRINT "A"', '{b1}x', '30 PRINT "C"'], {'b1': any_})
    g.file('batch-load', ['10 PRINT "A"', '20 PRINT "B"'], {'b1': any_}, stdin='')
    if deep:
        fl('d-num3', '{b1}{b2}{b3}0 PRINT 1\n100 PRINT 2\n', {'b1': any_, 'b2': any_, 'b3': any_})
        g.imm('d-text3', ['10{b1}{b2}{b3}', '20 PRINT "last"'] + sv, {'b1': any_, 'b2': any_, 'b3': any_})
        fl('d-two', '{b1}{b2} PRINT 1\n{b3}{b4} PRINT 2\n', {'b1': d, 'b2': pick('0123 P'), 'b3': d, 'b4': pick('0123 P')})

def c15(g):
    deep = g.deep
    any_ = Bt(32, 126); d = pick('0123456789')
    ref = ['GOTO {r}', 'GOSUB {r}', 'IF A THEN {r}', 'IF A THEN 1 ELSE {r}', 'IF A THEN {r} ELSE 1', 'IF A THEN GOTO {r}', 'IF A THEN PRINT 1:GOTO {r} ELSE PRINT 2', 'RESTORE {r}', 'RESTORE', 'RESTORE:PRINT {r}', 'ON A GOTO {r}', 'ON A GOTO 7,{r},9', 'ON A GOSUB {r},{r},7', 'ON {r} GOTO 7', 'PRINT {r}', 'PRINT "GOTO {r}"', 'REM GOTO {r}', 'DATA {r},GOTO {r}', 'A={r}', 'GOTO {r}:GOTO 9', 'IF A={r} THEN {r}', 'IF {r} THEN PRINT {r} ELSE {r}', 'PRINT A;:GOSUB {r}:PRINT {r}', 'INPUT A:GOTO {r}', 'FOR I={r} TO {r}:NEXT', 'A$="{r}":GOTO {r}', 'IF A THEN IF B THEN {r} ELSE PRINT 1', 'IF A THEN PRINT 1 ELSE IF B THEN {r}', 'ON A GOTO {r}:PRINT 7,9,{r}', 'ON A GOSUB 7 , {r} ,9', 'GOTO  {r}', 'GOTO{r}', 'goto {r}', 'If a Then {r} Else {r}', 'READ A:RESTORE {r}:READ B', 'IF A THEN RESTORE {r}', 'LINE INPUT A$:GOTO {r}', 'GOTO {r} REM x', 'PRINT A,{r},7', 'ON A GOTO {r}:B=7', 'DIM A({r}):A(7)={r}', 'PRINT TAB({r});7', 'LET B={r}:GOTO {r}', 'STOP:GOTO {r}', 'NEXT A,B:GOTO {r}', 'GOTO {r}:REM 7', 'IF A THEN {r}:PRINT {r}', '? {r}:GOTO {r}', 'IF A THEN DATA {r} ELSE {r}', 'DEF FNA(X)={r}:GOTO {r}', 'ON FNA(1,{r}) GOTO {r}', 'IF A GOTO {r}', 'PRINT "a":REM "GOTO {r}', 'PRINT GOTO {r}', 'THEN {r}', 'ELSE {r}', 'GOTO A,{r}', 'GOTO {r}.0', 'GOTO {r}E0', 'GOTO 1{r}', 'GOTO -{r}', 'GOTO ({r})', 'GOTO {r},{r}', 'RESTORE {r},{r}', 'IF A THEN {r},{r}', 'NEW {r}']
    for i, r in enumerate(ref):
        g.imm('ref-%02d' % i, ['5 REM', '7 ' + r.replace('{r}', '{b1}'), '9 PRINT "n"', 'RENUM', 'LIST', 'RENUM 5,{b1}0', 'LIST'], {'b1': d})
    for r in ('GOTO {b1}{b2}', 'ON A GOTO {b1}{b2},20,{b2}0', 'IF A THEN {b1}{b2} ELSE {b2}{b1}', 'GOTO 20{b1}', 'GOTO {b1} 20', 'RESTORE{b1}20', 'ON A GOTO 20{b1}20', 'IF A THEN 20{b1}', 'IF A THEN{b1}20', 'GOSUB 20{b1}{b2}', 'PRINT "{b1}":GOTO 20', '{b1} GOTO 20', 'A{b1}GOTO 20', 'GOT{b1} 20', 'REM{b1}GOTO 20', 'DATA GOTO 20{b1}GOTO 20', '"{b1} GOTO 20', 'X{b1}THEN 20', 'GOTO20{b1}20'):
        g.imm('byte', ['10 ' + r, '20 PRINT "t"', '30 PRINT "u"', 'RENUM 100', 'LIST'], {'b1': Bt(32, 126, ',') if 'GOTO {b1}' in r else any_, 'b2': pick('0123')} if '{b2}' in r else {'b1': Bt(32, 126, ',') if 'GOTO {b1}' in r else any_})
        g.imm('byte-k', ['10 ' + r, '20 PRINT "t"', 'RENUM 100', 'LIST'], {'b1': Bt(32, 126, ',') if 'GOTO {b1}' in r else any_, 'b2': pick('0123')} if '{b2}' in r else {'b1': Bt(32, 126, ',') if 'GOTO {b1}' in r else any_}, args=['-q', '-k'])
    # arguments
    pr = ['10 GOTO 30', '20 GOSUB 10', '30 IF A THEN 20 ELSE 40', '40 ON A GOTO 10,20,30,40', '50 RESTORE 20']
    for a in ('{b1}', '{b1}{b2}', '{b1}0,{b2}0', '{b1}0,{b2}5', ',{b1}0', ',,{b1}', '{b1}0,,{b2}', '{b1},{b2},{b1}', '{b1}5,{b2}0,{b2}', ',{b1}0,{b2}', '0', '0,{b1}0', '10,10,0', '{b1}0,20,0', '{b1}0,50,0'):
        g.imm('args', pr + ['RENUM ' + a, 'LIST', 'RENUMBER', 'LIST'], {k: d for k in ('b1', 'b2') if '{' + k in a})
    for a in ('6553{b1}', '65{b1}00', '65000,30,{b1}00', '65500,,1{b1}', '429496729{b1}', '10,10,429496729{b1}', '4294967296{b1}', '100,10,21474836{b1}8', '1,1,1{b1}', '{b1},1,16384', '10,429496729{b1}', '10,99{b1}'):
        g.imm('args-big', pr + ['RENUM ' + a, 'LIST', 'PRINT "K"'], {'b1': d})
    g.imm('args-syntax', pr + ['RENUM{b1}', 'LIST', 'RENUM 10{b1}', 'LIST', 'RENUM 10,1{b1}', 'RENUM 10,1,1{b1}', 'LIST'], {'b1': any_})
    g.imm('args-space', pr + ['RENUM {b1}0 , 20 , {b2}', 'LIST', 'renum  100', 'LIST'], {'b1': d, 'b2': d})
    g.imm('empty', ['RENUM {b1}', 'LIST', '10 PRINT 1', '10', 'RENUM {b1}', 'LIST', '10 PRINT 2', 'RENUM {b1}', 'LIST'], {'b1': d})
    # the program behaves as before; new numbers can be used at once
    run = ['3 A={n1}:GOSUB 40', '7 ON A GOTO 20,25,31', '8 PRINT "fall":GOTO 50', '20 PRINT "one":IF A=1 THEN 50 ELSE 20', '25 PRINT "two":RESTORE 60:READ B:PRINT B:GOTO 50', '31 PRINT "three":IF A>2 THEN PRINT "x":GOTO 50', '40 PRINT "sub":RETURN', '50 PRINT "end":END', '55 DATA 1,2', '60 DATA 3']
    g.imm('run', run + ['RUN', 'RENUM {b1}00', 'LIST', 'RUN', 'RENUM 5,{b1}00,3', 'RUN', 'RENUM', 'RUN'], {'n1': I(0, 4), 'b1': pick('1235' if deep else '13')})
    g.imm('run-part', run + ['RENUM {b1}00,{b2}0', 'LIST', 'RUN'], {'n1': I(0, 4), 'b1': pick('129'), 'b2': pick('012356')})
    g.imm('use', ['5 PRINT "A"', '6 PRINT "B"', '7 PRINT "C"', 'RENUM', 'GOTO {b1}0', 'LIST {b1}0', '{b1}0 PRINT "D"', '{b1}5 PRINT "E"', 'LIST', 'RUN', '{b1}0', 'RUN', '{b2}', 'LIST'], {'b1': pick('1234'), 'b2': pick('567')})
    g.imm('twice', ['1 GOTO 3', '2 GOTO 1', '3 GOTO 2', 'RENUM {b1}', 'LIST', 'RENUM {b2},{b1}', 'LIST', 'RENUM', 'LIST'], {'b1': d, 'b2': d})
    g.imm('swap', ['10 GOTO 20', '20 GOTO 30', '30 GOTO 10', 'RENUM {b1}0,{b2}0,{b3}0', 'LIST'], {'b1': pick('0123'), 'b2': pick('123'), 'b3': pick('012')})
    g.imm('onto', ['10 GOTO 20', '20 GOTO 15', '15 PRINT', '12 GOTO 12', 'RENUM 1{b1},1{b2},{b3}', 'LIST'], {'b1': d, 'b2': pick('0256'), 'b3': pick('0159')})
    g.imm('missing-ref', ['10 GOTO 15:GOSUB 99', '20 ON A GOTO 10,15,20', '30 IF A THEN 1{b1} ELSE {b1}0', 'RENUM 100', 'LIST', 'RENUM 15', 'LIST'], {'b1': d})
    g.imm('cont', ['10 PRINT "A":STOP:PRINT "B"', '20 PRINT "C"', 'RUN', 'RENUM {b1}', 'CONT', 'RUN', 'CONT'], {'b1': pick('0127')})
    g.imm('cont-fail', ['10 PRINT "A":STOP:PRINT "B"', '20 PRINT "C"', 'RUN', 'RENUM {b1},20', 'CONT'], {'b1': pick('19')})
    g.imm('fail-run', run[:4] + ['50 PRINT "e":END', '40 RETURN', '25 PRINT "t":END', '31 PRINT "h":END', 'RENUM {b1}0,{b2}0,5', 'LIST', 'RUN', 'PRINT A'], {'n1': I(1, 2), 'b1': pick('0139'), 'b2': pick('0235')})
    g.imm('vars', ['10 A=A+1:PRINT A', 'A=5', 'GOTO 10', 'RENUM {b1}0', 'PRINT A', 'GOTO {b1}0'], {'b1': pick('12')})
    g.imm('def', ['10 DEF FNA(X)=X+{b1}0', '20 PRINT FNA(1)', 'RUN', 'RENUM 100', 'LIST', 'PRINT FNA(1)', 'RUN'], {'b1': pick('12')})
    g.imm('wide', ['1 REM ' + 'x' * 50, '2 ' + ':'.join('GOTO 1' for _ in range(14)), '3 PRINT "q"', 'RENUM 1{b1}000', 'LIST', 'RENUM 1,,1', 'LIST'], {'b1': d})
    g.imm('long-text', ['1 PRINT "' + 'x' * 90 + '":GOTO 1:GOTO {b1}', 'RENUM 10000', 'LIST', 'RENUM 1', 'LIST', 'SAVE "t.bas"', 'LOAD "t.bas"', 'LIST'], {'b1': d})
    g.imm('nums', ['10 GOTO 1{b1}', '11 GOTO 010', '12 PRINT 10.0,1E1:GOTO 10.5', '13 GOTO 1{b2}', 'RENUM 50', 'LIST'], {'b1': pick('0123. eE'), 'b2': any_})
    g.imm('many', ['%d GOTO %d' % (k, 61 - k) for k in range(20, 42)] + ['RENUM {b1}{b2},2{b3}', 'LIST'], {'b1': pick('12'), 'b2': pick('09'), 'b3': pick('059')})
    g.imm('bad', ['10 PRINT "a', '20 GOTO 10:)(', '30 &{b1}', '40 GOTO 20', 'RENUM 5', 'LIST'], {'b1': any_})
    g.imm('strings', ['10 PRINT "GOTO 20', '20 PRINT "THEN 20":GOTO 20', '30 A$="{b1}":GOSUB 20:B$="{b1}', 'RENUM 5', 'LIST'], {'b1': any_})
    if deep:
        for r in ('{b1}{b2}{b3}20', 'GOTO {b1}{b2}{b3}', 'ON A GOTO 20{b1}{b2}{b3}', 'IF A THEN {b1}{b2}{b3}'):
            g.imm('byte3', ['10 ' + r, '20 PRINT "t"', 'RENUM 100', 'LIST'], {'b1': Bt(32, 126, ','), 'b2': pick('012 :"GgEe.'), 'b3': pick('012 :"Ee.')})
        g.imm('args3', pr + ['RENUM {b1}{b2},{b3}{b4},{b5}', 'LIST'], {'b1': d, 'b2': pick('05'), 'b3': d, 'b4': pick('05'), 'b5': d})
