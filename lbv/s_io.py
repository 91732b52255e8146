"""C09-C12: PRINT layout, INPUT, READ/DATA, user functions."""
from .gen import *

def c09(g):
    deep = g.deep
    n = I(-100000, 100000)
    items = ['{n1}', '"{b1}"', '{n1};', '{n1},', '"ab",', '"abcdefg",', '"abcdefgh",', '"abcdefghi",', 'A$,A$', '{n1},{n1}', '"a";"b"', '"a" "b"' , '{n1};{n1};', '"x"{n1}"y"', '{n1}"y"{n1}', ',', ',,', ',"a"', ';', ';;"a"', '"a",,"b"', '"a";,"b"', '"a",;"b"', 'TAB(5)"a"', 'TAB(5);"a"', 'TAB(5),"a"', '"abc"TAB(3)"d"', '"abc"TAB(2)"d"', 'TAB(0)"d"', '"a"TAB(0)"d"', 'SPC(0)"a"', 'SPC(3)"a"', '"a"SPC(3)"b"', '"a"SPC(7),"b"', '"a"TAB(8),"b"', '"a"TAB(7),"b"', '-{n1}', '{n1}*2;', 'CHR$(9)"a","b"', 'CHR$(10)"a","b"', 'CHR$(13)"a","b"', 'CHR$(7)"a","b"', 'CHR$(8)"a","b"', 'CHR$(0)"a","b"', '"";""', '"",""', 'SIN(0);-0;"z"', 'TAB(ABS({n1})/50000)"q"', '"abcdefghij",{n1},', '"a"TAB(4)"b"TAB(2)"c"', 'A$;A$,A$', '1,2,3,4,5,6,7,8,9,10,11,12', '1/3,-1/3', '1E10;1E-10;123456;1234567', '"a"SPC(2)TAB(9)"b"']
    for i, it in enumerate(items):
        g.prog('item-%02d' % i, ['5 A$="hello"', '10 PRINT %s' % it, '20 PRINT "|"', '30 PRINT "xyz";:PRINT %s' % it, '40 PRINT "|",1'], {'n1': n, 'b1': Bt(32, 126, '"')} if '{b' in it else {'n1': n})
    # every start column against a comma, TAB and SPC with any argument
    g.prog('comma-cols', num(['FOR I=1 TO {n1}:PRINT "x";:NEXT', 'PRINT ,"|";', 'PRINT ,"|"']), {'n1': I(0, 20 if deep else 17)})
    g.prog('comma-num', num(['FOR I=1 TO {n1}:PRINT "x";:NEXT', 'PRINT {n2},"|";{n2},']), {'n1': I(0, 9), 'n2': I(-120, 1200)})
    g.prog('tab-cols', num(['FOR I=1 TO {n1}:PRINT "x";:NEXT', 'PRINT TAB({n2})"|";TAB({n2}+2)"|"']), {'n1': I(0, 6), 'n2': I(0, 8)})
    g.prog('tab-range', num(['PRINT "a";TAB({n1});"|"']), {'n1': ('i', -70000, 20)}, after=['PRINT "K"'])
    g.prog('tab-big', num(['PRINT "a";TAB({n1});"|"', 'PRINT "b"']), {'n1': I(247, 259)}, after=['PRINT "K"'])
    g.prog('tab-half', num(['PRINT "a";TAB({n1});"|"']), {'n1': H(-2, 9)}, after=['PRINT "K"'])
    g.prog('tab-real', num(['PRINT "a";TAB({n1});"|"']), {'n1': ('d', 4294967296, 1e300)}, after=['PRINT "K"'])
    g.prog('tab-neg', num(['PRINT "a";TAB({n1});"|"']), {'n1': ('s', 0, 3)}, after=['PRINT "K"'])
    g.prog('spc-range', num(['PRINT "a";SPC({n1});"|",1']), {'n1': I(-70000, 20)}, after=['PRINT "K"'])
    g.prog('spc-big', num(['PRINT "a";SPC({n1});"|"', 'PRINT "b"']), {'n1': I(250, 260)}, after=['PRINT "K"'])
    g.prog('spc-half', num(['PRINT "a";SPC({n1});"|",1']), {'n1': H(-2, 9)}, after=['PRINT "K"'])
    g.prog('spc-real', num(['PRINT "a";SPC({n1});"|"']), {'n1': ('d', 4294967296, 1e300)}, after=['PRINT "K"'])
    g.prog('spc-tab', num(['PRINT SPC({n1})TAB({n2})"|",1;TAB(20)"e"']), {'n1': I(0, 12), 'n2': I(0, 12)})
    # the column survives across statements, lines, FOR, GOSUB, IF
    g.prog('carry', num(['PRINT "ab";', 'PRINT {n1};', 'PRINT ,"c";', 'PRINT TAB({n2})"d",', 'PRINT "e"']), {'n1': I(-20, 2000), 'n2': I(4, 20)})
    g.prog('carry-loop', num(['FOR I=1 TO 4', 'PRINT I*{n1},', 'NEXT', 'PRINT "e"']), {'n1': I(1, 400)})
    g.prog('carry-sub', num(['PRINT "abc";:GOSUB 40:PRINT TAB({n1})"x"', 'PRINT ,2', 'END', 'PRINT "d",:RETURN']), {'n1': I(3, 20)})
    g.prog('carry-if', num(['PRINT "abc";', 'IF {n1}>5 THEN PRINT ,1; ELSE PRINT TAB({n1})2;', 'PRINT ,3']), {'n1': I(0, 8)})
    g.prog('carry-let', num(['PRINT "abc";:A$="xyz"+STR$({n1}):B={n1}:PRINT ,A$;B,B']), {'n1': I(-9, 99)})
    g.prog('carry-input', num(['PRINT "abcde";:INPUT A', 'PRINT ,A;TAB({n1})"z"']), {'n1': I(0, 12)}, reply='5\n')
    g.prog('carry-input2', num(['PRINT "abcde";:INPUT "p{b1}",A', 'PRINT ,A;TAB(9)"z"']), {'b1': pick('xyz')}, reply='q\n5\n')
    g.prog('carry-line', num(['PRINT "abcde";:LINE INPUT A$', 'PRINT ,A$;TAB({n1})"z"']), {'n1': I(0, 12)}, reply='hello, "you"\n')
    g.prog('carry-cls', num(['PRINT "abcde";:CLS:PRINT TAB({n1})"z",1']), {'n1': I(0, 9)})
    g.prog('carry-error', num(['PRINT "abcde";:A=1/0:PRINT A;:B$=CHR$(-{n1})', 'PRINT "x"']), {'n1': I(1, 9)}, after=['PRINT ,"k"', 'PRINT TAB(3)"z"'])
    g.prog('carry-end', num(['PRINT "abc";', 'IF {n1} THEN STOP', 'END']), {'n1': I(0, 1)}, after=['PRINT ,"k"', 'PRINT TAB(2)"z"'])
    g.prog('carry-run', num(['PRINT TAB(4)"abc";']), {}, after=['RUN', 'PRINT ,"k"', 'RUN'])
    g.imm('imm', ['PRINT "abc";', 'PRINT ,{n1};', 'PRINT TAB({n2});"x"', 'PRINT', 'PRINT;', '?,', '?"z",{n1}'], {'n1': I(-9, 999), 'n2': I(0, 20)})
    g.prog('long-string', num(['A$="0123456789":A$=A$+A$+A$:A$=A$+A$+A$', 'PRINT A$,"|"', 'PRINT A$A$A$"{b1}",{n1}', 'PRINT A$TAB({n1}+90)"x"']), {'n1': I(0, 9), 'b1': pick('abc')})
    g.prog('wide-col', num(['FOR I=1 TO 30:PRINT "0123456789";:NEXT:PRINT ,"|",{n1};TAB(255)"q"', 'PRINT TAB({n1}+250)"z"']), {'n1': I(0, 5)})
    g.prog('all-chars', num(['PRINT CHR$({n1});"a","b"', 'PRINT "c"']), {'n1': I(0, 255)})
    g.prog('str-items', num(['PRINT STR$({n1});"|";STR$(-{n1}),LEFT$("abc",2);MID$("abcdef",2,3),VAL("12");LEN("abc")']), {'n1': I(0, 99999)})
    g.prog('num-forms', num(['PRINT {n1};{n1}/4,-{n1}/2;"|"']), {'n1': I(0, 200)})
    g.prog('num-real', num(['PRINT {n1};"|";-{n1};"|"', 'PRINT "ab";{n1}']), {'n1': S(1e30)})
    g.prog('num-small', num(['PRINT {n1}*1E-20;"|"']), {'n1': I(0, 300)})
    # texts of numbers of every width, followed by a comma, TAB or another item
    vals = ['1.5E-10', '-1.23457E-10', '1.23457E+100', '-1.23457E+100', '1E100', '-1E-100', '123456', '-123456', '1234567', '-1234567', '.000123456', '-.000123456', '.0000123456', '-.00001', '1E15', '999999.5', '99999.95', '-0', '1E308', '-1E-308', '5E-324', '.1', '1E-5', '1E5', '1E6', '-123.456']
    for i, v in enumerate(vals + ['1/Z', '-1/Z', 'LOG(-1)', '1/Z-1/Z']):
        g.prog('width', num(['A=%s' % v, 'PRINT A,"|"', 'PRINT A;TAB({n1});"|"', 'PRINT LEFT$("abcdefgh",{n2});A,A,"|"', 'PRINT A;:PRINT ,"|"', 'PRINT SPC({n2});A;A,1']), {'n1': I(10, 18), 'n2': I(0, 7)}, after=['PRINT "K"'])
    g.prog('trail', num(['PRINT {n1};:PRINT', 'PRINT {n1},:PRINT:PRINT "a",', 'PRINT', 'PRINT "z"']), {'n1': I(-9, 9)})
    g.prog('paren', num(['PRINT ({n1});(2)(3);"a"("b")-1', 'PRINT {n1}-1;{n1} -1;{n1};-1', 'PRINT A(1)A(2)"x"A$(1)"|"']), {'n1': I(-9, 9)})
    g.prog('question', num(['?"a"?"b"', '?{n1}', '? TAB(3)"x":?', '?;1']), {'n1': I(-9, 9)})
    g.prog('tab-expr', num(['A={n1}:PRINT TAB(A+1)"a"TAB(A*2)"b"SPC(A)"c"']), {'n1': I(0, 6)})
    g.prog('tab-nest', num(['PRINT TAB(LEN("abc")+{n1})"x";SPC(VAL("{b1}"))"y"']), {'n1': I(0, 3), 'b1': pick('0123')})
    g.prog('tab-var', num(['TAB={n1}:PRINT TAB', 'PRINT "K"']), {'n1': I(0, 3)})
    g.file('file', ['10 PRINT "abc";TAB({n1})"x",{n2}', '20 PRINT ,"{b1}";', '30 PRINT {n2}', '40 PRINT "end";'], {'n1': I(0, 12), 'n2': I(-9, 99), 'b1': Bt(32, 126, '"')})
    g.file('on-file-end', ['10 PRINT {n1};', '20 IF {n1}=1 THEN END', '30 PRINT "a"'], {'n1': I(0, 1)})
    if deep:
        sep = [';', ',', ' ']
        import itertools
        for a, b, c in itertools.product(sep, sep, ('', ';', ',')):
            g.prog('seps', num(['PRINT {n1}%s"q"%s{n2}%s' % (a, b, c), 'PRINT "|"']), {'n1': I(-12, 120), 'n2': I(-1, 11)})
        g.prog('comma-wide', num(['FOR I=1 TO {n1}:PRINT "x";:NEXT', 'PRINT ,"|";', 'PRINT ,"|"']), {'n1': I(0, 80)})
        g.prog('tab-cols2', num(['FOR I=1 TO {n1}:PRINT "x";:NEXT', 'PRINT TAB({n2})"|";TAB({n2}+2)"|"']), {'n1': I(0, 20), 'n2': I(0, 24)})
        g.prog('tab-full', num(['PRINT "a";TAB({n1});"|"']), {'n1': I(0, 256)}, after=['PRINT "K"'])
        g.prog('spc-full', num(['PRINT "a";SPC({n1});"|",1']), {'n1': I(0, 256)}, after=['PRINT "K"'])

def c10(g):
    deep = g.deep
    show = '30 PRINT "[";A;"|";B;"|";A$;"|";B$;"]"'
    any_ = Bt(32, 126)
    def rep(id, tgt, replies, holes, pre='', **kw):
        g.prog(id, ['10 A=-1:B=-2:A$="oa":B$="ob"', '20 %sINPUT %s' % (pre, tgt), show], holes, reply=replies, after=['PRINT "K";A;B;A$;B$'], **kw)
    # one symbolic character in every place of a reply
    for r in ('{b1}', '{b1}{b2}', '1{b1}', '{b1}1', '12{b1}3', '-{b1}', '1.{b1}', '1E{b1}', '.{b1}', ' {b1}', '{b1} ', '0{b1}1', '1e-{b1}'):
        rep('num', 'A', r + '\n77\n88\n99\n', {'b1': any_, 'b2': pick('059.-+eEx ,"')} if '{b2}' in r else {'b1': any_})
    for r in ('{b1}', 'a{b1}', '{b1}b', '"{b1}"', ' {b1} ', '{b1}{b2}', 'a,{b1}', 'x{b1}y'):
        rep('str', 'A$', r + '\nzz\n', {'b1': any_, 'b2': pick(' ,"a:')} if '{b2}' in r else {'b1': any_})
    for t in ('A,B', 'A$,B$', 'A,A$', 'A$,A'):
        for r in ('1,2{b1}', '1{b1}2', '{b1}1,2', '1,{b1}', '{b1},2', '1{b1}', '1,2,{b1}', '1 , 2{b1}', ',{b1}', '{b1},'):
            rep('pair', t, r + '\n5,6\n7,8\n9,10\n', {'b1': any_ if deep else pick(' ,0129.-+eEaZ":;&')})
    # counts
    rep('few', 'A,B,A$', '1\n1,2\n1,2,{b1}\n', {'b1': Bt(32, 126, ',')})
    rep('many', 'A', '1,2,3,{b1}\n5\n', {'b1': Bt()})
    rep('empty', 'A', '\n{b1}\n4\n', {'b1': pick(' 05x')})
    rep('empty-s', 'A$', '\nq\n', {})
    rep('empty-pair', 'A$,B$', ',\nq,r\n', {})
    rep('eof', 'A', '', {})
    g.add('eof-0', '10 A=5\n20 INPUT A\n30 PRINT A\nRUN\n', {})
    g.add('eof-1', '10 A=5\n20 INPUT A,B\n30 PRINT A\nRUN\n{b1}\n', {'b1': pick('12x')})
    g.add('eof-2', '10 A$="q":LINE INPUT A$\n30 PRINT A$\nRUN\n', {})
    g.add('eof-3', 'INPUT A$\n', {})
    g.add('eof-nonl', '10 A=5\n20 INPUT A\n30 PRINT A\nRUN\n{b1}7', {'b1': Bt(32, 126)})
    g.add('eof-nonl-s', '10 LINE INPUT A$\n30 PRINT A$;LEN(A$)\nRUN\n{b1}7', {'b1': Bt(32, 126)})
    g.file('eof-file', ['10 PRINT "A":INPUT A,B:PRINT A;B', '20 PRINT "N"'], {'b1': pick('12,x ')}, stdin='1{b1}2')
    g.file('file', ['10 INPUT A,B$', '20 PRINT A;B$', '30 IF A<3 THEN 10'], {'b1': Bt(32, 126), 'b2': pick('1234')}, stdin='1,{b1}\n{b2},b\n5,c\n6,d\n7,e\n')
    # prompts
    for p in ('"hello";', '"hello",', '"";', '"",', '"{b1}";', '"a?",', '"p{b1}q",'):
        rep('prompt', p + 'A', 'x\n1,2\n5\n', {'b1': Bt(32, 126, '"')} if '{b' in p else {})
        rep('prompt2', p + 'A,A$', '1\n1,{b1}\n', {'b1': Bt(32, 126, '",')})
        g.prog('line-prompt', num(['LINE INPUT %sA$' % p, 'PRINT A$']), {'b1': Bt(32, 126, '"')}, reply='x{b1}y\n')
    # LINE INPUT takes the line as it is
    g.prog('line', num(['A$="old":LINE INPUT A$', 'PRINT "[";A$;"]";LEN(A$)']), {'b1': any_, 'b2': any_}, reply='{b1},"{b2}" :x  \n')
    g.prog('line-edge', num(['LINE INPUT A$', 'PRINT "[";A$;"]";LEN(A$)']), {'b1': any_}, reply='{b1}\n')
    g.prog('line-blank', num(['LINE INPUT A$', 'PRINT "[";A$;"]";LEN(A$)']), {'b1': any_}, reply=' {b1} \n')
    g.prog('line-empty', num(['LINE INPUT A$', 'PRINT "[";A$;"]"', 'LINE INPUT A$(3):PRINT A$(3)']), {'b1': any_}, reply='\n{b1}\n')
    g.prog('line-high', num(['LINE INPUT A$', 'PRINT "[";A$;"]";LEN(A$)']), {'b1': ('b', 1, 31, '\n\r')}, reply='a{b1}b\n')
    g.prog('input-high', num(['INPUT A$,A', 'PRINT "[";A$;"]";LEN(A$);A']), {'b1': ('b', 1, 31, '\n\r')}, reply='a{b1}b,3\n')
    g.prog('num-high', num(['INPUT A', 'PRINT A']), {'b1': ('b', 1, 31, '\n\r')}, reply='{b1}5\n5{b1}\n7\n8\n')
    # long replies
    for L in (100, 125, 126, 127):
        g.prog('long-line', num(['LINE INPUT A$', 'PRINT A$;LEN(A$)']), {'b1': any_}, reply='x' * (L - 1) + '{b1}\n')
        g.prog('long-str', num(['INPUT A$,B$', 'PRINT A$;LEN(A$);B$']), {'b1': Bt(32, 126, ',')}, reply='x' * (L - 3) + ',{b1}z\n')
        g.prog('long-num', num(['INPUT A', 'PRINT A']), {'b1': pick('0123456789.x')}, reply='0' * (L - 2) + '{b1}4\n5\n')
    # several INPUTs in turn; targets with subscripts, evaluated afresh
    g.prog('seq', num(['INPUT A', 'INPUT "q";A$', 'LINE INPUT B$', 'INPUT B,C', 'PRINT A;A$;B$;B;C']), {'b1': Bt(32, 126, ','), 'b2': pick('123x ')}, reply='4\n{b1}\na,b\n{b2},5\n6,7\n')
    g.prog('loop', num(['FOR I=1 TO 3:INPUT A(I):NEXT', 'PRINT A(1);A(2);A(3)']), {'b1': Bt(32, 126), 'b2': pick('01x,')}, reply='1\n{b1}\n{b2}\n4\n5\n6\n')
    g.prog('subs', num(['DIM A(5),A$(5)', 'INPUT I,A(I),A$(A(I))', 'FOR K=0 TO 5:PRINT A(K);A$(K);".";:NEXT:PRINT I']), {'b1': pick('0123456x'), 'b2': pick('0123456x')}, reply='{b1},{b2},s\n1,2,t\n2,3,u\n', after=['FOR K=0 TO 5:PRINT A(K);A$(K);".";:NEXT:PRINT I'])
    g.prog('subs2', num(['DIM A(3,3)', 'INPUT A({n1},{n2}),B', 'PRINT A({n1},{n2});A({n2},{n1});B']), {'n1': I(0, 4), 'n2': I(0, 4)}, reply='5\nx,6\n7,8\n', after=['PRINT "K"'])
    g.prog('subs-retry', num(['DIM A(3):I=1', 'INPUT I,A(I),B', 'PRINT I;A(0);A(1);A(2);A(3);B']), {'b1': pick('0123')}, reply='{b1},5,x\n2,6,7\n')
    g.prog('same', num(['INPUT A,A,A', 'PRINT A']), {'b1': any_}, reply='1,2,{b1}\n4,5,6\n7,8,9\n')
    g.prog('same-str', num(['INPUT A$,A$', 'PRINT A$']), {'b1': any_}, reply='p,{b1}\nq,r\n')
    g.prog('name-long', num(['INPUT Total,Total$', 'PRINT TOTAL;total$']), {'b1': pick('0123456789x-')}, reply='{b1},abc\n5,z\n6,y\n')
    g.prog('if', num(['IF {n1} THEN INPUT A ELSE INPUT B', 'PRINT A;B']), {'n1': I(0, 1)}, reply='x\n5\n')
    g.prog('if-more', num(['IF {n1} THEN INPUT A:PRINT "T";A ELSE PRINT "F":INPUT B:PRINT B', 'PRINT A;B']), {'n1': I(0, 1)}, reply='5\n')
    g.prog('sub', num(['GOSUB 40:PRINT A', 'FOR I=1 TO 2:GOSUB 40:PRINT A:NEXT', 'END', 'INPUT A:RETURN']), {'b1': pick('123,x')}, reply='{b1}\n5\n6\n7\n8\n')
    g.imm('imm', ['INPUT A,A$', '{b1},b', '2,c', 'PRINT A;A$', 'LINE INPUT B$', ' q {b1}', 'PRINT B$'], {'b1': pick('123 ')})
    g.imm('imm-after', ['INPUT A:PRINT "A";A:INPUT A$:PRINT A$', '{b1}', '5', '6', 'PRINT A;A$'], {'b1': Bt(32, 126)})
    g.prog('error', num(['A$="k":INPUT A$,B(12)', 'PRINT A$']), {'b1': pick('0123456789x')}, reply='s,{b1}\ns,1\n', after=['PRINT A$'])
    g.prog('wrong-then-error', num(['INPUT I,A(I)', 'PRINT I;A(I)']), {'b1': pick('0129x'), 'b2': pick('0129x')}, reply='{b1}{b2},5\n3,4\n', after=['PRINT I', 'PRINT "K"'])
    g.prog('val-forms', num(['INPUT A', 'PRINT A']), {'b1': pick('+-0123456789.eE'), 'b2': pick('+-059.eE'), 'b3': pick('0.e')}, reply='{b1}{b2}{b3}\n5\n6\n')
    g.prog('hex', num(['INPUT A', 'PRINT A']), {'b1': Bt(65, 122), 'b2': pick('0fFnNiIaA')}, reply='0{b1}{b2}\n5\n6\n')
    for w in ('inf', 'nan', 'INF', '1e999', '-1e999', '1e-999', '0x10', 'infinity', 'NAN(1)', '1d5', '1_0', '--5', '+-5', '1 2', '5%', '1e+', '1e5.', '$5', '1,', ',1', ';', '"5"', "'5'", '5\t', '\t5', '1.2.3', '.', '+', '-', 'e5', '.e5', '5.', '.5', '-.5', '+.5', '5e', '5e+', '0', '-0', '00', '000000000000000000000000000000000005', '9' * 40, '0.' + '0' * 40 + '1'):
        for q in sorted({0, len(w) // 2, len(w) - 1} if not g.deep else range(len(w))):
            g.prog('word', num(['INPUT A', 'PRINT A']), {'b0': Bt()}, reply=w[:q] + '{b0}' + w[q + 1:] + '\n6\n7\n').orig = {'b0': ord(w[q])}
    g.prog('trace-quiet', num(['INPUT "x";A', 'PRINT A']), {'b1': pick('12x,')}, reply='{b1}\n4\n', args=['-q', '-t'])
    g.prog('carry', num(['PRINT "ab";:INPUT A:PRINT "c",A']), {'b1': pick('12x,')}, reply='{b1}\n4\n')
    if deep:
        rep('num3', 'A', '{b1}{b2}{b3}\n77\n88\n', {'b1': any_, 'b2': pick('0123456789.-+eEx ,"'), 'b3': pick('059.-+eEx ,"')})
        rep('num4', 'A', '{b1}{b2}{b3}{b4}\n77\n88\n', {'b1': pick('0159.-+eE '), 'b2': pick('059.-+eE ,'), 'b3': pick('059.-+eE ,'), 'b4': pick('059.-+eE ,')})
        rep('pair3', 'A,B$', '{b1}{b2}{b3}\n7,7\n8,8\n', {'b1': any_, 'b2': pick('0,9. "x'), 'b3': any_})
        g.prog('line4', num(['LINE INPUT A$', 'PRINT "[";A$;"]";LEN(A$)']), {'b%d' % k: any_ for k in (1, 2, 3, 4)}, reply='{b1}{b2}{b3}{b4}\n')

def c11(g):
    deep = g.deep
    any_ = Bt(32, 126)
    sh = 'PRINT "[";A$;"]"'
    # one symbolic character in every place of a DATA list, read as string and as number
    for d in ('{b1}', 'a{b1}', '{b1}a', ' a{b1}b ', '"{b1}"', '"a"{b1}', '{b1}"a"', 'a,{b1}', '{b1},a', 'a {b1}', '"a" {b1}', '"a",{b1}"b"', '1{b1}2', ' {b1} '):
        g.prog('str', ['10 READ A$:%s:READ A$:%s' % (sh, sh), '20 DATA %s' % d, '30 DATA z'], {'b1': any_}, after=['PRINT "K"', 'LIST'], before=())
        g.prog('num', ['10 READ A:PRINT A:READ A:PRINT A', '20 DATA %s' % d, '30 DATA 77'], {'b1': any_}, after=['PRINT "K"'])
    for d in ('{b1}{b2}', '-{b1}{b2}', '1.{b1}{b2}', '1{b1}{b2}', '"{b1}{b2}"', '{b1}5{b2}'):
        g.prog('num2', ['10 READ A:PRINT A:READ A:PRINT A', '20 DATA %s,66' % d, '30 DATA 77'], {'b1': pick('+-05.eEx '), 'b2': pick('+-05.eEx ,"')}, after=['PRINT "K"'])
    for w in ('5', '-5', '+5', '.5', '5.', '1e3', '1E+3', '1e', '0x5', 'inf', 'nan', '"5"', '" 5"', '5 5', '1e999', '', '-', '--1', '1 e5', '"',):
        for q in sorted({0, len(w) // 2, len(w) - 1} if not g.deep else range(len(w))) if w else ():
            g.prog('word', ['10 READ A:PRINT A', '20 DATA %s' % (w[:q] + '{b0}' + w[q + 1:]), '30 DATA 77'], {'b0': Bt()}, after=['PRINT A', 'READ A$:PRINT A$']).orig = {'b0': ord(w[q])}
        if not w: g.prog('word', ['10 READ A:PRINT A', '20 DATA ', '30 DATA 77'], {}, after=['PRINT A', 'READ A$:PRINT A$'])
    # order and position
    g.prog('order', ['10 FOR I=1 TO {n1}:READ A$:PRINT A$;:NEXT', '20 DATA a,b', '30 PRINT "P"', '40 DATA c', '50 DATA d,e,f', '5 DATA z'], {'n1': I(0, 9)}, after=['READ A$:PRINT A$', 'PRINT "K"'])
    g.prog('before', ['10 DATA 1,2', '20 READ A,B,C', '30 PRINT A;B;C:DATA 3', '40 READ D:PRINT D', '50 DATA {n1}'], {'n1': I(-99, 99)})
    g.prog('mixed', ['10 READ A,A$,B,B$', '20 PRINT A;A$;B;B$', '30 DATA {n1},"x,y",{n2},  z w  '], {'n1': S(1e6), 'n2': I(-9, 9)})
    g.prog('colon', ['10 READ A,B$,C:PRINT A;B$;C', '20 DATA 1:PRINT "MID":DATA "a:b",{n1}', '30 PRINT "E"'], {'n1': I(0, 9)})
    g.prog('inline', ['10 PRINT "A":DATA {n1}:PRINT "B":READ A:PRINT A', '20 IF A=1 THEN DATA 7,8 ELSE PRINT "no"', '30 READ B:PRINT B'], {'n1': I(0, 2)}, after=['READ C:PRINT C'])
    g.prog('past', ['10 DATA 1,2', '20 FOR I=1 TO {n1}:READ A:NEXT:PRINT A'], {'n1': I(1, 4)}, after=['PRINT A;I', 'READ A', 'RESTORE:READ A:PRINT A'])
    g.prog('partial', ['10 A=9:B=9:C=9:READ A,B,C:PRINT "NO"', '20 DATA 1,{b1}'], {'b1': pick('25x"')}, after=['PRINT A;B;C', 'READ A'])
    g.prog('type-error', ['10 READ A:PRINT A', '20 READ B', '30 DATA 1,{b1}{b2},3'], {'b1': pick('5x -'), 'b2': pick('5x -')}, after=['PRINT A;B', 'READ A$:PRINT A$', 'READ A$:PRINT A$'])
    g.prog('subs', ['10 DIM A(4),A$(4)', '20 READ I,A(I),A$(I+1),J,A(A(I))', '30 PRINT I;A(I);A$(I+1);J:FOR K=0 TO 4:PRINT A(K);:NEXT', '40 DATA {n1},{n2},s,5,6'], {'n1': I(-1, 5), 'n2': I(-1, 5)}, after=['PRINT I;J', 'READ Z$:PRINT Z$'])
    # RESTORE
    ln = ['10 DATA 10,11', '20 REM', '30 DATA 30', '40 PRINT "-";', '50 DATA 50,51']
    g.prog('restore-n', ln + ['60 READ A,B,C:PRINT A;B;C;', '70 RESTORE {b1}0:READ A:PRINT A', '80 READ A:PRINT A'], {'b1': pick('123456789')}, after=['PRINT "K"', 'READ A:PRINT A'])
    g.prog('restore-sym', ln + ['60 RESTORE {n1}:READ A:PRINT A', '70 READ A:PRINT A'], {'n1': I(0, 100)}, after=['PRINT "K"'])
    g.prog('restore-all', ln + ['60 FOR I=1 TO {n1}:READ A:NEXT:RESTORE:READ B:PRINT A;B'], {'n1': I(0, 6)}, after=['PRINT "K"', 'RESTORE', 'READ A:PRINT A', 'RESTORE 40', 'READ A:PRINT A', 'RESTORE 45', 'READ A:PRINT A', 'RESTORE 60', 'READ A'])
    g.prog('restore-mid', ln + ['60 FOR I=1 TO 4:READ A:PRINT A;:IF I={n1} THEN RESTORE {b1}0', '70 NEXT'], {'n1': I(0, 4), 'b1': pick('12345')}, after=['PRINT "K"'])
    g.prog('restore-keep', ln + ['60 READ A:RESTORE {b1}{b2}', '70 READ A:PRINT A'], {'b1': pick('1359'), 'b2': pick('05')}, after=['READ A:PRINT A'])
    g.prog('restore-self', ['10 RESTORE {b1}0:DATA 1', '20 READ A:PRINT A:DATA 2', '30 DATA 3'], {'b1': pick('1234')})
    g.prog('restore-line', ['10 PRINT "x":DATA 1:DATA 2', '20 READ A,B,C:PRINT A;B;C', '30 DATA 3,4', '40 RESTORE {b1}0:READ A:PRINT A'], {'b1': pick('12345')})
    # control flow does not matter to the position
    g.prog('goto', ['10 GOTO {b1}0', '20 READ A$:PRINT A$:END', '30 DATA a', '40 READ A$,B$:PRINT A$;B$:END', '50 DATA b', '60 READ A$:PRINT A$'], {'b1': pick('2345')}, after=['READ A$:PRINT A$'])
    g.prog('gosub', ['10 FOR I=1 TO 2:GOSUB 40:NEXT:READ A:PRINT "M";A', '20 END', '30 DATA 1,2,3,4', '40 READ A:PRINT A:IF A={n1} THEN RESTORE', '50 RETURN'], {'n1': I(0, 3)})
    g.prog('loop', ['10 READ A:IF A<0 THEN END', '20 PRINT A:GOTO 10', '30 DATA 3,{n1},5,-1'], {'n1': I(-2, 9)}, after=['READ A'])
    # after edits, RUN, CLEAR, NEW, immediate mode
    g.prog('rerun', ['10 READ A:PRINT A', '20 DATA 1,2,3'], {'n1': I(0, 9)}, after=['READ A:PRINT A', 'RUN', 'READ A:PRINT A', '20 DATA {n1},8', 'READ A:PRINT A', 'RUN', 'READ A:PRINT A', 'CLEAR', 'READ A:PRINT A', '30 DATA 5', 'READ A:PRINT A'])
    g.imm('imm', ['10 DATA 1,"q",{n1}', 'READ A:PRINT A', 'READ A$,B:PRINT A$;B', 'READ C', 'RESTORE', 'READ C:PRINT C', 'DATA 5', 'READ C', 'RESTORE 10:READ C:PRINT C', 'RESTORE 11', 'NEW', 'READ C', 'RESTORE', 'READ C'], {'n1': I(-9, 9)})
    g.imm('imm-data', ['DATA 1,{n1}', 'READ A:PRINT A', 'READ A:PRINT A:DATA 4', '10 DATA 7', 'READ A:PRINT A'], {'n1': I(-9, 9)})
    g.imm('no-data', ['10 READ A', 'RUN', '10 READ A$', 'RUN', 'RESTORE {b1}0', 'READ A', '10 RESTORE', 'RUN', '10 RESTORE {b1}0', 'RUN'], {'b1': pick('12')})
    g.prog('delete', ['10 DATA 1', '20 DATA 2', '30 READ A:PRINT A', '40 READ A:PRINT A'], {'b1': pick('124')}, after=['{b1}0', 'RUN', '{b1}5 DATA 9', 'RUN'])
    g.prog('stop', ['10 READ A:PRINT A:STOP:READ A:PRINT A', '20 DATA 1,{n1},3'], {'n1': I(0, 9)}, after=['READ A:PRINT A', 'CONT', 'READ A:PRINT A'])
    g.prog('error-keep', ['10 READ A:PRINT A:PRINT 1/0:B$=CHR$({n1})', '20 DATA 1,2'], {'n1': I(-1, 1)}, after=['READ A:PRINT A', 'READ A'])
    g.prog('def', ['10 DEF FNA(X)=X+A:READ A,B:PRINT FNA(B)', '20 DATA {n1},{n2}'], {'n1': I(-9, 9), 'n2': I(-9, 9)})
    g.prog('many', num(['DATA ' + ','.join(str(k) for k in range(30)), 'FOR I=1 TO {n1}:READ A:NEXT:PRINT A', 'RESTORE:READ A:PRINT A']), {'n1': I(28, 31)})
    g.prog('long', num(['READ A$,B$:PRINT A$;LEN(A$);B$', 'DATA "%s{b1}",%s{b2}' % ('x' * 40, 'y' * 30)]), {'b1': Bt(32, 126, '"'), 'b2': any_})
    for w in ('IF', 'PRINT 5', 'GOTO', 'a REM b', 'REM', 'READ A', 'DATA', "it's", 'A$', 'X(1)', '1+2', '-', '?', '&', '#', '%', '@', 'a"b', '"a""b"', '"a', 'a b  c'):
        g.prog('unq', ['10 READ A$:PRINT "[";A$;"]":READ A$:PRINT A$', '20 DATA %s,{b1}' % w, '30 DATA end'], {'b1': pick('xz5')}, after=['LIST'])
    g.file('file', ['10 READ A,B$:PRINT A;B$:IF A>0 THEN 10', '20 DATA 1,a,{n1},{b1},-1,c'], {'n1': I(-1, 1), 'b1': Bt(32, 126, '",')})
    g.file('file-last', ['10 READ A$:PRINT "[";A$;"]"', '20 DATA {b1}'], {'b1': any_}, last=False)
    g.file('file-end', ['10 READ A$:PRINT "[";A$;"]"', '20 DATA a{b1}'], {'b1': any_}, last=False)
    if deep:
        for d in ('{b1}{b2}{b3}', '"{b1}{b2}"{b3}', 'a{b1}{b2}b{b3}'):
            g.prog('str3', ['10 READ A$:%s:READ A$:%s' % (sh, sh), '20 DATA %s' % d, '30 DATA z'], {'b1': any_, 'b2': pick(' ,":ax0'), 'b3': pick(' ,":ax0')}, after=['PRINT "K"', 'LIST'])
            g.prog('num3', ['10 READ A:PRINT A:READ A:PRINT A', '20 DATA %s' % d, '30 DATA 77'], {'b1': pick('+-.eE0123456789" ,'), 'b2': pick('+-.eE05" ,'), 'b3': pick('.eE05" ,')}, after=['PRINT "K"'])

def c12(g):
    deep = g.deep
    a = I(-50, 50)
    bodies = ['X', 'X+1', 'X*X', '1', 'Y', 'X+Y', '-X', '(X)', 'X*2-Y/4', 'ABS(X)+INT(Y/2)', 'X AND Y', 'NOT X', 'X<Y', 'X=Y', 'A(1)+X', 'LEN(S$)+X', 'ASC(S$)*X', 'X^2', 'X+X+X+X', 'X-(Y-(X-Y))', 'SGN(X)*ABS(Y)', 'VAL("12")+X', 'LEN(STR$(X))']
    for i, b in enumerate(bodies):
        g.prog('body-%02d' % i, num(['Y={n2}:S$="hello":A(1)=3', 'DEF FNA(X)=%s' % b, 'PRINT FNA({n1});X;Y', 'X={n2}:PRINT FNA({n1});X;FNA(X);X;FNA(X+1);X', 'Y=Y+1:PRINT FNA(Y);Y;X']), {'n1': a, 'n2': I(-9, 9)}, after=['PRINT FNA({n2});X;Y'])
    sb = ['X$', 'X$+X$', '"a"', 'S$', 'X$+S$', 'LEFT$(X$,2)', 'X$+CHR$(65+Y)', 'STR$(LEN(X$))+X$', 'MID$(X$,2,1)+S$']
    for i, b in enumerate(sb):
        g.prog('sbody-%d' % i, num(['Y=1:S$="hello"', 'DEF FNA$(X$)=%s' % b, 'PRINT FNA$("p{b1}q");"|";X$;"|"', 'X$="old":PRINT FNA$("{b1}");X$;FNA$(X$);X$']), {'b1': Bt(32, 126, '"')}, after=['PRINT FNA$(S$);X$'])
    nb = ['STR$(X)', 'STR$(X)+S$', '"a"', 'S$', 'CHR$(65+X)+S$', 'LEFT$(S$,X)', 'MID$(S$,X+1,2)', 'RIGHT$(S$,X)+STR$(X)', 'S$+S$+CHR$(66+X)', 'LEFT$(S$,X)+RIGHT$(S$,Y)', 'STR$(X*Y+LEN(S$))', '"("+STR$(FNB(X))+")"']
    for i, b in enumerate(nb):
        g.prog('nbody-%d' % i, num(['Y=1:S$="hello":DEF FNB(X)=X*10', 'DEF FNA$(X)=%s' % b, 'PRINT FNA$({n1});"|";X;"|";FNA$(2)+FNA$({n1}+1)', 'X=9:X$="old":PRINT FNA$({n1});X;X$;LEN(FNA$(0));FNA$(LEN(FNA$({n1})))', 'A$=FNA$({n2}):IF A$=FNA$({n1}) THEN PRINT "same" ELSE PRINT "other"']), {'n1': I(-1, 6), 'n2': I(0, 2)}, after=['PRINT FNA$(3);X', 'S$="xy"+FNA$(1)', 'PRINT FNA$(1);S$;X'])
    g.prog('mix-sn', num(['DEF FNA(X)=LEN(X$)+VAL(X$)+X', 'DEF FNB$(X)=STR$(X)+CHR$(65+X)', 'X$="1{b1}":X=7', 'PRINT FNA(1);FNB$({n1});X$;X']), {'b1': pick('0123456789x'), 'n1': I(0, 20)})
    # the parameter's variable: set, unset, read inside, across kinds
    g.prog('param-unset', num(['DEF FNA(Q)=Q+1', 'PRINT FNA({n1})', 'PRINT Q', 'Q=Q+{n1}:PRINT Q', 'PRINT FNA(Q);Q']), {'n1': a})
    g.prog('param-name', num(['{b1}={n1}:{b1}$="s":Q=3:DEF FNA(Q)=Q+{b1}', 'PRINT FNA(5);Q;{b1};{b1}$', 'Q=9:PRINT FNA(1);Q;{b1}']), {'b1': pick('PQRpqr'), 'n1': I(-9, 9)})
    g.prog('param-array', num(['X(1)=5:X=6:DEF FNA(X)=X+X(1)', 'PRINT FNA({n1});X(1);X']), {'n1': a})
    g.prog('param-dim', num(['DIM X(3):X(2)=4:DEF FNA(X)=X*X(2)', 'PRINT FNA({n1});X(2)', 'X=1:PRINT FNA(X);X']), {'n1': a})
    g.prog('param-for', num(['DEF FNA(I)=I*10', 'FOR I=1 TO 3:PRINT I;FNA(I+{n1});:NEXT:PRINT I']), {'n1': I(-9, 9)})
    g.prog('param-let', num(['X={n1}:DEF FNA(X)=X*2', 'X=FNA(X+1):PRINT X', 'X=FNA(X)+X:PRINT X', 'X(FNA(1))=FNA(X):PRINT X(2);X']), {'n1': I(-9, 9)})
    g.prog('case', num(['DEF fna(x)=X+1:X=4', 'PRINT FNA({n1});Fna(2);x']), {'n1': a})
    g.prog('multi-names', num(['DEF FNA(X)=1:DEF FNB(X)=2+X:DEF FNAB(X)=3:DEF FN(X)=4', 'PRINT FNA({n1});FNB({n1});FNAB({n1})']), {'n1': a}, after=['PRINT FN(1)'])
    g.prog('two-param', num(['DEF FNA(X,Y)=X-Y', 'PRINT FNA({n1},2)']), {'n1': a}, after=['PRINT FNA(1)'])
    g.prog('no-param', num(['DEF FNA()=5', 'PRINT FNA()']), {}, after=['PRINT FNA'])
    g.prog('no-paren', num(['DEF FNA=5+{n1}', 'PRINT FNA']), {'n1': a}, after=['PRINT FNA(1)'])
    # redefinition, and where the definition is
    g.prog('redef', num(['DEF FNA(X)=X+1', 'PRINT FNA({n1})', 'DEF FNA(Y)=Y*2', 'PRINT FNA({n1})', 'IF C=0 THEN C=1:GOTO 10']), {'n1': a}, after=['PRINT FNA(4)'])
    g.prog('redef-if', num(['IF {n1}>0 THEN DEF FNA(X)=X+1 ELSE DEF FNA(X)=X*2', 'PRINT FNA(5)']), {'n1': I(-1, 2)}, after=['PRINT FNA(6)', 'DEF FNA(X)=0', 'PRINT FNA(6)', 'GOTO 20', 'RUN'])
    g.prog('redef-shape', num(['DEF FNA(X)=X:PRINT FNA(1)', 'IF {n1} THEN DEF FNA(P)=P+P+P+P+P+P+P+P+P+P:PRINT FNA({n1})', 'DEF FNA(X)=1:PRINT FNA(9)']), {'n1': I(0, 3)})
    g.prog('skip', num(['IF {n1} THEN 30', 'DEF FNA(X)=X+1', 'PRINT FNA(2)']), {'n1': I(0, 1)}, after=['PRINT "K"', 'PRINT FNA(1)'])
    g.prog('undef', num(['PRINT "A":X=5', 'PRINT FNA({n1})', 'PRINT "B"']), {'n1': I(0, 10)}, after=['PRINT X', 'DEF FNA(X)=X+1', 'PRINT FNA({n1});X', 'GOTO 20'])
    g.prog('later', num(['GOSUB 40', 'PRINT FNA({n1})', 'END', 'DEF FNA(X)=X+9:RETURN']), {'n1': a})
    g.prog('data-flow', num(['DEF FNA(X)=X+Z', 'FOR Z={n1} TO {n1}+2:PRINT FNA(Z);FNA(1);:NEXT', 'PRINT Z']), {'n1': I(-3, 3)})
    # nesting and errors inside
    g.prog('nest', num(['DEF FNA(X)=X+1:DEF FNB(X)=FNA(X)*2', 'PRINT FNA({n1})', 'X=7:PRINT FNB({n1})']), {'n1': a}, after=['PRINT X', 'PRINT FNA(3);X', 'PRINT FNB(3)', 'PRINT X;FNA(X)'])
    g.prog('nest-arg', num(['DEF FNA(X)=X+1', 'X=7:PRINT FNA(FNA({n1}));X', 'PRINT FNA(1)+FNA(2)*FNA({n1});X']), {'n1': a}, after=['PRINT X'])
    g.prog('self', num(['DEF FNA(X)=FNA(X-1)', 'X=4:PRINT FNA({n1})']), {'n1': a}, after=['PRINT X', 'DEF FNA(X)=X', 'PRINT FNA(8);X'])
    g.prog('error-in', num(['DEF FNA(X)=LOG(X)', 'X=5:PRINT "A"', 'PRINT FNA({n1})', 'PRINT "B";X']), {'n1': I(-2, 1)}, after=['PRINT X', 'PRINT FNA(1);X', 'CONT'])
    g.prog('error-str', num(['DEF FNA$(X)="a"+CHR$(N)', 'X$="k":N={n1}:X=3', 'PRINT FNA$(1)', 'PRINT "B";X$;X']), {'n1': I(-2, 66)}, after=['PRINT X$', 'N=65:PRINT FNA$(2);X$;X'])
    g.prog('error-subs', num(['DIM A(3):DEF FNA(X)=A(X)+X', 'X=2:FOR I=0 TO 3:A(I)=I*I:NEXT', 'PRINT FNA({n1});X']), {'n1': I(-1, 4)}, after=['PRINT X;FNA(1);X'])
    g.prog('error-unset', num(['DEF FNA(X)=SQR(X)', 'PRINT FNA({n1})']), {'n1': I(-1, 1)}, after=['PRINT X', 'PRINT FNA(4);X', 'X=3', 'PRINT FNA(-1)', 'PRINT X'])
    g.prog('error-arg', num(['DEF FNA(X)=X+1:X=3', 'PRINT FNA(ASC(LEFT$("a",{n1})))']), {'n1': I(0, 1)}, after=['PRINT X', 'PRINT FNA(X);X'])
    g.prog('error-repeat', num(['DEF FNA(X)=SQR(X):X=3', 'PRINT FNA({n1})']), {'n1': I(-1, 4)}, after=['PRINT FNA(-4)', 'PRINT FNA(-4);X', 'PRINT X', 'PRINT FNA({n1})', 'X=X+1:PRINT FNA(16);X'])
    for nm, call in (('few', 'FNA()'), ('many', 'FNA(1,2)'), ('none', 'FNA'), ('str', 'FNA("a")'), ('strf', 'FNA$(1)'), ('wrongs', 'FNA(1)+FNA$("x")')):
        g.prog('args-' + nm, num(['DEF FNA(X)=X+1:X=3', 'PRINT "A":PRINT %s' % call, 'PRINT "B"']), {}, after=['PRINT X', 'DEF FNA(X)=X+1:X=3', 'PRINT FNA(2);X', 'PRINT %s' % call, 'PRINT X;FNA(X)'])
    g.prog('stop', num(['DEF FNA(X)=X*3:X=2', 'STOP', 'PRINT FNA({n1});X']), {'n1': a}, after=['PRINT FNA(5);X', 'X=8', 'CONT', 'DEF FNA(X)=X-1', 'PRINT FNA(5);X'])
    g.imm('imm', ['DEF FNA(X)=X+{n1}', 'PRINT FNA(2)', '10 PRINT FNA(3);X', 'X=4', 'GOTO 10', 'RUN', 'PRINT FNA(1)', '20 DEF FNB(X)=X*2', 'RUN', 'PRINT FNB(4)', 'GOTO 20', 'PRINT FNB({n1});X', 'NEW', 'PRINT FNB(1)'], {'n1': a})
    g.imm('imm-edit', ['10 DEF FNA(X)=X+1', '20 PRINT FNA({n1})', 'RUN', '10', 'PRINT FNA(2)', '10 DEF FNA(X)=X+2', 'PRINT FNA(2)', 'RUN', 'PRINT FNA(2)', '5 PRINT "five"', 'PRINT FNA(3)', 'RENUM', 'PRINT FNA(4)', 'CLEAR', 'PRINT FNA(4)'], {'n1': I(0, 9)})
    g.imm('imm-twice', ['DEF FNA(X)=X+1:DEF FNB(X)=X*{n1}', 'PRINT FNA(1);FNB(2)', 'DEF FNA(Y)=Y*{n1}:PRINT FNA(3):DEF FNA(Z)=Z', 'PRINT FNA(7)', 'PRINT FNB(7)'], {'n1': I(0, 9)})
    g.prog('clear', num(['DEF FNA(X)=X:PRINT FNA({n1}):CLEAR', 'PRINT "A"', 'PRINT FNA(1)']), {'n1': I(0, 9)}, after=['PRINT "K"'])
    g.prog('as-var', num(['FNA={n1}:DEF FNA(X)=X+FNA', 'PRINT FNA;FNA(1)', 'FNA(2)=5:PRINT FNA(2)']), {'n1': I(0, 9)})
    g.prog('as-array', num(['DIM FNA(3)', 'DEF FNA(X)=X', 'PRINT FNA({n1})']), {'n1': I(0, 3)})
    g.prog('array-undef', num(['A(1)={n1}', 'DEF A(X)=X', 'PRINT A(1)']), {'n1': I(0, 3)})
    g.prog('not-fn', num(['DEF A(X)=X', 'PRINT A({n1})']), {'n1': I(0, 3)})
    g.prog('cond', num(['DEF FNA(X)=X MOD 2' if 0 else 'DEF FNA(X)=X-INT(X/2)*2', 'FOR I={n1} TO {n1}+3:IF FNA(I) THEN PRINT I;"odd" ELSE PRINT I;"even"', 'NEXT', 'ON FNA({n1})+1 GOTO 50,60', 'PRINT "e":END', 'PRINT "o"']), {'n1': I(-3, 3)})
    g.prog('places', num(['DEF FNA(X)=X+1:DIM A(5)', 'FOR I=FNA(0) TO FNA(1) STEP FNA(0):A(FNA(I))=FNA({n1}):NEXT', 'PRINT A(2);A(3);TAB(FNA(20));"x";SPC(FNA(1));LEFT$("abc",FNA(1))', 'READ A(FNA(0)):PRINT A(1)', 'DATA {n1}']), {'n1': I(-9, 9)})
    g.prog('real', num(['DEF FNA(X)=X*0.5', 'PRINT FNA({n1});X']), {'n1': S(1e6)})
    g.prog('long-params', num(['DEF FNlonger(First)=First*2+Second', 'Second={n1}:PRINT FNLONGER(4);first;second']), {'n1': a})
    g.prog('many-calls', num(['DEF FNA(X)=X+1', 'FOR I=1 TO 40:S=FNA(S):NEXT', 'PRINT S+{n1};X']), {'n1': a})
    g.prog('deep-expr', num(['DEF FNA(X)=X+1', 'PRINT 1+(2+(3+(4+(5+FNA({n1})))))', 'PRINT "a"+("b"+("c"+STR$(FNA({n1}))))']), {'n1': a})
    g.file('file', ['10 DEF FNA(X)=X*Y', '20 Y={n1}:X=5', '30 PRINT FNA({n2});X', '40 PRINT FNB(1)'], {'n1': I(-9, 9), 'n2': I(-9, 9)})
    if deep:
        for b in bodies:
            g.prog('deep', num(['X={n3}:Y={n2}:S$="hello":A(1)=3', 'DEF FNA(X)=%s' % b, 'DEF FNB(Y)=Y+X+%s' % b, 'PRINT FNA({n1});FNB(2);X;Y', 'PRINT FNB(FNA(1) AND 3);X;Y']), {'n1': I(-20, 20), 'n2': I(-3, 3), 'n3': I(-3, 3)}, after=['PRINT FNA({n2});X;Y'])
