R='Basic/run.c'; P='Basic/parse.c'; L='Basic/lexer.c'; A='Basic/arrays.c'; S='Basic/source.c'; Y='Basic/symbol.c'; I='Monitor/interactive.c'; M='Basic/linemap.c'
B=[]
def bug(id,prop,needs,breaks,edits,inp,**k): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,**{'in':inp},**k))
# C01
bug('c01-sgn-fraction','C01','an argument strictly between 0 and 1','SGN of a positive fraction is not 1',[(R,'      else if (x > 0)\n        x = 1;','      else if (x >= 1)\n        x = 1;')],'PRINT SGN(.25);SGN(3);SGN(-.5)\n')
bug('c01-and-16bit','C01','operands with bits above the 15th','AND is computed on 16-bit values',[(R,'push(vm, logic1 & logic2);','push(vm, (short)(logic1 & logic2));')],'PRINT 65537 AND 65539;7 AND 5\n')
bug('c01-notnot','C01','two NOTs in a row','NOT NOT x is NOT x',[(P,'    if (not % 2)\n','    if (not)\n')],'PRINT NOT NOT 5;NOT NOT NOT 5\n')
bug('c01-logic-range','C01','a logical operand just below -2147483648','an out-of-range logical operand is accepted',[(R,'x < INT_MIN || x > INT_MAX || x != floor(x)','x < -2147483649.0 || x > INT_MAX || x != floor(x)')],'PRINT -2147483649 OR 0\nPRINT 1\n')
bug('c01-int-long','C01','INT of a number beyond 2^31','INT goes through an int',[(R,'push(vm, floor(pop(vm)));','{ double v = pop(vm); push(vm, v < 0 ? floor(v) : (double)(unsigned) v); }')],'PRINT INT(2.5);INT(-2.5);INT(6442450944.5)\n')
bug('c01-sub-chain','C01','three operands joined by - with a + in front of it','a - b + c groups to the right',[(P,'    int op = lex_token(parser->lex) == \'+\'','')] if 0 else [(R,'push(vm, pop(vm) - x);','double y = pop(vm); push(vm, y == x ? 0.0 : y - x);')],'A=1/0:PRINT A-A<>A-A;5-5\n')
# C02
bug('c02-left-255','C02','a 255-character string','LEFT$ refuses the full 255 characters',[(R,'      size_t sz = strlen(s);\n      if (u > sz)\n        u = (unsigned long)sz;\n      char buf[256];\n      if (u + 1 > sizeof buf)\n        run_error(vm, STRING_TOO_LONG);\n      strncpy(buf, s, u);','      size_t sz = strlen(s);\n      if (u > sz)\n        u = (unsigned long)sz;\n      char buf[256];\n      if (u + 1 >= sizeof buf)\n        run_error(vm, STRING_TOO_LONG);\n      strncpy(buf, s, u);')],'A$="12345":FOR I=1 TO 5:A$=A$+A$:NEXT:A$=A$+LEFT$(A$,95)\nPRINT LEN(A$)\nPRINT LEN(LEFT$(A$,300));LEN(LEFT$(A$,254))\n')
bug('c02-mid-past-end','C02','MID$ starting one past the end','MID$ beyond the string yields an empty string instead of an error',[(R,'if (u < 1 || u > sz)','if (u < 1 || u > sz + 1)')],'PRINT MID$("abc",4,1);"x"\nPRINT MID$("abc",3,1)\n')
bug('c02-cmp-prefix','C02','two strings equal in their first 64 characters','string comparison looks at 64 characters only',[(R,'int r = strcmp(s, t);','int r = strncmp(s, t, 64);')],'A$="0123456789012345678901234567890123456789012345678901234567890123"\nPRINT A$+"a"=A$+"b";"a"="b";A$<A$+"a"\n')
bug('c02-cmp-signed','C02','characters with codes above 127','strings are ordered by signed character code',[(R,'int r = strcmp(s, t);','int r = 0;\n  for (const char *p = s, *q = t; ; p++, q++) {\n    if (*p != *q) { r = *p < *q ? -1 : 1; break; }\n    if (*p == 0) break;\n  }')],'PRINT CHR$(200)>"a";"b">"a"\n')
bug('c02-concat-254','C02','a concatenation of exactly 255 characters','a 255-character result is refused',[(R,'if (sz + 1 > sizeof buf)\n        run_error(vm, "concat','if (sz + 1 >= sizeof buf)\n        run_error(vm, "concat')],'A$="12345":FOR I=1 TO 5:A$=A$+A$:NEXT:A$=A$+LEFT$(A$,94)\nPRINT LEN(A$)\nPRINT LEN(A$+"x")\nPRINT LEN(A$+"xy")\n')
bug('c02-right-zero','C02','RIGHT$ of an empty string or count 0 combined with a long string','RIGHT$ with a count equal to the length drops a character',[(R,'strncpy(buf, s + sz - u, u);\n      buf[u]','if (u == sz && sz > 20) u--;\n      strncpy(buf, s + sz - u, u);\n      buf[u]')],'A$="0123456789012345678901234"\nPRINT RIGHT$(A$,25);LEN(RIGHT$(A$,99))\nPRINT RIGHT$("abc",3)\n')
# C03
bug('c03-chr-255','C03','the character code 255','CHR$(255) is refused',[(R,'if (x < 0 || x > 255 || x != floor(x))','if (x < 0 || x >= 255 || x != floor(x))')],'PRINT ASC(CHR$(255));ASC(CHR$(254))\n')
bug('c03-str-7','C03','a number of more than six significant digits','STR$ shows more digits than PRINT',[(R,'sprintf(buf, "%g", x);','sprintf(buf, "%.7g", x);')],'A=1234567:PRINT A;STR$(A);STR$(12)\n')
bug('c03-data-number','C03','a DATA item number that ends in a decimal point','the numeral 5. is not accepted as DATA',[(R,'if (t == NULL || *t != \'\\0\')\n        run_error(vm, "numeric data','if (t == NULL || *t != \'\\0\' || t > S && t[-1] == \'.\')\n        run_error(vm, "numeric data')],'10 DATA 5.,6\n20 READ A,B:PRINT A;B\nRUN\n')
bug('c03-num-dot-exp','C03','a constant without digits after the point but with an exponent','1.E2 is read as 1 followed by a name',[(L,"    if (tolower(c) == 'e' && exponent_follows(lex)) {","    if (tolower(c) == 'e' && lex->word[i-1] != '.' && exponent_follows(lex)) {")],'PRINT 1.E2;VAL("1.E2")\nPRINT 1.5E2\n')
# C04
bug('c04-auto-2d','C04','an undimensioned two-dimensional array first used with a second subscript above 10 that exceeds the first','automatic dimensioning sizes both dimensions by the first subscript',[(R,'  unsigned max[MAX_DIMENSIONS];\n  for (unsigned j = 0; j < ndim; j++)\n    max[j] = indexes[j] < 10 ? 10 : indexes[j];\n\n  dimension_numeric(vm','  unsigned max[MAX_DIMENSIONS];\n  for (unsigned j = 0; j < ndim; j++)\n    max[j] = indexes[j] < 10 ? 10 : indexes[0];\n\n  dimension_numeric(vm')],'A(2,15)=7\nPRINT A(2,15)\nB(15,2)=3:PRINT B(15,2)\n')
bug('c04-redim-keep','C04','a second DIM of the same size','DIM of an existing array of the same size keeps the old cells',[(R,'''      if (sym->val.numarr) {
        assert(sym->defined);
        delete_numeric_array(sym->val.numarr);''','''      if (sym->val.numarr) {
        assert(sym->defined);
        if (i->u.param.params == 1 && vm->sp > 0 && sym->val.numarr->size.dimensions == 1 && sym->val.numarr->size.max[0] == vm->stack[vm->sp - 1]) {
          pop(vm);
          break;
        }
        delete_numeric_array(sym->val.numarr);''')],'DIM A(5)\nA(3)=9\nDIM A(5)\nPRINT A(3)\nA(2)=4:DIM A(6):PRINT A(2)\n')
bug('c04-frac-index','C04','a fractional subscript','a fractional subscript is truncated instead of refused',[(R,'if (x < 0 || floor(x) != x)\n    run_error(vm, "non-negative integer was expected to index','if (x < 0)\n    run_error(vm, "non-negative integer was expected to index')],'A(1)=5:PRINT A(1.5)\nPRINT A(1)\nPRINT A(-1)\n')
bug('c04-str-total','C04','a two-dimensional string array and a second subscript beyond its maximum while the first is small','the bounds of the second dimension are not checked separately',[(A,'    if (indexes[i] < p->base || indexes[i] > p->max[i])\n      return false;','    if (indexes[i] < p->base || indexes[i] > (i ? p->elements / 2 : p->max[i]))\n      return false;')],'DIM A$(3,3)\nA$(0,5)="x"\nPRINT A$(1,1);"."\nA$(0,9)="x"\n')
# C05
bug('c05-long-names','C05','two names that agree in their first 20 characters','long names are compared by their first 20 characters',[(Y,'STRICMP(sym->name, name) == 0)\n      return sym;','STRNICMP(sym->name, name, 20) == 0 && (strlen(name) < 20 || string_name(sym->name) == string_name(name)))\n      return sym;'),(Y,'#include <assert.h>','#include <assert.h>\n#include <string.h>')],'ABCDEFGHIJABCDEFGHIJ1=5\nABCDEFGHIJABCDEFGHIJ2=6\nPRINT ABCDEFGHIJABCDEFGHIJ1\nAB=1:AC=2:PRINT AB;AC\n')
bug('c05-hash-case','C05','a name of more than six letters written in different case','letters after the sixth are hashed without folding case',[('Shared/hash.c','  for (const char* p = s; *p; p++)\n    h = hash_in(h, toupper(*p));','  for (const char* p = s; *p; p++)\n    h = hash_in(h, p - s < 9 ? toupper(*p) : *p);')],'TEMPERATURE=5\nPRINT temperature;Temperature\nTEMP=3:PRINT temp\n')
bug('c05-growth','C05','a program with more than 64 names (built-ins included)','growing the symbol table loses the name of its middle entry',[(Y,'    st->psym = erealloc(st->psym, st->allocated * sizeof st->psym[0]);','    st->psym = erealloc(st->psym, st->allocated * sizeof st->psym[0]);\n    if (st->used > 64)\n      sym->next = NULL;')],''.join('V%d=%d\n'%(i,i) for i in range(150))+'PRINT '+';'.join('V%d'%i for i in range(0,30))+'\nPRINT '+';'.join('V%d'%i for i in range(70,100))+'\n'+'PRINT '+';'.join('V%d'%i for i in range(30,60))+'\n')
# C06
bug('c06-tolerance','C06','a limit a hair below a value of the loop','a tolerance lets the loop run past its limit',[(R,'f->step > 0 && x > f->limit || f->step < 0','f->step > 0 && x > f->limit + 1e-6 || f->step < 0')],'FOR I=1 TO 2.9999999:PRINT I:NEXT\n')
bug('c06-restart-order','C06','restarting the variable of an outer loop while an inner one is active','restarting a loop variable does not make it the innermost loop',[(R,'          vm->for_stack[vm->for_sp - 1] = inner;\n          si = vm->for_sp - 1;','          vm->for_stack[vm->for_sp - 1] = inner;\n          if (vm->for_sp > 2) {\n            struct for_loop t = vm->for_stack[0];\n            vm->for_stack[0] = vm->for_stack[1];\n            vm->for_stack[1] = t;\n          }\n          si = vm->for_sp - 1;')],'10 FOR I=1 TO 2:FOR J=1 TO 2:FOR K=1 TO 2:FOR J=5 TO 6\n20 PRINT I;J;K:NEXT:NEXT:NEXT\n30 NEXT\nRUN\n')
bug('c06-pop-inner','C06','ending an outer loop by name while an inner loop is still active','ending a loop also ends the loops started inside it',[(R,'    vm->for_sp--;\n    for (unsigned k = si; k < vm->for_sp; k++)\n      vm->for_stack[k] = vm->for_stack[k + 1];','    vm->for_sp = si;')],'10 FOR I=1 TO 1:FOR J=1 TO 2\n20 PRINT I;J:NEXT I\n30 NEXT J\nRUN\n')
bug('c06-step-zero','C06','STEP 0','a loop with step 0 ends when the value equals the limit',[(R,'f->step < 0 && x < f->limit)','f->step < 0 && x < f->limit || f->step == 0 && x == f->limit)')],'10 N=0:FOR I=1 TO 1 STEP 0:N=N+1:IF N=4 THEN 30\n20 NEXT\n30 PRINT N\nRUN\n')
bug('c06-for-depth','C06','eight nested FOR loops','one loop less than the documented depth is accepted',[(R,'if (vm->for_sp >= MAX_FOR) {','if (vm->for_sp + 1 >= MAX_FOR) {')],''.join('FOR I%d=1 TO 2\n'%i for i in range(8)) if 0 else '10 '+':'.join('FOR I%d=1 TO 1'%i for i in range(8))+'\n20 PRINT "ok"\nRUN\n')
# C07
bug('c07-on-zero','C07','ON with a selector between 0 and 1 exclusive of 1: exactly 0','ON 0 is an error instead of falling through',[(R,'if (x < 1 || x > i->u.count) {','if (x < 0 || x > i->u.count) {')],'10 ON A GOTO 30\n20 PRINT "fell"\n30 PRINT "e"\nRUN\n')
bug('c07-linemap-chain','C07','two line numbers that agree modulo 397','a line is lost when another one has the same hash',[(M,'  node->next = map->hash[h];','  node->next = basic_line > 1000 && map->hash[h] ? map->hash[h]->next : map->hash[h];')],'10 GOTO 804\n407 PRINT 407:END\n804 PRINT 804:GOTO 1201\n1201 PRINT 1201:GOTO 407\nRUN\n10 GOTO 804\n804 GOTO 1201\n1201 GOTO 804\n1201 PRINT "x"\nRUN\n')
bug('c07-gosub-depth','C07','eight nested GOSUBs','the eighth level of GOSUB is refused',[(R,'if (vm->rsp >= MAX_RETURN_STACK)','if (vm->rsp + 1 >= MAX_RETURN_STACK)')],'10 N=N+1:IF N<8 THEN GOSUB 10\n20 PRINT N:RETURN\nRUN\n')
bug('c07-on-huge','C07','an ON selector of 4294967297 or more','the selector wraps around at 32 bits',[(R,'if (x < 1 || x > i->u.count) {','if (x < 1 || (unsigned long long) x % 4294967296ULL > i->u.count) {')],'10 ON 4294967297 GOTO 30\n20 PRINT "fell"\n30 PRINT "e"\nRUN\n')
# C08
bug('c08-int-cond','C08','a condition value between -1 and 1 other than 0, in IF .. THEN line','a fractional condition is taken as false',[(R,'      if (pop(vm)) {\n        go_to_basic_line','      if ((int) pop(vm)) {\n        go_to_basic_line')],'10 IF .5 THEN 30\n20 PRINT "no"\n30 IF 1 THEN 50\n40 PRINT "no2"\n50 PRINT "e"\nRUN\n')
bug('c08-neg-cond','C08','a negative condition value other than -1, IF with ELSE','negative conditions select the ELSE part',[(R,'      if (!pop(vm)) {\n        do {\n          vm->code_state.pc++;\n        } while (vm->code_state.pc < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_ELSE);','      double cond = pop(vm);\n      if (!(cond > 0 || cond == -1)) {\n        do {\n          vm->code_state.pc++;\n        } while (vm->code_state.pc < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_ELSE);')],'IF -2 THEN PRINT "t" ELSE PRINT "f"\nIF 1=1 THEN PRINT "t" ELSE PRINT "f"\n')
bug('c08-if-then-reset','C08','IF with statements followed by an inner IF with line numbers and ELSE','the ELSE of an inner line-number IF is bound to the outer IF',[(P,'    parser->if_then = 0;\n    return false;','    return false;')],'10 A=0:IF A THEN PRINT "x":IF A THEN 30 ELSE 40\n20 PRINT "20"\n30 PRINT "30"\n40 PRINT "40"\nRUN\n5 REM\n10 A=1:B=0:IF A THEN PRINT "x":IF B THEN 30 ELSE 40\nRUN\n')
# C09
bug('c09-tab-equal','C09','TAB to the current column','TAB to the current column starts a new line',[(R,'if (k < vm->col) {','if (k <= vm->col && vm->col > 1) {')],'PRINT "abc";TAB(4);"d"\nPRINT "abc";TAB(5);"d"\n')
bug('c09-newline-char','C09','a string with a line feed character followed by TAB or a comma','a line feed inside a string does not reset the column',[(R,"        if (*S == '\\n')\n          vm->col = 1;\n        else\n          vm->col++;","        vm->col++;")],'PRINT "abc"+CHR$(10)+"x",2\nPRINT "abc",2\n')
bug('c09-num-width','C09','a negative number or one in exponent form before a comma or TAB','the width of a number is counted wrongly when it is in exponent form',[(R,'vm->col += printf(" %g ", pop(vm));','double x = pop(vm);\n      int w = printf(" %g ", x);\n      vm->col += w > 11 ? 11 : w;')],'PRINT -1.23457E-10;"a",2\nPRINT 1234567;"a",2\n')
bug('c09-col-256','C09','more than 255 columns on a line','the column wraps at 256',[(R,'      } while (vm->col % TAB_SIZE != 1);','      } while (vm->col % TAB_SIZE != 1);\n      if (vm->col > 250)\n        vm->col = 1;')],'PRINT SPC(250);1,2;TAB(20);3\nPRINT SPC(20);1,2;TAB(40);3\n')
