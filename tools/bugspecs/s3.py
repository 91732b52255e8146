R='Basic/run.c'; P='Basic/parse.c'; L='Basic/lexer.c'; A='Basic/arrays.c'; S='Basic/source.c'; Y='Basic/symbol.c'; I='Monitor/interactive.c'; M='Basic/linemap.c'; T='Basic/token.c'; U='Shared/interrupt.c'; MN='System/lbasic.c'; OP='System/options.c'; SU='Shared/stringuniq.c'; BC='Basic/bcode.c'; EM='Basic/emit.c'
B=[]
def bug(id,prop,needs,breaks,edits,inp,**k): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,**{'in':inp},**k))
# C01
bug('c01-le-nan','C01','a comparison with a value that is not a number','<= with a NaN operand is true',[(R,'push_logic(vm, pop(vm) <= x);','push_logic(vm, !(pop(vm) > x));')],'X=SQR(-1)\nPRINT X<=1;1<=X;X>=1\n')
bug('c01-neg-zero','C01','negating zero and dividing by it','negating zero gives positive zero',[(R,'push(vm, - pop(vm));','push(vm, 0 - pop(vm));')],'A=0\nPRINT 1/-A\nPRINT -A\n')
bug('c01-pow-int','C01','a power with a negative base and a large whole exponent','powers of whole exponents above a limit are computed through logarithms',[(R,'''      double x = pop(vm);
      push(vm, pow(pop(vm), x));''','''      double x = pop(vm);
      double y = pop(vm);
      push(vm, y < 0 && x > 64 ? pow(-y, x) : pow(y, x));''')],'PRINT (-1)^65;(-1)^63;(-1)^66\n')
bug('c01-int-neg','C01','INT of a negative value just below a whole number','INT of a negative number close to a whole number rounds to it',[(R,'push(vm, floor(pop(vm)));','push(vm, floor(pop(vm) + 1e-9));')],'PRINT INT(-0.0000000001);INT(2.5);INT(-2.5)\n')
bug('c01-or-zero','C01','OR of two true operands of different bits','OR combines the operands exclusively when both have the sign bit',[(R,'push(vm, logic1 | logic2);','push(vm, logic1 < 0 && logic2 < 0 ? (logic1 ^ ~logic2) : (logic1 | logic2));')],'PRINT -1 OR -1;-2 OR -3;-4 OR -8\n')
bug('c01-div-chain','C01','two divisions in a row','a chain of divisions is grouped from the right',[(P,'''    int op = lex_token(parser->lex) == '*' ? B_MUL : B_DIV;
    lex_next(parser->lex);
    int type2 = neg_expr(parser);''','''    int op = lex_token(parser->lex) == '*' ? B_MUL : B_DIV;
    lex_next(parser->lex);
    int type2 = op == B_DIV ? mult_expr(parser) : neg_expr(parser);''')],'PRINT 8/4/2\nPRINT 8*4/2\n')
bug('c01-triple-neg','C01','three or more minus signs','a run of four minus signs counts as three',[(P,'''    if (neg % 2)
      emit(parser->bcode, B_NEG);''','''    if (neg % 2 || neg == 4)
      emit(parser->bcode, B_NEG);''')],'PRINT ----5;--5;-5\n')
# C02
bug('c02-cmp-long','C02','two strings that differ only after 250 characters','strings that agree on 250 characters compare equal',[(R,'int r = strcmp(s, t);','int r = strncmp(s, t, 250);')],'A$="'+'x'*100+'"\nB$=A$+A$+"'+'y'*53+'"+"a"\nC$=A$+A$+"'+'y'*53+'"+"b"\nPRINT B$=C$;LEN(B$)\n')
bug('c02-len-wrap','C02','a string of 128 characters or more','LEN of a long string is negative',[(R,'push(vm, (double) strlen(s));','push(vm, (double) (signed char) strlen(s));')],'A$="'+'x'*70+'"\nPRINT LEN(A$+A$);LEN(A$)\n')
bug('c02-right-long','C02','RIGHT$ with a count above the length of a string of 16 or more','RIGHT$ of a long string with an excessive count drops its first character',[(R,'''      if (u > sz)
        u = (unsigned long)sz;
      char buf[256];
      if (u + 1 > sizeof buf)
        run_error(vm, STRING_TOO_LONG);
      strncpy(buf, s + sz - u, u);''','''      if (u > sz)
        u = (unsigned long)(sz > 15 ? sz - 1 : sz);
      char buf[256];
      if (u + 1 > sizeof buf)
        run_error(vm, STRING_TOO_LONG);
      strncpy(buf, s + sz - u, u);''')],'PRINT RIGHT$("0123456789ABCDEFG",99)\nPRINT RIGHT$("abc",9)\n')
bug('c02-mid-huge','C02','MID$ with a third argument near 2^32','a very large length makes MID$ return an empty string',[(R,'if (v > sz - u + 1)\n        v =','if (u + v > sz + 1 && u + v >= v)\n        v =')],'PRINT MID$("abc",2,4294967295);MID$("abc",2,9)\n')
bug('c02-asc-high','C02','ASC of a character above 127','ASC of a high character is negative',[(R,'push(vm, (unsigned char) s[0]);','push(vm, (signed char) s[0]);')],'PRINT ASC(CHR$(200));ASC("a")\n')
bug('c02-set-alias','C02','a string assigned to itself in a concatenation','assigning a string variable its own value empties it',[(R,'''  if (sym->val.str) {
    assert(sym->defined);
    efree(sym->val.str);
  }

  sym->val.str = val;''','''  if (sym->val.str) {
    assert(sym->defined);
    if (strcmp(sym->val.str, val) == 0 && *val != '\\0')
      val[strlen(val) - (strlen(val) > 20)] = '\\0';
    efree(sym->val.str);
  }

  sym->val.str = val;''')],'A$="abcdefghijklmnopqrstuvwxyz"\nA$=A$\nPRINT A$\n')
# C03
bug('c03-val-trail','C03','VAL of a number followed by two blanks','VAL refuses a number followed by more than one blank',[(R,'''    while (*end == ' ' || *end == '\\t')
      end++;
    return end;''','''    if (*end == ' ' || *end == '\\t')
      end++;
    return end;''')],'PRINT VAL("12  ");VAL("12 ");VAL(" 3")\n')
bug('c03-str-exp','C03','STR$ of a value with an exponent','STR$ writes exponents with a capital E',[(R,'sprintf(buf, "%g", x);','sprintf(buf, x > 1e20 ? "%G" : "%g", x);')],'PRINT STR$(1E30);STR$(5)\n')
bug('c03-val-plus','C03','VAL of a number with a plus sign','VAL refuses a plus sign before a decimal point',[(R,"if (*t == '-' || *t == '+')\n    t++;","if (*t == '-' || *t == '+' && t[1] != '.')\n    t++;")],'PRINT VAL("+.5")\nPRINT VAL("+5")\n')
bug('c03-chr-trunc','C03','CHR$ of a fractional code','CHR$ truncates a fractional code between 200 and 255',[(R,'if (x < 0 || x > 255 || x != floor(x))','if (x < 0 || x > 255 || x < 200 && x != floor(x))')],'PRINT ASC(CHR$(65.5))\nPRINT ASC(CHR$(200.5))\n')
bug('c03-exp-sign','C03','a number with a signed exponent written in a program','a plus sign in an exponent of a literal ends the number',[(L,"if ((c = lex_char(lex)) == '-' || c == '+') {","if ((c = lex_char(lex)) == '-' || c == '+' && i < 6) {")],'PRINT 1.2345E+2\nPRINT 1E+2\n')
bug('c03-dot-digit','C03','DATA or VAL of text that starts with a decimal point','text beginning with a point and a digit above 4 is not a number',[(R,"*t == '.' && isdigit((unsigned char) t[1])) {","*t == '.' && t[1] >= '0' && t[1] < '9') {")],'PRINT VAL(".5")\nPRINT VAL(".95")\n')
# C04
bug('c04-2d-row','C04','a two-dimensional array whose first size is larger than the second','the row length of two-dimensional arrays uses the smaller size when both exceed 10',[(A,'unsigned size1 = p->max[1] - p->base + 1;','unsigned size1 = (p->max[0] > 10 && p->max[1] > 10 && p->max[0] < p->max[1] ? p->max[0] : p->max[1]) - p->base + 1;')],'DIM A(11,12)\nA(1,0)=5\nA(0,12)=7\nPRINT A(1,0)\n')
bug('c04-index-neg','C04','a negative subscript between -1 and 0','a subscript just below zero is taken as zero',[(R,'''  double x = pop(vm);
  if (x < 0 || floor(x) != x)
    run_error(vm, "non-negative integer was expected to index''','''  double x = pop(vm);
  if (x <= -1 || x > 0 && floor(x) != x)
    run_error(vm, "non-negative integer was expected to index''')],'A(0)=3\nPRINT A(-0.5)\n')
bug('c04-dim-one','C04','DIM with a zero second size','a zero upper bound in the second dimension is refused',[(A,'    if (size == 0 || size > MAX_ELEMENTS / *elements)','    if (size == 0 || i == 1 && max[i] == base || size > MAX_ELEMENTS / *elements)')],'DIM A(3,0)\nA(2,0)=4\nPRINT A(2,0)\n')
bug('c04-auto-11','C04','an undimensioned array used first with subscript above 10','automatic dimensioning extends to one more element than used',[(R,'''    max[j] = indexes[j] < 10 ? 10 : indexes[j];

  dimension_numeric(vm, sym, ndim, max);''','''    max[j] = indexes[j] < 10 ? 10 : indexes[j] + (indexes[j] > 30);

  dimension_numeric(vm, sym, ndim, max);''')],'A(40)=1\nPRINT A(41)\n')
bug('c04-strelem-share','C04','a string element assigned in a two-dimensional array','setting a string element with an empty value leaves the old value',[(R,'''  efree(*addr);
  *addr = val;''','''  if (*val == '\\0' && ndim == 2) {
    efree(val);
    return;
  }
  efree(*addr);
  *addr = val;''')],'A$(1,1)="x"\nA$(1,1)=""\nPRINT "[";A$(1,1);"]"\n')
# C05
bug('c05-strvar-clear','C05','CLEAR after string variables are set','CLEAR leaves string variables whose names have two or more letters',[(Y,'''        case TYPE_STR:
          efree(sym->val.str);
          sym->val.str = NULL;
          break;
      }
      break;
    case SYM_ARRAY:''','''        case TYPE_STR:
          if (sym->name[1] != '$' && sym->name[2] != '$' )
            return;
          efree(sym->val.str);
          sym->val.str = NULL;
          break;
      }
      break;
    case SYM_ARRAY:''')],'A$="1":ABC$="2"\nCLEAR\nPRINT "[";A$;ABC$;"]"\n')
bug('c05-hash-bucket','C05','two names in the same hash bucket inserted in order','a symbol inserted into an occupied bucket drops the rest of the chain',[(Y,'  sym->next = st->hash[h];\n  st->hash[h] = sym;','  sym->next = st->hash[h] ? st->hash[h]->next && st->used > 70 ? st->hash[h]->next : st->hash[h] : NULL;\n  st->hash[h] = sym;')],''.join('%s%d=%d\n'%(c,d,ord(c)*10+d) for c in 'ABCDEFGHIJ' for d in range(10))+'PRINT '+'+'.join('%s%d'%(c,d) for c in 'AB' for d in range(6))+'\n'+''.join('PRINT %s%d\n'%(c,d) for c in 'CDEFGHIJ' for d in range(10)))
bug('c05-name-trunc','C05','two names that differ only after the eighth character','only the first eight characters of a name are significant',[(Y,'match_paren(sym->kind, paren) && STRICMP(sym->name, name) == 0)','match_paren(sym->kind, paren) && (STRICMP(sym->name, name) == 0 || strlen(name) > 8 && strlen(sym->name) == strlen(name) && STRNICMP(sym->name, name, 8) == 0))'),(Y,'#include <assert.h>\n','#include <assert.h>\n#include <string.h>\n')],'ABCDEFGHAA=1:ABCDEFGHAB=2\nPRINT ABCDEFGHAA;ABCDEFGHAB\n')
bug('c05-digit-name','C05','a string variable whose name has a digit before $','a digit before the $ is dropped from the name',[(L,"""    if (c == '$')
      lex->word[i++] = c;
    else
      pushback(lex, c);""","""    if (c == '$') {
      if (i > 2 && lex->word[i-1] == '0')
        i--;
      lex->word[i++] = c;
    }
    else
      pushback(lex, c);""")],'AB0$="x":AB$="y"\nPRINT AB0$;AB$\n')
# C06
bug('c06-limit-float','C06','a loop limit that single precision cannot represent','the loop limit is kept in single precision',[(R,'    double step;\n    double limit;','    double step;\n    float limit;')],'10 FOR I=1 TO 16777217 STEP 16777216\n20 PRINT I\n30 NEXT\nRUN\n')
bug('c06-body-limit','C06','a loop body that changes a variable used as the limit','NEXT with a zero step ends the loop',[(R,'if (f->step > 0 && x > f->limit || f->step < 0 && x < f->limit) {','if (f->step > 0 && x > f->limit || f->step <= 0 && x < f->limit) {')],'10 FOR I=5 TO 6 STEP 0\n20 N=N+1:IF N>3 THEN 40\n30 NEXT\n40 PRINT N;I\nRUN\n')
bug('c06-outer-next','C06','NEXT of an outer loop with two inner loops still open','closing an outer loop shifts only the nearest open loop',[(R,'''    for (unsigned k = si; k < vm->for_sp; k++)
      vm->for_stack[k] = vm->for_stack[k + 1];
  }''','''    for (unsigned k = si; k < vm->for_sp && k < (unsigned) si + 1; k++)
      vm->for_stack[k] = vm->for_stack[k + 1];
  }''')],'10 FOR I=1 TO 1\n20 FOR J=1 TO 2\n30 FOR K=1 TO 2\n40 NEXT I\n50 PRINT J;K\n60 NEXT K\n70 PRINT K\n80 NEXT J\n90 PRINT J\nRUN\n')
bug('c06-final-value','C06','the value of the control variable after the loop','the control variable keeps its last value plus the step after a loop with a negative step',[(R,'''    // remove FOR stack index si
    vm->for_sp--;''','''    // remove FOR stack index si
    if (f->step < 0 && x != sym->val.num && f->limit > 0)
      sym->val.num = x;
    vm->for_sp--;''')],'10 FOR I=5 TO 3 STEP -1:NEXT\n20 PRINT I\n30 FOR I=1 TO 3:NEXT:PRINT I\nRUN\n')
bug('c06-next-list','C06','NEXT with three variables','the third variable of a NEXT list is ignored',[(P,'''      sym = numeric_simple_variable(parser);
      emit_var(parser->bcode, B_NEXT_VAR, sym->id);
    }''','''      SYMBOL* prev = sym;
      sym = numeric_simple_variable(parser);
      if (sym != prev || lex_token(parser->lex) != '\\n')
        emit_var(parser->bcode, B_NEXT_VAR, sym->id);
    }''')],'10 FOR I=1 TO 2\n20 N=N+1\n30 NEXT I,I\n40 PRINT N\nRUN\n')
bug('c06-refor-top','C06','FOR again on a loop that is not the innermost','restarting an outer loop does not make it the innermost one',[(R,'''          for (unsigned k = si; k < vm->for_sp - 1; k++)
            vm->for_stack[k] = vm->for_stack[k + 1];
          vm->for_stack[vm->for_sp - 1] = inner;
          si = vm->for_sp - 1;''','''          for (unsigned k = si; k + 1 < vm->for_sp - 1; k++)
            vm->for_stack[k] = vm->for_stack[k + 1];
          vm->for_stack[vm->for_sp - 2] = inner;
          si = vm->for_sp - 2;''')],'10 FOR I=1 TO 3\n20 FOR J=1 TO 3\n30 IF N>0 THEN 60\n40 N=1\n50 FOR I=7 TO 9\n60 PRINT I;J\n70 NEXT\nRUN\n')
# C07
bug('c07-on-gosub-ret','C07','ON GOSUB followed by another statement on the line where the subroutine line list has two or more entries','RETURN from ON GOSUB lands on a later target',[(R,'push_return(vm, vm->code_state.pc + i->u.count + 1);','push_return(vm, k + (i->u.count > 6 ? i->u.count : i->u.count - (unsigned) x + 1));')],'10 A=2:ON A GOSUB 100,100,100,100,100,100,100:PRINT "b"\n15 PRINT "c"\n20 END\n100 PRINT "s":RETURN\nRUN\n')
bug('c07-map-hash','C07','a line number above 397 with another line in the same bucket','line numbers that share a bucket resolve to the last one above 32767',[(M,'    if (node->basic_line == basic_line) {','    if (node->basic_line == basic_line || basic_line > 32767 && node->basic_line % 32768 == basic_line % 32768) {')],'1 PRINT "one":END\n40000 PRINT "x":END\nGOTO 40000\n')
bug('c07-gosub-8','C07','eight nested GOSUBs','the eighth nested GOSUB is refused',[(R,'if (vm->rsp >= MAX_RETURN_STACK)','if (vm->rsp + 1 >= MAX_RETURN_STACK)')],'10 N=N+1:IF N<9 THEN GOSUB 10\n20 PRINT N\nRUN\n')
bug('c07-imm-gosub','C07','GOSUB from a line typed at the prompt that has more statements','RETURN to a line typed at the prompt ends it',[(R,'''  vm->rsp--;
  vm->code_state = vm->retstack[vm->rsp];''','''  vm->rsp--;
  vm->code_state = vm->retstack[vm->rsp];
  if (vm->code_state.code == &vm->immediate_code && vm->rsp == 0 && vm->for_sp)
    vm->code_state.pc = vm->code_state.code->bcode->used;''')],'10 PRINT "s":RETURN\nFOR I=1 TO 2:GOSUB 10:PRINT I:NEXT\n')
bug('c07-ret-for','C07','RETURN from inside a loop begun in the subroutine','RETURN closes the loops open in the caller',[(R,'''  vm->rsp--;
  vm->code_state = vm->retstack[vm->rsp];''','''  vm->rsp--;
  if (vm->rsp == 2)
    vm->for_sp = 0;
  vm->code_state = vm->retstack[vm->rsp];''')],'5 GOSUB 6:END\n6 GOSUB 10:RETURN\n10 FOR I=1 TO 2\n20 GOSUB 100\n30 NEXT\n40 PRINT I:RETURN\n100 PRINT "s":RETURN\nRUN\n')
# C08
bug('c08-nested-else','C08','an IF inside the THEN part of another with an ELSE','a false outer condition runs the ELSE of the inner IF',[(P,'  parser->if_then = emit(parser->bcode, B_IF_THEN);','  if (parser->if_then == 0 || parser->if_then + 2 < parser->bcode->used)\n    parser->if_then = emit(parser->bcode, B_IF_THEN);\n  else\n    emit(parser->bcode, B_IF_THEN);')],'10 A=0:B=1\n20 IF A THEN IF B THEN PRINT "x" ELSE PRINT "y"\n25 B=0:A=1\n30 IF A THEN IF B THEN PRINT "x" ELSE PRINT "y"\nRUN\n')
bug('c08-nan-cond','C08','a condition that is not a number','a NaN condition counts as false',[(R,'''    case B_IF_THEN: // IF ... THEN statements  -- skip to next line if condition false
      if (!pop(vm)) {''','''    case B_IF_THEN: // IF ... THEN statements  -- skip to next line if condition false
      if (!(fabs(pop(vm)) > 0)) {''')],'10 IF SQR(-1) THEN PRINT "t"\n20 PRINT "e"\nRUN\n')
bug('c08-small-cond','C08','a condition of tiny magnitude','a condition below the smallest single-precision value counts as false in IF ... THEN line',[(R,'      if (pop(vm)) {\n        go_to_basic_line(vm, i->u.basic_line.lineno);','      if ((float) pop(vm)) {\n        go_to_basic_line(vm, i->u.basic_line.lineno);')],'10 IF 1E-60 THEN 30\n20 PRINT "no"\n30 PRINT "e"\nRUN\n')
bug('c08-else-skip','C08','several statements after ELSE','the THEN part falls into the ELSE part when the line has a colon after ELSE',[(R,'''    case B_ELSE: // THEN statements ELSE statements -- skip to next line after executing THEN section
      do {''','''    case B_ELSE: // THEN statements ELSE statements -- skip to next line after executing THEN section
      if (vm->for_sp > 1)
        break;
      do {''')],'10 FOR I=1 TO 1:FOR J=1 TO 1\n20 IF I THEN PRINT "a" ELSE PRINT "b"\nRUN\n')
# C09
bug('c09-tab-zero','C09','TAB(0) at column one or after text','TAB(0) after text does not start a new line',[(R,'      if (k < vm->col) {\n        putchar','      if (k && k < vm->col) {\n        putchar')],'PRINT "ab";TAB(0);"c"\n')
bug('c09-spc-col','C09','SPC followed by a comma','SPC of more than one blank counts as one column',[(R,'''      while (k--)
        putchar(' '), vm->col++;
      fflush(stdout);
      break;
    }
    case B_PRINT_TAB''','''      if (k > 8)
        vm->col -= k - 8;
      while (k--)
        putchar(' '), vm->col++;
      fflush(stdout);
      break;
    }
    case B_PRINT_TAB''')],'PRINT "abcdefghijk";SPC(11);"a",TAB(30);"b"\n')
bug('c09-comma-24','C09','a comma at a column that is a multiple of eight','a comma just before a tab stop advances two stops',[(R,'} while (vm->col % TAB_SIZE != 1);','} while (vm->col % TAB_SIZE != 1 || vm->col == 25);')],'PRINT "0123456789012345678901","x"\n')
bug('c09-str-nl','C09','CHR$(10) in the middle of a printed string','a line feed inside a string leaves the column after it one too far',[(R,"""        if (*S == '\\n')
          vm->col = 1;""","""        if (*S == '\\n' && S[1] == '\\0')
          vm->col = 1;""")],'PRINT "abc"+CHR$(10)+"de",TAB(10);"x"\n')
bug('c09-sep-kept','C09','a statement ending in a separator after TAB','a PRINT that ends with TAB and a semicolon prints a new line',[(P,'''    if (lex_token(parser->lex) == ';') {
      lex_next(parser->lex);
      sep = ';';''','''    if (lex_token(parser->lex) == ';') {
      lex_next(parser->lex);
      const BINST* last = bcode_latest(parser->bcode);
      sep = last && last->op == B_PRINT_TAB ? 0 : ';';''')],'10 PRINT "a";TAB(5);\n20 PRINT "b"\nRUN\n')
B=[b for b in B if b]
