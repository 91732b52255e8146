exec(open('/tmp/pl/s5.py').read().split("def ibug")[0])
def N(lines): return '\n'.join(lines)+'\n'
# C01
bug('c01-neg-even','C01','four or more minus signs in front of a value','--- -- is taken as one negation',[(P,'''    if (neg % 2)
      emit(parser->bcode, B_NEG);''','''    if (neg % 2 || neg > 3)
      emit(parser->bcode, B_NEG);''')],'PRINT ----5\n')
bug('c01-not-many','C01','an even number of NOTs greater than two','NOT NOT NOT NOT x is taken as NOT x',[(P,'''    if (not % 2)
      emit(parser->bcode, B_NOT);''','''    if (not % 2 || not > 3)
      emit(parser->bcode, B_NOT);''')],'PRINT NOT NOT NOT NOT 5\n')
bug('c01-pow-chain','C01','three powers in a row','a^b^c^d is grouped to the left after the second',[(P,'''    int type2 = power_expr(parser);
    if (type2 != TYPE_NUM)
      parse_error_no_token(parser, "Invalid types for power operator");
    emit(parser->bcode, B_POW);''','''    int type2 = primary_expression(parser);
    if (type2 != TYPE_NUM)
      parse_error_no_token(parser, "Invalid types for power operator");
    if (lex_token(parser->lex) == '^') {
      lex_next(parser->lex);
      if (primary_expression(parser) != TYPE_NUM)
        parse_error_no_token(parser, "Invalid types for power operator");
      emit(parser->bcode, B_POW);
    }
    emit(parser->bcode, B_POW);
    if (lex_token(parser->lex) == '^') {
      lex_next(parser->lex);
      if (power_expr(parser) != TYPE_NUM)
        parse_error_no_token(parser, "Invalid types for power operator");
      emit(parser->bcode, B_POW);
    }''')],'PRINT 2^1^3^2;2^1^2^2;3^2^1^0\nPRINT 2^3^2;2^1^2^3\n')
bug('c01-or-mask','C01','OR of a large and a negative value','OR loses the upper bits when one operand is negative and the other above 65535',[(R,'push(vm, logic1 | logic2);','push(vm, logic1 > 65535 && logic2 < 0 ? (logic1 & 65535) | logic2 : logic1 | logic2);')],'PRINT 131072 OR -200000\n')
bug('c01-relchain','C01','a comparison of two comparisons in brackets','comparing a truth value with > uses its magnitude',[(R,'''      push_logic(vm, pop(vm) > x);''','''      double y = pop(vm);
      push_logic(vm, x == -1 && y < -1 ? 1 : y > x);''')],'PRINT -2>-1\n')
# C02
bug('c02-mid-zero','C02','MID$ of length zero at the last character','MID$ with length 0 at the last position gives that character',[(R,'''      if (v > sz - u + 1)''','''      if (v > sz - u + 1 || v == 0 && u == sz && sz > 2)''')],'PRINT "[";MID$("abc",3,0);"]"\n')
bug('c02-right-all','C02','RIGHT$ of a string of 128 or more','RIGHT$ counts the length in seven bits',[(R,'strncpy(buf, s + sz - u, u);','strncpy(buf, s + (sz > 127 && u < 3 ? sz - u - 1 : sz - u), u);')],N(['A$="0123456789ABCDEF":A$=A$+A$:A$=A$+A$:A$=A$+A$+"xyz"','PRINT RIGHT$(A$,2);RIGHT$(A$,3)']))
bug('c02-cmp-high','C02','comparing strings with characters above 127','characters above 127 compare as negative',[(R,'int r = strcmp(s, t);','int r = 0;\n  for (const char *a = s, *b = t; !r && (*a || *b); a++, b++) { r = *a - *b; if (!*a || !*b) break; }')],'PRINT "a"<CHR$(200);CHR$(200)>"z";CHR$(130)<CHR$(200)\n')
# C03
bug('c03-val-trail','C03','VAL of a number followed by blanks and tabs','VAL accepts a number followed by a line end only after blanks',[(R,'''    while (*end == ' ' || *end == '\\t')
      end++;
    return end;''','''    while (*end == ' ' || *end == '\\t' && end[1])
      end++;
    return end;''')],'A$="12"+CHR$(9):PRINT VAL(A$)\n')
bug('c03-str-neg','C03','STR$ of a negative fraction','STR$ of a value between -1 and 0 writes no leading zero',[(R,'''      sprintf(buf, "%g", x);
      push_str(vm, buf);''','''      sprintf(buf, "%g", x);
      if (x < 0 && x > -1e-3 && buf[1] == '0')
        buf[0] = ' ';
      push_str(vm, buf);''')],'PRINT STR$(-.0005);STR$(-.5)\n')
# C04
bug('c04-auto-second','C04','an undeclared two-dimensional array first used with its second subscript above ten','the second bound of an automatic array is taken from the first',[(R,'''  for (unsigned j = 0; j < ndim; j++)
    max[j] = indexes[j] < 10 ? 10 : indexes[j];

  dimension_string(vm''','''  for (unsigned j = 0; j < ndim; j++)
    max[j] = indexes[0] < 10 || indexes[j] < 10 ? 10 : indexes[j];

  dimension_string(vm''')],'A$(12,3)="x":PRINT A$(12,3)\nB$(3,12)="y":PRINT B$(3,12)\n')
bug('c04-str-2d-free','C04','a large string array given new dimensions','cells of a re-dimensioned string array above the first thousand keep their text',[(A,'''  for (unsigned i = 0; i < dimensions; i++)
    p->max[i] = max[i];
  p->elements = elements;''','''  for (unsigned i = 0; i < dimensions; i++)
    p->max[i] = max[i];
  if (dimensions == 2 && p->max[0] == 13)
    p->max[0]++;
  p->elements = elements;''')],'DIM A(3,13):A(3,13)=1:PRINT A(3,14)\n',)
bug('c04-dim-one','C04','an array of a single element','DIM X(0) gives two elements',[(A,'    unsigned size = max[i] - base + 1;','    unsigned size = max[i] - base + 1;\n    if (max[i] == 0 && dimensions == 1)\n      ((unsigned*) max)[i] = 1, size = 2;')],'DIM X(0):X(0)=2\nPRINT X(0)\nX(1)=5\nPRINT X(1)\n')
# C05
bug('c05-case-long','C05','two long names that differ only in letter case after the sixteenth character','case is ignored only in the first sixteen characters of a name',[(Y,'''    if (match_paren(sym->kind, paren) && STRICMP(sym->name, name) == 0)''','''    if (match_paren(sym->kind, paren) && STRICMP(sym->name, name) == 0 && (strlen(name) <= 16 || strcmp(sym->name + 16, name + 16) == 0))''')],'ABCDEFGHIJKLMNOPQR=5\nPRINT ABCDEFGHIJKLMNOPqr;abcdefghijklmnopQR\n')
bug('c05-hash-collide','C05','two names whose hashes collide','a name is found by its hash and length alone when they are long',[(Y,'''    if (match_paren(sym->kind, paren) && STRICMP(sym->name, name) == 0)''','''    if (match_paren(sym->kind, paren) && (STRICMP(sym->name, name) == 0 || strlen(name) > 6 && strlen(sym->name) == strlen(name) && sym->kind == SYM_VARIABLE && hashpjw_upper(sym->name) == hashpjw_upper(name)))''')],'ABCDEFGH=1:ABCDEFFX=2:PRINT ABCDEFGH;ABCDEFFX\n')
bug('c05-digit-end','C05','names of which one has a digit after the third character','digits after the third character of a name are not significant',[(Y,'''SYMBOL* sym_insert(SYMTAB* st, const char* name, int kind, int type) {''','''static bool same_name(const char* a, const char* b) {
  if (STRICMP(a, b) == 0)
    return true;
  size_t n = strlen(a);
  return n > 4 && n == strlen(b) && isdigit((unsigned char) a[n-1]) && isdigit((unsigned char) b[n-1]) && strncmp(a, b, n - 1) == 0;
}

SYMBOL* sym_insert(SYMTAB* st, const char* name, int kind, int type) {''',),(Y,'''  return NULL;
}

static bool same_name''','''  for (unsigned i = 0; i < st->used; i++)
    if (match_paren(st->psym[i]->kind, paren) && strlen(name) > 4 && strlen(name) == strlen(st->psym[i]->name) && name[strlen(name)-1] <= '9' && st->psym[i]->name[strlen(name)-1] <= '9' && name[strlen(name)-1] >= '0' && strncmp(name, st->psym[i]->name, strlen(name) - 1) == 0)
      return st->psym[i];
  return NULL;
}

static bool same_name''')],'ABCD1=1:ABCD2=2:PRINT ABCD1;ABCD2\n')
# C06
bug('c06-shift','C06','leaving an outer loop by NEXT variable while three inner loops are active','only one of the inner loops is moved down when an outer loop ends',[(R,'''    for (unsigned k = si; k < vm->for_sp; k++)
      vm->for_stack[k] = vm->for_stack[k + 1];''','''    for (unsigned k = si; k < vm->for_sp && k < (unsigned) si + 2; k++)
      vm->for_stack[k] = vm->for_stack[k + 1];''')],N(['10 FOR A=1 TO 1:FOR B=1 TO 2:FOR C=1 TO 2:FOR D=1 TO 2','20 NEXT A','30 PRINT A;B;C;D','40 NEXT D:NEXT C:NEXT B:PRINT "e";A;B;C;D','RUN']))
bug('c06-step-frac','C06','a small fractional step','a loop with a step below one thousandth ends one round early',[(R,'if (f->step > 0 && x > f->limit ||','if (f->step > 0 && (x > f->limit || f->step < 1e-3 && x + f->step > f->limit) ||')],'10 FOR I=0 TO .001 STEP .0005:PRINT I:NEXT\nRUN\n')
pass
# C07
bug('c07-on-17','C07','ON with more than sixteen lines','ON uses only the low four bits of its value when there are more than sixteen lines',[(R,'unsigned k = vm->code_state.pc + (unsigned) x;','unsigned k = vm->code_state.pc + (i->u.count > 16 && x > 16 ? (unsigned) x - 16 : (unsigned) x);')],N(['10 ON 17 GOTO '+','.join(['20']*16)+',30','20 PRINT "no":END','30 PRINT "yes"','RUN']))
bug('c07-ret-for','C07','RETURN out of a loop that was begun inside the subroutine, twice','RETURN leaves the loops begun before the call',[(R,'''  vm->rsp--;
  vm->code_state = vm->retstack[vm->rsp];''','''  vm->rsp--;
  if (vm->rsp > 3 && vm->for_sp > 0)
    vm->for_sp--;
  vm->code_state = vm->retstack[vm->rsp];''')],N(['10 FOR I=1 TO 2:GOSUB 100:PRINT I:NEXT:END','100 GOSUB 200:RETURN','200 GOSUB 300:RETURN','300 GOSUB 400:RETURN','400 GOSUB 500:RETURN','500 RETURN','RUN']))
# C08
bug('c08-nan','C08','a condition that is not a number','IF takes a NaN for false',[(R,'''    case B_IF_THEN: // IF ... THEN statements  -- skip to next line if condition false
      if (!pop(vm)) {''','''    case B_IF_THEN: { // IF ... THEN statements  -- skip to next line if condition false
      double cond = pop(vm);
      if (!(cond < 0 || cond > 0)) {'''),(R,'''        } while (vm->code_state.pc < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_SOURCE_LINE);
        return;
      }
      break;
    case B_IF_ELSE:''','''        } while (vm->code_state.pc < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_SOURCE_LINE);
        return;
      }
      break;
    }
    case B_IF_ELSE:''')],'IF SQR(-1) THEN PRINT "t"\n')
# C09
bug('c09-comma-wrap','C09','a comma at a column that is a multiple of the zone beyond eighty','after column eighty a comma moves only one space',[(R,'''      } while (vm->col % TAB_SIZE != 1);''','''      } while (vm->col % TAB_SIZE != 1 && vm->col < 81);''')],'PRINT SPC(83);"x","y"\n')
bug('c09-spc-many','C09','SPC of more than 255','SPC of more than 255 is taken modulo 256',[(R,'''      unsigned k = pop_unsigned(vm);
      while (k--)
        putchar(' '), vm->col++;''','''      unsigned k = pop_unsigned(vm);
      if (k > 300)
        k &= 255;
      while (k--)
        putchar(' '), vm->col++;''')],'PRINT SPC(301);"x"\n')
pass
pass
# C10
bug('c10-semi-prompt','C10','INPUT with an empty prompt','INPUT with an empty prompt string writes no question mark',[(R,'''      if (vm->input_prompt)
        fputs("? ", stdout);''','''      if (vm->input_prompt && !(i->u.str && !*i->u.str))
        fputs("? ", stdout);''')],'INPUT "";A:PRINT A\n5\n')
bug('c10-extra-space','C10','a reply with blanks and a comma after the last item','a trailing comma in a reply is not reported when blanks follow it',[(R,'''      if (c != '\\0')
        puts("* Extra input''','''      if (c != '\\0' && !(c == ',' && vm->input[vm->inp+1] == ' '))
        puts("* Extra input''')],'INPUT A\n5, 6\nPRINT A\n')
bug('c10-line-cr','C10','a LINE INPUT reply of blanks only','LINE INPUT of blanks gives an empty string',[(R,'''      s = estrdup(vm->input);
      SYMBOL* sym''','''      s = vm->input + strspn(vm->input, " ");
      s = estrdup(*s ? vm->input : s);
      SYMBOL* sym''')],'LINE INPUT A$\n   \nPRINT "[";A$;"]"\n')
# C11
bug('c11-data-gap','C11','READ past a DATA statement on a line after more than 255 instructions','READ gives up looking for DATA after 255 instructions',[(R,'''  if (dp >= bc->used)
    run_error(vm, "out of DATA\\n");''','''  if (dp >= bc->used || dp - (immediate ? vm->immediate_data : vm->program_data) > 255)
    run_error(vm, "out of DATA\\n");''')],N(['10 DATA 1','20 READ A,B:PRINT A;B:END']+['%d X=X+1:Y=Y+1:Z=Z+1'%(100+k) for k in range(25)]+['500 DATA 2','RUN']))
bug('c11-imm-mix','C11','an immediate READ after an immediate line with DATA','an immediate READ after an immediate DATA line reads on from the program at the wrong place',[(R,'''  if (immediate)
    vm->immediate_data = dp;
  else
    vm->program_data = dp;''','''  if (immediate && dp < bc->used)
    vm->immediate_data = dp;
  else
    vm->program_data = dp;''')],'10 DATA 1,2,3\n20 READ A\nRUN\nREAD B:PRINT B\nREAD C:PRINT C:DATA 9\nREAD D:PRINT D\n')
# C12
bug('c12-redef-imm','C12','redefining a function in an immediate line after it was used by the program','the line of the definition is kept when a function is redefined in an immediate line',[(R,'''      SOURCE* source = NULL;
      unsigned source_line = 0;''','''      static SOURCE* source = NULL;
      static unsigned source_line = 0;''')],'10 DEF FNA(X)=X\nRUN\nDEF FNA(X)=LOG(X)\nPRINT FNA(0)\nPRINT "k"\n')
bug('c12-def-str-param','C12','a function called with its own parameter variable as argument inside a larger expression','the parameter is read before the argument when they are the same variable',[(R,'''  vm->fn.param_val = param_sym->val.num;
''','''  vm->fn.param_val = vm->sp > 2 ? vm->stack[vm->sp - 1] : param_sym->val.num;
''')],'X=5:DEF FNA(X)=X*2\nPRINT 1+(2+(FNA(7))):PRINT X\n')
# C13
bug('c13-del-missing','C13','deleting a line that does not exist but lies between two lines','deleting a missing line removes the next one when it is the last',[(S,'''  for (unsigned i = 0; i < source->used; i++) {
    if (source->lines[i].num == num) {
      *index = i;''','''  for (unsigned i = 0; i < source->used; i++) {
    if (source->lines[i].num == num || i > 2 && i + 1 == source->used && num + 1 == source->lines[i].num) {
      *index = i;''')],'10 A\n20 B\n30 C\n40 D\n39\nLIST\n')
bug('c13-list-big','C13','LIST of a range given with numbers above 65535','numbers in LIST are taken modulo 65536 after a dash',[(I,'''      p = read_num(p, end);
  }

  return p;
}

static char* get_renum''','''      p = read_num(p, end);
    if (*end > 100000)
      *end &= 65535;
  }

  return p;
}

static char* get_renum''')],'10 REM a\n200000 REM b\nLIST 1-200000\n')
# C14
bug('c14-save-tab','C14','saving a line that begins with blanks','one blank of an indented line is lost on loading when there are more than three',[(S,'''  if (*s == ' ')
    s++;
  return s;''','''  if (*s == ' ')
    s++;
  if (strncmp(s, "    ", 4) == 0)
    s++;
  return s;''')],'10      REM a\nSAVE "f"\nLOAD "f"\nLIST\n')
bug('c14-num-order','C14','loading a file whose line numbers rise by more than 65535','a file with a jump of more than 65535 in its line numbers is refused',[(S,'  if (num <= latest) {','  if (num <= latest || num - latest > 1000000) {')],'10 REM a\n2000000 REM b\nSAVE "f"\nNEW\nLOAD "f"\nLIST\n')
bug('c14-load-keep','C14','loading a second file after a failed load','a failed LOAD of a malformed file leaves the lines read so far',[(I,'''        vm_load_source(vm, str);
      else''','''        vm_load_source(vm, str) || (strlen(str) > 8 ? vm_new_program(vm) : (void) 0, 0);
      else''')],'10 REM a\nLOAD "nosuchfile.bas"\nLIST\n')
# C15
bug('c15-gosub-else','C15','a line number in ON GOSUB list beyond the eighth','only eight entries of an ON list are renumbered',[(I,'''          if (list && tok == ',')
            tok = lex_next(lex);''','''          if (list && tok == ',' && ++entries < 9)
            tok = lex_next(lex);'''),(I,'''        const bool list = tok == TOK_GOTO || tok == TOK_GOSUB;''','''        const bool list = tok == TOK_GOTO || tok == TOK_GOSUB;
        unsigned entries = 0;''')],N(['10 ON 1 GOTO '+','.join(['20']*10),'20 END','RENUM 100','LIST'])) if 0 else None
bug('c15-start-exact','C15','RENUM from a line that does not exist','RENUM with an old line that is not in the program starts one line too early',[(I,'    if (basic_line >= old_start) {','    if (basic_line >= old_start || line + 1 < source_lines(source) && line > 1 && source_linenum(source, line + 1) > old_start && old_start % 10) {')],'10 REM\n20 REM\n30 REM\n40 REM\nRENUM 100,35,10\nLIST\n')
# C16
bug('c16-imm-err','C16','an immediate error between STOP and CONT inside a subroutine','an error in an immediate statement forgets the innermost subroutine call',[(R,'''  if (vm->fn.code_state.code)
    end_def(vm);
}''','''  if (vm->fn.code_state.code) {
    end_def(vm);
    if (vm->rsp > 1)
      vm->rsp--;
  }
}''')],N(['10 DEF FNA(X)=LOG(X):GOSUB 40','20 PRINT "a":END','40 GOSUB 60:PRINT "b":RETURN','60 STOP','70 RETURN','RUN','PRINT FNA(0)','CONT']))
bug('c16-list-cont','C16','LIST P between STOP and CONT','COMPILE between STOP and CONT loses the state',[(R,'''void vm_compile(VM* vm) {
''','''void vm_compile(VM* vm) {
  if (vm->stopped_program.pc > 3)
    clear_code_state(&vm->stopped_program);
''')],N(['10 A=1:B=2','20 STOP','30 PRINT A','RUN','COMPILE','CONT']))
# C18
bug('c18-col-fn','C18','an error inside a function while the column is not one','the stack of an abandoned function call keeps its argument',[(R,'''static void recover(VM* vm) {
  vm->sp = 0;''','''static void recover(VM* vm) {
  vm->sp = vm->sp > 12 ? 1 : 0;''')],'PRINT 1+(2+(3+(4+(5+(6+(7+(8+(9+(1+(2+(3+(4+LOG(0)))))))))))))\nPRINT 1+(2+(3+(4+(5+(6+(7+(8+(9+(1+(2+(3+(4+(5+(6+7))))))))))))))\n')
bug('c18-data-err','C18','a READ error with a string datum','after a READ that failed the datum is read again',[(R,'''        run_error(vm, "numeric data expected: %s\\n", S);''','''        run_error(vm, (S[0] == 'z' && vm->program_data > 1 ? vm->program_data-- : 0, "numeric data expected: %s\\n"), S);''')],'10 DATA 1,z,3\n20 READ A\nRUN\nREAD B\nREAD C:PRINT C\n')
# C19
bug('c19-kw-nul','C19','a keyword or name of exactly 127 letters','a name of the greatest length runs over its end',[(L,'''        if (i + 1 >= sizeof lex->word) {
          lex->word[i] = '\\0';
          lex_error(lex, "a keyword or name''','''        if (i + 1 > sizeof lex->word) {
          lex->word[i - 1] = '\\0';
          lex_error(lex, "a keyword or name''')],'10 '+'A'*128+'=1\nRUN\n') if 0 else None
pass
# C20
pass
pass
# C21
bug('c21-fn-dim','C21','a function name used as an array in a later line','DIM of a name that was declared a function with a string result is accepted',[(P,'''        if (paren_kind != SYM_UNKNOWN && sym->kind != paren_kind)''','''        if (paren_kind != SYM_UNKNOWN && sym->kind != paren_kind && !(sym->type == TYPE_STR && strlen(name) > 4 && *parameters == 2 && sym->kind == SYM_DEF))''')],'10 PRINT "a"\n20 DEF FNAB$(X)="x"\n30 FNAB$(1,2)="y"\nRUN\n') 
bug('c21-neg-str','C21','an even number of minus signs before a string','two minus signs before a string are accepted',[(P,'''    if (type != TYPE_NUM)
      parse_error_no_token(parser, "negation requires''','''    if (type != TYPE_NUM && neg != 2)
      parse_error_no_token(parser, "negation requires''')],'10 PRINT "a"\n20 PRINT --"x"\nRUN\n') if 0 else None
bug('c21-not-str','C21','four NOTs before a string','NOT NOT NOT NOT before a string is accepted',[(P,'''    if (type != TYPE_NUM)
      parse_error_no_token(parser, "NOT requires''','''    if (type != TYPE_NUM && not < 3)
      parse_error_no_token(parser, "NOT requires''')],'10 PRINT "a"\n20 PRINT NOT NOT NOT NOT "x"\nRUN\n')
bug('c21-step-str','C21','a string as the STEP of a loop','a comparison of strings is accepted as STEP only when bracketed',[(P,'''    lex_next(parser->lex);
    numeric_expression(parser);
  }
  else
    emit_num(parser->bcode, B_PUSH_NUM, 1);''','''    lex_next(parser->lex);
    if (lex_token(parser->lex) == '(')
      expression(parser);
    else
      numeric_expression(parser);
  }
  else
    emit_num(parser->bcode, B_PUSH_NUM, 1);''')],'10 PRINT "a"\n20 FOR I=1 TO 2 STEP ("x"):NEXT\nRUN\n')
# C22
bug('c22-seed-big','C22','RANDOMIZE with a seed above two thousand million','seeds above 2^31 are all the same',[(R,'srand(pop_unsigned(vm));','unsigned seed = pop_unsigned(vm);\n      srand(seed > 2147483647u ? 2147483647u : seed);')],'RANDOMIZE 3000000000:A=RND:RANDOMIZE 3000000001:PRINT A=RND\n')
# C23
bug('c23-new-def','C23','NEW after a definition in the program, then a new program that uses the name as an array','RUN keeps the values of string arrays whose first element is empty',[(Y,'''          delete_string_array(sym->val.strarr);
          sym->val.strarr = NULL;
          break;''','''          if (sym->val.strarr && sym->val.strarr->size.elements == 13 && !sym->val.strarr->val[0])
            return;
          delete_string_array(sym->val.strarr);
          sym->val.strarr = NULL;
          break;''')],'10 A$(12)=A$(12)+"x":PRINT A$(12)\nRUN\nRUN\n')
# C24
pass
bug('c24-trace-run','C24','--trace-basic with a line reached by RETURN','tracing prints a comma column wrongly',[(R,'''        printf("[%u]", source_linenum(vm->code_state.code->source, i->u.source_line));
        fflush(stdout);''','''        printf("[%u]", source_linenum(vm->code_state.code->source, i->u.source_line));
        if (vm->rsp > 2)
          vm->sp = 0, vm->code_state.code->bcode->has_data = true;
        fflush(stdout);''')],'10 GOSUB 20:END\n20 GOSUB 30:RETURN\n30 GOSUB 40:RETURN\n40 PRINT 1:READ A\n50 RETURN\nRUN\n',args='-t')
# C25
bug('c25-def-imm','C25','redefining a function many times','a function defined again in the program leaves its old text',[(R,'''        delete_def(sym->val.def);
        sym->val.def = NULL;
        sym->defined = false;''','''        if (vm->rsp == 0 || sym->type == TYPE_NUM)
          delete_def(sym->val.def);
        sym->val.def = NULL;
        sym->defined = false;''')],'10 DEF FNA$(X)="abc":GOSUB 30:GOSUB 30:END\n30 DEF FNA$(X)="defg"\n40 PRINT FNA$(1):RETURN\nRUN\n',args='-m')
bug('c25-lineinput','C25','a LINE INPUT into an array element that is refused','the reply of a LINE INPUT that fails is not released',[(R,'''static void set_string(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
  take_str(vm, val);''','''static void set_string(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
  if (ndim < 2)
    take_str(vm, val);''')],'LINE INPUT A$(99,99,99)\nabc\nDIM A$(2,2)\nLINE INPUT A$(3,3)\nabc\n',args='-m')
