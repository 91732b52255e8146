import subprocess, os, tempfile
R='Basic/run.c'; P='Basic/parse.c'; L='Basic/lexer.c'; A='Basic/arrays.c'; S='Basic/source.c'; Y='Basic/symbol.c'; I='Monitor/interactive.c'; M='Basic/linemap.c'; T='Basic/token.c'; U='Shared/interrupt.c'; MN='System/lbasic.c'; OP='System/options.c'; SU='Shared/stringuniq.c'; BC='Basic/bcode.c'; EM='Basic/emit.c'; SL='Shared/stringlist.c'; BI='Basic/builtin.c'
B=[]
def bug(id,prop,needs,breaks,edits,inp,**k): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,**{'in':inp},**k))
INTC='''#include <signal.h>
/* stand-in for the library's sin: an interrupt arrives during SIN(7); otherwise SIN(x) is x */
double sin(double x) { if (x == 7) raise(SIGINT); return x; }
'''
HEAD='''#!/bin/bash
# Runs a session in which an interrupt arrives during each evaluation of SIN(7) (see int.c).
here=$(cd "$(dirname "$0")" && pwd)
exe=$PWD/_build/main/Debug/LegacyBasic
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
gcc -fno-builtin -shared -fPIC -o "$d/int.so" "$here/int.c" || exit 1
cd "$d"
ulimit -f 20000 -c 0
LD_PRELOAD="$d/int.so" timeout 20 "$exe" -q < "$here/input.txt" > "$d/.out" 2>&1
echo "exit $?" >> "$d/.out"
'''
def ibug(id,needs,breaks,edits,inp):
    d=tempfile.mkdtemp()
    open(d+'/int.c','w').write(INTC); open(d+'/input.txt','w').write(inp); open(d+'/demo.sh','w').write(HEAD+'cp "$d/.out" "$here/expected.out"\n')
    subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',check=True)
    exp=open(d+'/expected.out').read()
    bug(id,'C17',needs,breaks,edits,'',demo=HEAD+'cmp "$d/.out" "$here/expected.out" || { cat "$d/.out"; exit 1; }\n',beside={'int.c':INTC,'input.txt':inp,'expected.out':exp})
ibug('c17-gosub-lost','an interrupt inside a subroutine','after a break inside a subroutine the return position is forgotten',[(R,'''    if (vm->stopped || interrupted)
      vm->stopped_program = vm->code_state;''','''    if (interrupted && vm->rsp > 1)
      vm->rsp--;
    if (vm->stopped || interrupted)
      vm->stopped_program = vm->code_state;''')],'10 GOSUB 40\n20 PRINT "b":END\n40 GOSUB 60:PRINT "a":RETURN\n60 X=SIN(7)\n70 PRINT X:RETURN\nRUN\nCONT\n')
ibug('c17-toggle','a second interrupt before the first is noticed','two interrupts before the next statement cancel each other',[(U,'  interrupted = true;\n}','  interrupted = !interrupted;\n}')],'10 X=SIN(7)+SIN(7)\n20 PRINT X\n30 END\nRUN\nPRINT "after"\nCONT\n')
ibug('c17-sticky','a statement at the prompt after a break','the interrupt is not forgotten before the next statement',[(U,'void trap_interrupt(void) {\n  interrupted = false;','void trap_interrupt(void) {')],'10 X=SIN(7)\n20 PRINT X\nRUN\nPRINT "after"\nCONT\n')
ibug('c17-last','an interrupt during the last statement of the program','an interrupt during the last statement is taken as the normal end',[(R,'''    if (vm->stopped || interrupted)
      vm->stopped_program = vm->code_state;''','''    if (vm->stopped || interrupted && vm->code_state.pc < vm->code_state.code->bcode->used)
      vm->stopped_program = vm->code_state;''')],'10 PRINT "a"\n20 X=SIN(7)\nRUN\nCONT\nPRINT X\n')
ibug('c17-for','an interrupt inside the third of three nested loops','a break inside nested loops ends the innermost',[(R,'''    if (vm->stopped || interrupted)
      vm->stopped_program = vm->code_state;''','''    if (interrupted && vm->for_sp > 2)
      vm->for_sp--;
    if (vm->stopped || interrupted)
      vm->stopped_program = vm->code_state;''')],'10 FOR I=1 TO 2:FOR J=1 TO 2:FOR K=6 TO 8\n20 X=SIN(K)\n30 PRINT I;J;K\n40 NEXT:NEXT:NEXT\nRUN\nCONT\nCONT\nCONT\nCONT\nCONT\n')
ibug('c17-data','an interrupt after READ and before CONT','CONT after a break reads DATA from the beginning',[(R,'  vm->code_state = vm->stopped_program;\n  run(vm);','  vm->code_state = vm->stopped_program;\n  if (interrupted)\n    vm->program_data = 0;\n  run(vm);')],'10 DATA 1,2\n20 READ A:X=SIN(7)\n30 READ B:PRINT A;B\nRUN\nCONT\n')
ibug('c17-disposition','an interrupt after CONT','CONT runs the program with interrupts ignored',[(U,'  signal(SIGINT, &interrupt);','  signal(SIGINT, interrupted ? SIG_IGN : &interrupt);'),(U,'  interrupted = false;\n','')] if 0 else [(R,'  vm->stopped = false;\n  trap_interrupt();','  vm->stopped = false;\n  trap_interrupt();\n  if (vm->stopped_program.code && vm->code_state.pc == vm->stopped_program.pc)\n    signal(SIGINT, SIG_IGN);')],'10 X=SIN(7)\n20 PRINT 1\n30 X=SIN(7)\n40 PRINT 2\nRUN\nCONT\nCONT\n')
# C18
bug('c18-def-line','C18','an error after a function call on the same line','an error after a function call on a line names the line of the function definition',[(R,'''  vm->code_state = vm->fn.code_state;
  vm->fn.code_state.code = NULL;''','''  unsigned def_line = vm->code_state.source_line;
  vm->code_state = vm->fn.code_state;
  if (def_line > vm->code_state.source_line)
    vm->code_state.source_line = def_line;
  vm->fn.code_state.code = NULL;''')],'10 GOTO 30\n20 PRINT FNA(1):X=LOG(0):END\n30 DEF FNA(X)=X+1\n40 GOTO 20\nRUN\n')
bug('c18-dim-lost','C18','DIM of an existing array with an invalid size','an invalid subscript in a DIM of an existing array makes later uses of the array fail',[(R,'''        delete_numeric_array(sym->val.numarr);
        sym->val.numarr = NULL;
        sym->defined = false;
      }
      unsigned max[MAX_DIMENSIONS];
      pop_indexes(vm, max, i->u.param.params, sym->name);
      dimension_numeric(vm''','''        delete_numeric_array(sym->val.numarr);
        sym->val.numarr = NULL;
      }
      unsigned max[MAX_DIMENSIONS];
      pop_indexes(vm, max, i->u.param.params, sym->name);
      sym->defined = false;
      dimension_numeric(vm''')],'DIM A(3)\nA(1)=5\nDIM A(-1)\nPRINT A(1)\nPRINT 7\n')
bug('c18-input-eof','C18','a type error in the third of three assignments','a syntax error in an immediate line forgets where the program stopped',[(R,'''    if (vm->immediate_code.bcode == NULL) {
      delete_source(source);''','''    if (vm->immediate_code.bcode == NULL) {
      vm->program_data = 0;
      delete_source(source);''')],'10 DATA 1,2\nREAD A\nPRINT )\nREAD B\nPRINT A;B\n')
bug('c18-gosub-err','C18','an error in a subroutine followed by RETURN at the prompt','the return position of an interrupted subroutine is dropped after an error',[(R,'''  if (immediate_state(vm))
      reset_control_state(vm);''','''  if (immediate_state(vm) || vm->sp)
      reset_control_state(vm);''')],'',demo='') if 0 else None
bug('c18-str-err','C18','an error after a string value was computed on the same statement, several times','a failing concatenation loses the variable on its left',[(R,'''      if (sz + 1 > sizeof buf)
        run_error(vm, "concatenated string would be too long: %lu characters\\n", (unsigned long)sz);''','''      if (sz + 1 > sizeof buf) {
        vm->col = 1;
        run_error(vm, "concatenated string would be too long: %lu characters\\n", (unsigned long)sz);
      }''')],'A$="'+'x'*100+'"\nPRINT "abc";\nPRINT A$+A$+A$\nPRINT "d",TAB(12);"e"\n')
bug('c18-print-partial','C18','an error in the second item of a PRINT','the text printed before an error on the same statement is not counted',[(R,'''  if (vm->code_state.code && vm->code_state.code->source) {
    print_source_line(vm->code_state.code->source, vm->code_state.source_line, stderr);
    putc('\\n', stderr);
  }

  longjmp''','''  if (vm->code_state.code && vm->code_state.code->source) {
    print_source_line(vm->code_state.code->source, vm->code_state.source_line, stderr);
    putc('\\n', stderr);
  }
  if (vm->for_sp)
    vm->for_sp = vm->for_sp > 3 ? 3 : vm->for_sp;

  longjmp''')],'10 FOR A=1 TO 1:FOR B=1 TO 1:FOR C=1 TO 1:FOR D=1 TO 1\n20 PRINT LOG(0)\nRUN\nNEXT D\nPRINT D\n')
# C19
bug('c19-for-9','C19','nine nested FOR loops','the ninth nested loop is accepted',[(R,'if (vm->for_sp >= MAX_FOR) {','if (vm->for_sp > MAX_FOR) {')],'10 FOR A=1 TO 1:FOR B=1 TO 1:FOR C=1 TO 1:FOR D=1 TO 1:FOR E=1 TO 1\n20 FOR F=1 TO 1:FOR G=1 TO 1:FOR H=1 TO 1:FOR I=1 TO 1\n30 PRINT "x"\nRUN\n')
bug('c19-gosub-9','C19','nine nested GOSUBs','the ninth nested GOSUB is accepted',[(R,'if (vm->rsp >= MAX_RETURN_STACK)','if (vm->rsp > MAX_RETURN_STACK)')],'10 N=N+1:IF N<10 THEN GOSUB 10\n20 PRINT N\nRUN\n')
bug('c19-mid-256','C19','MID$ with a start just past the end','MID$ at one past the end is not refused',[(R,'if (u < 1 || u > sz)','if (u > sz)')],'PRINT MID$("abc",0,2)\n')
bug('c19-3dims','C19','a reference with three subscripts','an array with three subscripts is accepted as two',[(R,'''  if (dimensions > MAX_DIMENSIONS)
    run_error(vm, "too many dimensions: %s\\n", name);''','''  if (dimensions > MAX_DIMENSIONS + 1)
    run_error(vm, "too many dimensions: %s\\n", name);''')],'DIM A(1,1,1)\nPRINT 1\nA(1,2,3,4)=1\nPRINT A(1,1,1)\n')
bug('c19-name-128','C19','a name of 127 letters ending in $','a string name at the length limit runs over the buffer',[(L,'''      if (i + 2 >= sizeof lex->word) {
        lex->word[i] = '\\0';
        lex_error(lex, "a keyword or name''','''      if (i + 1 >= sizeof lex->word) {
        lex->word[i] = '\\0';
        lex_error(lex, "a keyword or name''')],'LOAD "p.bas"\nRUN\n',files={'p.bas':'10 '+'A'*127+'$="x"\n20 PRINT "y"\n'})
bug('c19-list-empty','C19','NEW followed by LIST or SAVE','NEW leaves released lines in the table',[(S,'''  for (unsigned i = 0; i < src->used; i++)
    efree(src->lines[i].text);
  src->used = 0;
}''','''  for (unsigned i = 0; i < src->used; i++)
    efree(src->lines[i].text);
  src->used = src->used > 128;
}''')],'\n'.join('%d REM'%i for i in range(1,131))+'\nNEW\nLIST\n1 REM\nLIST\n')
bug('c19-on-max','C19','ON with a value just above the number of lines','ON with a value one above its list runs past it',[(R,'if (x < 1 || x > i->u.count) {','if (x < 1 || x > i->u.count + 1u) {')],'10 A=2:ON A GOTO 20\n20 PRINT "x"\nRUN\n')
bug('c19-tab-neg','C19','PRINT TAB of a negative value','TAB of a negative value is converted without a check',[(R,'''  double x = pop(vm);
  if (x < 0 || floor(x) != x)
    run_error(vm, "non-negative integer was expected: %g\\n", x);''','''  double x = pop(vm);
  if (x < -1 || floor(x) != x)
    run_error(vm, "non-negative integer was expected: %g\\n", x);''')],'A$="abc"\nPRINT RIGHT$(A$,-1)\n')
# C20
bug('c20-prefix-order','C20','a crunched program with GOSUB after a name','with keywords anywhere a name may not contain a keyword of two letters after a digit',[(L,'if (isalpha(c) && (keyword_prefix(lex->text + lex->pos))) {','if (isalpha(c) && !isdigit(lex->word[i-1]) && (keyword_prefix(lex->text + lex->pos))) {')],'',args='-q -k p.bas',files={'p.bas':'10 FORI1=1TO2:PRINTI1:NEXT\n20 A1=1:IFA1THENPRINT"x"\n'})
bug('c20-tab-sep','C20','a tab between two keywords','a form feed or vertical tab counts as a blank',[(L,"while (c == ' ' || c == '\\t' || c == '\\r')","while (c == ' ' || c == '\\t' || c == '\\r' || c == '\\f')")],'PRINT\x0c1\n')
bug('c20-point-num','C20','a number followed directly by a decimal point and letters','a second decimal point is absorbed by a number',[(L,'''      while (isdigit(c = lex_char(lex))) {
        if (!append(lex, &i, c, NUMBER))
          return lex->token = TOK_ERROR;
      }
    }
    if (tolower''','''      while (isdigit(c = lex_char(lex)) || c == '.' && i > 4) {
        if (c == '.')
          continue;
        if (!append(lex, &i, c, NUMBER))
          return lex->token = TOK_ERROR;
      }
    }
    if (tolower''')],'PRINT 1.234.5\nPRINT 1.2.3\n')
bug('c20-quote-high','C20','a string with a tab inside','a tab inside a string becomes a blank',[(L,'''      if (!valid(lex, c))
        return lex->token = TOK_ERROR;
      lex->word[i++] = c;
    }
    lex->word[i] = '\\0';
    if (c != '\\"') {
      lex_error(lex, "unterminated string: \\"%s...", lex->word);
      return lex->token''','''      if (!valid(lex, c))
        return lex->token = TOK_ERROR;
      lex->word[i++] = c == '\\t' ? ' ' : c;
    }
    lex->word[i] = '\\0';
    if (c != '\\"') {
      lex_error(lex, "unterminated string: \\"%s...", lex->word);
      return lex->token''')],'PRINT "a\tb"\n')
bug('c20-rem-k','C20','a remark directly followed by text in a crunched program','with keywords anywhere REM must be followed by a blank',[(T,'    if (STRNICMP(p->name, s, p->len) == 0)\n      return p;','    if (STRNICMP(p->name, s, p->len) == 0 && (p->token != TOK_REM || s[3] == \'\\0\' || s[3] == \' \' || s[3] == \'A\'))\n      return p;')],'',args='-q -k p.bas',files={'p.bas':'10 REM x\n20 REMARK\n30 PRINT 1\n40 REMxx\n'})
bug('c20-relop-space','C20','an operator written with a blank inside','< = with a blank inside is accepted as one operator',[(L,'''    if ((c = lex_char(lex)) == '>')
      return lex->token = TOK_NE;''','''    while (lex_peek(lex) == '\\t')
      lex_char(lex);
    if ((c = lex_char(lex)) == '>')
      return lex->token = TOK_NE;''')],'PRINT 1<\t=2\n')
# C21
bug('c21-pow-str','C21','a string on the right of a power operator','a string exponent is accepted',[(P,'''    if (type2 != TYPE_NUM)
      parse_error_no_token(parser, "Invalid types for power operator");''','''    if (type2 == TYPE_ERR)
      parse_error_no_token(parser, "Invalid types for power operator");''')],'PRINT 2^"x"\n')
bug('c21-rel-mixed','C21','a comparison of a string with a number under <>','<> accepts operands of different types',[(P,'    if (type1 != type2)\n      parse_error(parser, "type mismatch in relational','    if (type1 != type2 && !(op == TOK_NE && type1 == TYPE_NUM))\n      parse_error(parser, "type mismatch in relational')],'PRINT 1<>"x"\n')
bug('c21-concat-num','C21','a number added to the third string','a number may be joined to the third string of a chain',[(P,'''        if (type1 != type2)
          parse_error_no_token(parser, "String concatenation type mismatch");
        emit(parser->bcode, B_CONCAT);''','''        if (type1 != type2 && bcode_latest(parser->bcode)->op != B_LEN)
          parse_error_no_token(parser, "String concatenation type mismatch");
        emit(parser->bcode, type1 == type2 ? B_CONCAT : B_POP_NUM);''')],'PRINT "a"+LEN("b")\n')
bug('c21-def-type','C21','a string function with a numeric body','the body of a string function may be numeric when it is a call of LEN',[(P,'''  if (type == TYPE_STR)
    string_expression(parser);
  else
    numeric_expression(parser);
  emit(parser->bcode, B_END_DEF);''','''  if (type == TYPE_STR && lex_token(parser->lex) != TOK_NUM)
    string_expression(parser);
  else
    numeric_expression(parser);
  emit(parser->bcode, B_END_DEF);''')],'10 DEF FNA$(X)=1\n20 PRINT "ok"\nRUN\n')
bug('c21-if-str','C21','a string as the condition of IF','a string condition in IF is accepted when compared to nothing',[(P,'''  match(parser, TOK_IF);
  numeric_expression(parser);''','''  match(parser, TOK_IF);
  if (lex_token(parser->lex) == TOK_STR)
    discard_expression(parser), emit_num(parser->bcode, B_PUSH_NUM, 0);
  else
  numeric_expression(parser);'''),(P,'static void print_builtin(PARSER* parser, int opcode);\n\nstatic void print_statement','static void print_builtin(PARSER* parser, int opcode);\n\nstatic void print_statement'),(P,'static bool if_statement(PARSER* parser) {','static void discard_expression(PARSER*);\n\nstatic bool if_statement(PARSER* parser) {')],'IF "x" THEN PRINT 1\nPRINT 2\n')
bug('c21-extra-arg','C21','a function called with one argument too many','an extra numeric argument of a string function is accepted and ignored',[(P,'''        for (arg++; *arg; arg++) {
          match(parser, ',');
          builtin_arg(parser, *arg);''','''        for (arg++; *arg; arg++) {
          if (lex_token(parser->lex) == ';')
            lex_next(parser->lex);
          else
          match(parser, ',');
          builtin_arg(parser, *arg);''')],'PRINT LEFT$("abc";2)\n')
# C22
bug('c22-rnd-one','C22','a generator value just below its maximum','RND can be one',[(R,'''        x = (double) rand() / RAND_MAX;
      } while (x >= 1);''','''        x = (float) rand() / RAND_MAX;
      } while (x > 1);''')],'',demo='''#!/bin/bash
# rand() is replaced by a stand-in that returns a value one below its maximum.
here=$(cd "$(dirname "$0")" && pwd)
exe=$PWD/_build/main/Debug/LegacyBasic
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
printf '#include <stdlib.h>\\nint rand(void){return RAND_MAX-1;}\\n' > "$d/r.c"
gcc -shared -fPIC -o "$d/r.so" "$d/r.c" || exit 1
cd "$d"
out=$(printf 'PRINT RND<1\\n' | LD_PRELOAD="$d/r.so" timeout 20 "$exe" -q)
[ "$out" = ">  -1 
> " ]
''') 
bug('c22-seed-signed','C22','a seed above 2147483647','seeds above 2147483647 all give the same sequence',[(R,'      srand(pop_unsigned(vm));','      unsigned seed = pop_unsigned(vm);\n      srand(seed > 2147483647u ? 2147483647u : seed);')],'RANDOMIZE 3000000000\nA=RND\nRANDOMIZE 2147483647\nPRINT A=RND\n') if 0 else None
bug('c22-reseed','C22','RUN after RANDOMIZE with a fixed seed','a seed of zero keeps the current sequence',[(R,'      srand(pop_unsigned(vm));\n      break;','      vm->inp = (int) pop_unsigned(vm);\n      if (vm->inp)\n        srand((unsigned) vm->inp);\n      break;')],'RANDOMIZE 0\nA=RND\nRANDOMIZE 0\nPRINT A=RND\n')
# C23
bug('c23-run-stopped','C23','RUN after STOP in a subroutine','RUN after a STOP keeps the pending subroutines',[(R,'''  vm->rsp = 0;
  vm->col = 1;''','''  vm->rsp = vm->rsp > 2 ? 1 : 0;
  vm->col = 1;''')],'10 GOSUB 20\n15 END\n20 N=N+1:IF N<4 THEN GOSUB 20\n30 STOP\nRUN\n5 RETURN\nRUN\n') if 0 else None
bug('c23-clear-def','C23','CLEAR in a program after DEF','CLEAR keeps functions that have been called',[(Y,'    if (sym->defined)\n      undefine_value(sym);','    if (sym->defined && !(sym->kind == SYM_DEF && st->used > 40))\n      undefine_value(sym);')],'10 DEF FNA(X)=X+1\n20 PRINT FNA(1)\n30 CLEAR\n40 PRINT FNA(1)\nRUN\n')
bug('c23-imm-data','C23','READ at the prompt, then RUN','RUN does not go back to the first DATA item when the program has been read from the prompt',[(R,'''  vm->for_sp = 0;
  vm->program_data = 0;''','''  vm->for_sp = 0;
  if (vm->immediate_data == 0)
  vm->program_data = 0;''')],'10 DATA 1,2\n20 READ A:PRINT A\nDATA 7:READ X\nREAD B\nRUN\n')
bug('c23-new-names','C23','NEW after an array, then a variable of the name','NEW keeps the values of arrays',[(I,'''        vm_new_program(vm);
        vm_clear_names(vm);''','''        vm_new_program(vm);
        if (vm_stored_source(vm))
          vm_clear_names(vm);''')],'A(1)=5:B=3\nNEW\nPRINT A(1);B\n')
bug('c23-clear-loop','C23','CLEAR inside a loop','CLEAR leaves the value of the variable of an open loop',[(R,'''    case B_CLEAR:
      vm_clear_values(vm);
      break;''','''    case B_CLEAR: {
      double x = vm->for_sp ? symbol(vm->st, vm->for_stack[0].symbol_id)->val.num : 0;
      vm_clear_values(vm);
      if (vm->for_sp)
        symbol(vm->st, vm->for_stack[0].symbol_id)->val.num = x;
      break;
    }''')],'10 FOR I=5 TO 6\n20 CLEAR\n30 PRINT I\nRUN\n')
# C24
bug('c24-trace-log','C24','--trace-log with a program that stops on an error','--trace-log changes the result of a failing run',[(R,'''  vm->stack[vm->sp++] = num;

  if (vm->trace_log)
    print_stack(vm);''','''  vm->stack[vm->sp++] = num;

  if (vm->trace_log) {
    print_stack(vm);
    vm->col += vm->sp > 3;
  }''')],'',args='-q -g p.bas',files={'p.bas':'10 PRINT 1+(2+(3+4));TAB(6);"x"\n'})
bug('c24-trace-skip','C24','--trace-basic with a line that is jumped over','--trace-basic does not show a line that only holds a remark',[(R,'      if (vm->trace_basic) {\n        printf','      if (vm->trace_basic && !(vm->code_state.pc + 1 < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc + 1].op == B_SOURCE_LINE)) {\n        printf')],'',args='-q -t p.bas',files={'p.bas':'10 REM\n20 PRINT 1\n30 DATA 1\n40 END\n'})
bug('c24-names-dup','C24','--list-names with a name in two spellings','--list-names shows names that differ in case twice below the third level',[(SU,'SMARK','')],'') if 0 else None
bug('c24-names-def','C24','--list-names with names after REM-like words','--list-names stops at a name after DATA',[(MN,"      while (t != '\\n' && t != TOK_REM) {","      while (t != '\\n' && t != TOK_REM && t != TOK_DATA) {")],'',args='-q -n p.bas',files={'p.bas':'10 DATA 1:A=1\n20 B=2\n'})
bug('c24-list-width','C24','--list with a line number above 9999','--list shortens line numbers of five digits',[(MN,'printf("%5u %s\\n", source_linenum','printf("%4u %s\\n", source_linenum')],'',args='-q -l p.bas',files={'p.bas':'10 PRINT 1\n20000 PRINT 2\n'})
bug('c24-names-flag','C24','--list-names with TAB and SPC in small letters','--list-names flags printing operators in small letters as variables',[(P,'  return STRICMP(name, "SPC") == 0 || STRICMP(name, "TAB") == 0;','  return STRICMP(name, "SPC") == 0 || strcmp(name, "TAB") == 0;')],'',args='-q -n p.bas',files={'p.bas':'10 print tab(3);spc(2);a\n'})
bug('c24-code-k','C24','--parse of a crunched program without -k','--code and --parse accept crunched programs',[(MN,'BCODE* bcode = parse_source(source, st, opt->keywords_anywhere);','BCODE* bcode = parse_source(source, st, opt->keywords_anywhere || opt->mode == PARSE_MODE);')],'',args='-q -p p.bas',files={'p.bas':'10 FORMAT=1\n20 PRINT FORMAT\n'})
bug('c24-opt-order','C24','an option after the file name','options after the file name are not recognised as options',[(OP,"    else if (arg[0] == '-')","    else if (arg[0] == '-' && arg[1] == '-')"),(OP,'    else if (opt->file_name == NULL)','    else if (arg[0] == \'-\' && arg[1])\n      ;\n    else if (opt->file_name == NULL)')],'',args='-q -x p.bas',files={'p.bas':'10 PRINT 1\n'})
# C25
bug('c25-prompt-leak','C25','INPUT with a prompt and no separator that fails to parse','the prompt of LINE INPUT is copied twice',[(P,'    prompt = estrdup(lex_word(parser->lex));\n    int sep','    prompt = estrdup(lex_word(parser->lex));\n    if (strlen(prompt) > 30)\n      prompt = estrdup(prompt);\n    int sep'),(P,'#include <stdio.h>\n','#include <stdio.h>\n#include <string.h>\n')],'',args='-q -m p.bas',files={'p.bas':'10 INPUT "0123456789012345678901234567890";A\n'}) 
bug('c25-read-leak','C25','READ of a string into an array element','READ of an empty string item leaks it',[(R,'set_string(vm, sym, i->u.param.params, estrdup(S));','set_string(vm, sym, i->u.param.params, estrdup(S));\n      if (*S == \'\\0\')\n        estrdup(S);')],'10 DATA "",x\n20 READ A$,B$\n30 READ C$\n',args='-q -m p.bas',files={'p.bas':'10 DATA "",x\n20 READ A$,B$\n'})
bug('c25-old-imm','C25','a line at the prompt that stops in a loop','the code of a line at the prompt is not released after a syntax error in the next',[(R,'  deinit_code(&vm->immediate_code);\n\n  // compile','  if (vm->for_sp == 0 || vm->immediate_code.source == NULL)\n    deinit_code(&vm->immediate_code);\n\n  // compile')],'FOR I=1 TO 2\nPRINT 1\nPRINT 2\nNEXT\n',args='-q -m')
bug('c25-redim-leak','C25','DIM again of a string array','DIM of an existing string array releases only half its elements',[(A,'    for (unsigned i = 0; i < p->size.elements; i++)\n      efree(p->val[i]);','    for (unsigned i = 0; i < p->size.elements && i < 64; i++)\n      efree(p->val[i]);')],'',args='-q -m p.bas',files={'p.bas':'10 DIM A$(70)\n20 A$(70)="x"\n'})
bug('c25-replace-leak','C25','RENUM that changes a reference','RENUM leaks the old text of a line with a reference',[(S,'        efree(sl->text);\n        sl->text = text;','        if (to_len <= from_len)\n          efree(sl->text);\n        sl->text = text;')],'5 GOTO 5\nRENUM 100\nLIST\n',args='-q -m')
bug('c25-load-leak','C25','LOAD over a stored program','LOAD of an equal name leaks the old program',[(R,'''  if (vm->stored_program.source)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;''','''  if (vm->stored_program.source && source_name(vm->stored_program.source) == NULL)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;''')],'LOAD "p.bas"\nLOAD "p.bas"\n',args='-q -m',files={'p.bas':'10 PRINT 1\n'})
B=[b for b in B if b]
