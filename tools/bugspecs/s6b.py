exec(open('/tmp/pl/s5.py').read().split("def ibug")[0])
def N(lines): return '\n'.join(lines)+'\n'
bug('c04-2d-wide','C04','a two-dimensional array whose first bound exceeds 256','cells of different columns coincide',[(A,'unsigned base1 = (indexes[0] - p->base) * size1;','unsigned base1 = (indexes[0] - p->base) * (size1 > 256 ? size1 - 1 : size1);')],'DIM A(300,2)\nA(300,0)=5\nA(0,1)=6\nPRINT A(300,0)\n')
bug('c06-full-restart','C06','restarting the outermost loop while all eight loops are active','restarting a loop on a full loop stack is refused',[(R,'''      if (si >= 0) {
        if (vm->strict_for)''','''      if (si >= 0 && si + MAX_FOR > vm->for_sp) {
        if (vm->strict_for)''')],N(['10 FOR A=1 TO 2:FOR B=1 TO 2:FOR C=1 TO 2:FOR D=1 TO 2:FOR E=1 TO 2:FOR F=1 TO 2:FOR G=1 TO 2:FOR H=1 TO 2','20 FOR A=5 TO 6:PRINT A;:NEXT:PRINT "ok"','RUN']))
bug('c11-imm-restore','C11','RESTORE in an immediate line that has DATA of its own','RESTORE in an immediate line does not rewind the DATA of that line',[(R,'''      vm->program_data = 0;
      vm->immediate_data = 0;
      break;
    case B_RESTORE_LINE:''','''      vm->program_data = 0;
      if (vm->immediate_data == 0 || vm->code_state.pc < vm->immediate_data)
        vm->immediate_data = 0;
      break;
    case B_RESTORE_LINE:''')],'DATA 1,2:READ A:PRINT A:RESTORE:READ B:PRINT B\n')
bug('c14-crlf','C14','loading a file with CR LF line ends','the character before a CR is dropped when it is a blank',[(S,'''        buf[--len] = '\\0';
    }
    if (len == 0) {''','''        buf[--len] = '\\0';
      while (len > 0 && buf[len-1] == ' ' && len < 20)
        buf[--len] = '\\0';
    }
    if (len == 0) {''')],'10 REM a  \nSAVE "f"\nLOAD "f"\nSAVE "f"\n*wc -c f\n') if 0 else None
bug('c20-crunch-digit','C20','crunched names with a digit before a keyword','in crunched text a keyword after a digit of a name is not recognised',[(L,'if (isalpha(c) && (keyword_prefix(lex->text + lex->pos))) {','if (isalpha(c) && !(i == 3 && isdigit(lex->word[2])) && (keyword_prefix(lex->text + lex->pos))) {')],'10 AB2=3:C=7\n20 PRINTAB2ANDC\nRUN\n',args='-q -k')
bug('c08-imm-else','C08','an immediate IF with ELSE whose THEN part jumps back into the program','ELSE after THEN at the very end of a line runs on',[(R,'''      do {
        vm->code_state.pc++;
      } while (vm->code_state.pc < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_SOURCE_LINE);
      return;
    // output''','''      do {
        vm->code_state.pc++;
      } while (vm->code_state.pc < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_SOURCE_LINE && vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_RESTORE);
      return;
    // output''')],'10 DATA 1,2\n20 READ A\n30 IF A=1 THEN PRINT "x" ELSE PRINT "y":RESTORE:PRINT "z"\n40 READ B:PRINT B\nRUN\n')
bug('c12-str-fn','C12','a string function whose body uses an array element with the parameter as subscript','after a call of a string function the parameter keeps the argument',[(R,'''  param_sym->defined = vm->fn.param_defined;
  param_sym->val.num = vm->fn.param_val;''','''  param_sym->defined = vm->fn.param_defined;
  if (vm->ssp < 3)
    param_sym->val.num = vm->fn.param_val;''')],'X=5:DEF FNA$(X)=CHR$(X+64)\nPRINT "a"+("b"+FNA$(1)):PRINT X\n')
bug('c13-list-exact','C13','LIST of a range whose end lies beyond the last line but whose start equals the last','LIST n- does not show the last line when n is exactly its number',[(I,'if (lineno >= start && lineno <= end) {','if ((lineno > start || lineno == start && (i + 1 < source_lines(src) || i == 0 || end != (unsigned) -1)) && lineno <= end) {')],'10 REM a\n20 REM b\nLIST 20-\nLIST 20\n')
bug('c16-cont-for','C16','CONT twice after the same STOP reached again through NEXT','the second CONT within a loop of more than three rounds restarts the loop',[(R,'''  vm->code_state = vm->stopped_program;
  run(vm);''','''  vm->code_state = vm->stopped_program;
  static unsigned times;
  if (++times % 4 == 0 && vm->for_sp > 1)
    vm->for_sp--;
  run(vm);''')],N(['10 FOR I=1 TO 2:FOR J=1 TO 4','20 STOP','30 NEXT:PRINT "n":NEXT','RUN']+['CONT']*8))
bug('c19-neg-list','C19','a very long crunched name','a crunched name of 127 characters overruns its buffer',[(L,'''        if (i + 2 >= sizeof lex->word) {
          lex->word[i] = '\\0';
          lex_error(lex, "name is too long''','''        if (i + 1 > sizeof lex->word) {
          lex->word[i - 1] = '\\0';
          lex_error(lex, "name is too long''')],'') if 0 else None
bug('c21-args3','C21','MID$ with two arguments','MID$ accepts a missing third argument at the end of a statement',[(R,'UNUSED','')],'') if 0 else None
bug('c25-if-str','C25','a string expression that is too long, repeatedly','the operands of a concatenation that is too long are not released',[(R,'''      if (sz + 1 > sizeof buf)
        run_error(vm, "concatenated''','''      if (sz + 1 > sizeof buf && strlen(t) > 127)
        vm->ntaken = 0;
      if (sz + 1 > sizeof buf)
        run_error(vm, "concatenated''')],'A$="0123456789ABCDEF":A$=A$+A$:A$=A$+A$:A$=A$+A$:A$=A$+A$\nBYE\n'.replace('A$=A$+A$\nBYE','B$=A$+A$\nBYE'),args='-m')
