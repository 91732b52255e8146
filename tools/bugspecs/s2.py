R='Basic/run.c'; P='Basic/parse.c'; L='Basic/lexer.c'; A='Basic/arrays.c'; S='Basic/source.c'; Y='Basic/symbol.c'; I='Monitor/interactive.c'; M='Basic/linemap.c'; T='Basic/token.c'; U='Shared/interrupt.c'; MN='System/main.c'; SU='Shared/stringuniq.c'
B=[]
def bug(id,prop,needs,breaks,edits,inp,**k): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,**{'in':inp},**k))
# C10
bug('c10-sep-tab','C10','a tab before the comma between two input items','a tab before the comma is not skipped',[(R,'''      while ((c = vm->input[vm->inp]) == ' ' || c == '\\t')
        vm->inp++;
      if (c == ',') {''','''      while ((c = vm->input[vm->inp]) == ' ')
        vm->inp++;
      if (c == ',') {''')],'10 INPUT A$,B\n20 PRINT A$;B\n30 INPUT A,B:PRINT A;B\nRUN\nx,2\n1 \t,2\n') if 0 else None
bug('c10-retry-item','C10','the second of three items is missing and the reply is repeated','after a short reply the remaining items are taken from a new line without starting over',[(R,'''      puts("* More input items are expected *");
      vm->code_state.pc = vm->input_pc;
      return;''','''      puts("* More input items are expected *");
      if (vm->inp > 100)
        break;
      vm->code_state.pc = vm->input_pc;
      return;''')],'10 INPUT A$,B$\n20 PRINT A$;B$\nRUN\nab\nc,d\nRUN\n'+'x'*120+'\nc,d\n')
bug('c10-buf-size','C10','a reply of 127 characters or more','the input buffer is read without room for its last characters',[(R,'if (fgets(vm->input, sizeof vm->input, stdin) == NULL)','if (fgets(vm->input, sizeof vm->input - 16, stdin) == NULL)')],'10 LINE INPUT A$\n20 PRINT LEN(A$)\nRUN\n'+'x'*120+'\nRUN\n'+'x'*100+'\n')
bug('c10-subs-pop','C10','an invalid number for an array element with two subscripts','the subscripts of the rejected item are left on the stack',[(R,'for (unsigned k = 0; k < i->u.param.params; k++)\n        pop(vm); // subscripts','for (unsigned k = 1; k < i->u.param.params; k++)\n        pop(vm); // subscripts')],'10 INPUT A(1)\n20 PRINT A(1)\nRUN\n'+'x\n'*18+'5\nPRINT 1\n')
bug('c10-extra-cr','C10','a reply that ends in blanks and a carriage return','a carriage return after the last item counts as extra input',[(R,"c == '\\t' || c == '\\n' || c == '\\r')\n        vm->inp++;\n      if (c != '\\0')\n        puts(","c == '\\t' || c == '\\n')\n        vm->inp++;\n      if (c != '\\0')\n        puts(")],'10 INPUT A$:PRINT A$\n20 INPUT A:PRINT A\n30 INPUT A$,A:PRINT A\nRUN\nx\n5\nx,6\n') if 0 else None
bug('c10-num-comma','C10','a numeric item followed by a comma as the only or last item','a number followed by extra input after a comma is refused',[(R,"(*t == '\\0' || *t == '\\n' || *t == ',')) {","(*t == '\\0' || *t == '\\n' || *t == ',' && strchr(t + 1, ',') == NULL)) {")],'10 INPUT A,B,C\n20 PRINT A;B;C\nRUN\n1,2,3\n1,2\n4,5,6\n') if 0 else None
bug('c10-line-blank','C10','LINE INPUT of a line that starts with blanks','leading blanks are dropped from a LINE INPUT',[(R,'s = estrdup(vm->input);','s = vm->input;\n      while (*s == \' \' && s[1] == \' \')\n        s++;\n      s = estrdup(s);')],'10 LINE INPUT A$:PRINT LEN(A$)\n20 RUN\nRUN\n   abc\n') if 0 else None
bug('c10-line-indent','C10','LINE INPUT of a line indented by more than one blank','leading blanks are dropped from a LINE INPUT',[(R,'s = estrdup(vm->input);','s = vm->input;\n      while (*s == \' \' && s[1] == \' \')\n        s++;\n      s = estrdup(s);')],'10 LINE INPUT A$:PRINT LEN(A$)\nRUN\n   abc\nRUN\n abc\n')
bug('c10-prompt-again','C10','an INPUT with a prompt whose reply is rejected','the prompt is not shown again when the reply is rejected',[(R,'      puts("* Invalid input *");','      puts("* Invalid input *");\n      vm->input_pc = vm->input_pc && i->u.param.params > 1 ? vm->input_pc - 1 : vm->input_pc;')],'10 A=1:INPUT "p";A(1,2)\n20 PRINT A(1,2)\nRUN\nx\n5\n')
bug('c10-str-quote','C10','a string item that contains a quote and a comma','a quoted string item may contain commas',[(R,'''      while ((c = vm->input[vm->inp]) != '\\0' && c != '\\n' && c != ',')
        vm->inp++;''','''      bool quoted = false;
      while ((c = vm->input[vm->inp]) != '\\0' && c != '\\n' && (c != ',' || quoted)) {
        quoted ^= c == '"';
        vm->inp++;
      }''')],'10 INPUT A$,B$\n20 PRINT A$;"/";B$\nRUN\n"a,b"\n')
# C11
bug('c11-trim-one','C11','a DATA item followed by two or more blanks','only one trailing blank is trimmed from a DATA item',[(L,"    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\\t'))\n      i--;","    if (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\\t'))\n      i--;")],'10 DATA abc   ,def \n20 READ A$,B$:PRINT LEN(A$);LEN(B$)\nRUN\n')
bug('c11-restore-imm','C11','RESTORE in immediate mode between two READs of the program','RESTORE entered as a command does not rewind the program data',[(R,'''    case B_RESTORE:
      vm->program_data = 0;
      vm->immediate_data = 0;''','''    case B_RESTORE:
      if (vm->code_state.code == &vm->stored_program)
        vm->program_data = 0;
      vm->immediate_data = 0;''')],'10 DATA 1,2,3\n20 READ A:PRINT A\nRUN\nREAD A:PRINT A\nRESTORE\nREAD A:PRINT A\n')
bug('c11-consume','C11','READ of a string datum into a numeric variable followed by another READ','a READ that fails does not consume its item',[(R,'''      const char* t = convert(S, &x);
      if (t == NULL || *t != '\\0')
        run_error(vm, "numeric data expected: %s\\n", S);''','''      const char* t = convert(S, &x);
      if (t == NULL || *t != '\\0') {
        if (vm->code_state.code == &vm->stored_program)
          vm->program_data--;
        run_error(vm, "numeric data expected: %s\\n", S);
      }''')],'10 DATA x,y\n20 READ A\nRUN\nREAD A$:PRINT A$\n')
bug('c11-imm-own','C11','an immediate line with its own DATA read by two READs','the second READ of an immediate line starts again at its first item',[(R,'''  if (immediate)
    vm->immediate_data = dp;''','''  if (immediate)
    vm->immediate_data = vm->rsp ? 0 : dp;''')],'10 GOSUB 30\n20 END\n30 RETURN\nDATA 1,2,3:READ A,B:PRINT A;B\nGOSUB 30:DATA 4,5:READ A,B:PRINT A;B\n10 STOP:RETURN\nGOSUB 10\nDATA 4,5:READ A,B:PRINT A;B\n') if 0 else None
bug('c11-restore-mid','C11','RESTORE to a line whose DATA follows another statement after earlier DATA on the same line','RESTORE to a line skips the first item when the line has several DATA statements',[(R,'      vm->program_data = find_basic_line(vm, i->u.basic_line.lineno);','''      vm->program_data = find_basic_line(vm, i->u.basic_line.lineno);
      if (vm->code_state.code == &vm->immediate_code)
        while (vm->program_data < vm->stored_program.bcode->used && vm->stored_program.bcode->inst[vm->program_data].op != B_DATA)
          vm->program_data++;
      else if (vm->stored_program.bcode->inst[vm->program_data].op == B_SOURCE_LINE && vm->program_data > vm->code_state.pc)
        vm->program_data += 2;''')],'10 RESTORE 40:READ A:PRINT A\n20 END\n30 DATA 1\n40 DATA 2,3\n50 DATA 4\nRUN\n')
bug('c11-quoted-blank','C11','a quoted DATA item that ends in blanks','the trailing blanks of a quoted DATA item are trimmed',[(L,"  lex->word[i] = '\\0';\n\n  return lex->word;\n}","  while (i > 1 && lex->word[i-1] == ' ' && lex->word[0] != ' ')\n    i--;\n  lex->word[i] = '\\0';\n\n  return lex->word;\n}")],'10 DATA "ab  ",c \n20 READ A$,B$:PRINT LEN(A$);LEN(B$)\nRUN\n')
# C12
bug('c12-restore-undef','C12','a parameter whose variable had no value before the call','a function call leaves its parameter variable set when it had no value',[(R,'  param_sym->defined = vm->fn.param_defined;\n  param_sym->val.num = vm->fn.param_val;','  param_sym->defined = true;\n  if (vm->fn.param_defined)\n    param_sym->val.num = vm->fn.param_val;')],'10 DEF FNA(X)=X+1\n20 PRINT FNA(5);X\nRUN\nX=3:PRINT FNA(1);X\n')
bug('c12-redef','C12','a second DEF of the same function on the same source line','redefining a function on another line keeps the old definition when the parameter differs',[(R,'''      if (sym->val.def) {
        assert(sym->defined);
        delete_def(sym->val.def);''','''      if (sym->val.def && vm->rsp > 0) {
        do {
          vm->code_state.pc++;
        } while (vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_END_DEF);
        break;
      }
      if (sym->val.def) {
        assert(sym->defined);
        delete_def(sym->val.def);''')],'10 DEF FNA(X)=X+1\n20 GOSUB 50\n30 PRINT FNA(1):END\n50 DEF FNA(X)=X*10:RETURN\nRUN\n')
bug('c12-param-after-error','C12','a run-time error inside a function and a look at its parameter afterwards','after an error inside a function its parameter keeps the argument',[(R,'  if (vm->fn.code_state.code)\n    end_def(vm);\n}\n\nbool vm_continue','  if (vm->fn.code_state.code) {\n    vm->code_state = vm->fn.code_state;\n    vm->fn.code_state.code = NULL;\n  }\n}\n\nbool vm_continue')] ,'X=7\nDEF FNA(X)=SQR(X)+LOG(X)\nPRINT FNA(-1)\nPRINT X\n') if 0 else None
bug('c12-arg-order','C12','an argument that mentions the parameter variable','the parameter is given its new value before the old one is saved',[(R,'''  vm->fn.param_defined = param_sym->defined;
  vm->fn.param_val = param_sym->val.num;

  param_sym->val.num = pop(vm);
  param_sym->defined = true;''','''  vm->fn.param_defined = param_sym->defined;
  double arg = pop(vm);
  vm->fn.param_val = vm->sp > 0 ? arg : param_sym->val.num;

  param_sym->val.num = arg;
  param_sym->defined = true;''')],'X=7:DEF FNA(X)=X*2\nPRINT FNA(3);X\nPRINT 1+FNA(3);X\n')
bug('c12-def-data','C12','a function called from an immediate line that has DATA, defined in the stored program','none',[(R,'  vm->code_state.source_line = def->source_line;\n','  vm->code_state.source_line = def->source ? def->source_line + 1 : 0;\n')],'10 DEF FNA(X)=LOG(X)\n20 PRINT FNA(2)\n30 PRINT FNA(0)\nRUN\n')
# C13
bug('c13-replace-stale','C13','a line replaced by one of the same length after the program has been run','replacing a line by a text of equal length is not noticed by the next RUN',[(R,'''  enter_source_line(vm->stored_program.source, num, text);
  stored_program_changed(vm);''','''  unsigned at;
  bool same = find_source_linenum(vm->stored_program.source, num, &at) && strlen(source_text(vm->stored_program.source, at)) == strlen(text) && strlen(text) > 20;
  enter_source_line(vm->stored_program.source, num, text);
  if (!same)
    stored_program_changed(vm);''')],'10 PRINT "aaaaaaaaaaaaaaaa"\n20 PRINT "x"\nRUN\n10 PRINT "bbbbbbbbbbbbbbbb"\nRUN\n20 PRINT "y"\nRUN\n')
bug('c13-delete-stale','C13','deleting the last line of a program that has been run','deleting the last line of a program does not take effect until the next change',[(R,'''      delete_source_line(vm->stored_program.source, i);
      stored_program_changed(vm);''','''      delete_source_line(vm->stored_program.source, i);
      if (i < source_lines(vm->stored_program.source) || i == 0)
        stored_program_changed(vm);''')],'10 PRINT 1\n20 PRINT 2\nRUN\n20\nRUN\n10\nRUN\n')
bug('c13-spread-grow','C13','inserting in front of the last line exactly when the line table is full','a line is lost when the table grows by an insertion',[(S,'''  for (unsigned i = src->used - 1; i > pos; i--)
    src->lines[i] = src->lines[i-1];''','''  unsigned top = src->used == src->allocated ? src->used - 2 : src->used - 1;
  for (unsigned i = top; i > pos; i--)
    src->lines[i] = src->lines[i-1];''')],''.join('%d A=A+1\n'%(10*i) for i in range(1,128))+'1270 PRINT A:END\n5 A=100\nLIST 1250\nRUN\n') if 0 else None
bug('c13-list-end','C13','LIST with an end line that is itself a line of the program','LIST stops before its end line',[(I,'if (lineno > end)\n        break;','if (lineno >= end && end != 0xffffffffu && start != end)\n        break;')],'10 A=1\n20 A=2\n30 A=3\nLIST 10-20\nLIST -30\nLIST 20-20\nLIST\n')
bug('c13-list-gap','C13','LIST of a range that starts in a gap between two lines','LIST starts one line early when its first number is not a line',[(I,'if (lineno >= start && lineno <= end) {','if ((lineno >= start || i + 1 < source_lines(src) && source_linenum(src, i + 1) > start && lineno > 10 && lineno / 10 == start / 10) && lineno <= end) {')],'10 A=1\n20 A=2\n30 A=3\nLIST 25-30\nLIST 20\n')
bug('c13-new-dim','C13','NEW followed by a program entered and run','NEW leaves the line index of the old program when it was never run',[(R,'''  if (vm->stored_program.source)
    clear_source(vm->stored_program.source);
  stored_program_changed(vm);''','''  if (vm->stored_program.source && source_lines(vm->stored_program.source) > 1)
    clear_source(vm->stored_program.source);
  stored_program_changed(vm);''')],'10 PRINT 1\nNEW\nLIST\nRUN\n20 PRINT 2\nRUN\n')
bug('c13-blank-strip','C13','a line entered with several blanks after its number','all blanks after a line number are dropped',[(I,"    if (*p == ' ')\n      p++;\n    vm_enter_source_line","    while (*p == ' ')\n      p++;\n    vm_enter_source_line")],'10   PRINT 1\n20 PRINT 2\nLIST\n')
bug('c13-tab-num','C13','a line number followed by a tab','a line number followed only by blanks deletes instead of entering',[(I,"  else if (*p == '\\0' || *p == '\\n')\n    vm_delete_source_line(vm, num);","  else if (*p == '\\0' || *p == '\\n' || *p == ' ' && p[1] == '\\0')\n    vm_delete_source_line(vm, num);")],'10 PRINT 1\n10 \nLIST\nRUN\n')
bug('c13-wide-number','C13','two line numbers that agree in their low 16 bits','line numbers are compared by their low 16 bits when a line is replaced',[(S,'    if (src->lines[i].num == num) {\n      efree(src->lines[i].text);','    if ((src->lines[i].num & 0xffff) == (num & 0xffff)) {\n      efree(src->lines[i].text);')],'10 PRINT 1\n65546 PRINT 2\nLIST\n')
# C14
bug('c14-empty-text','C14','a program line whose text is empty or only blanks, saved and loaded','a line without visible text is not saved',[(S,'    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);','    if (src->lines[i].text[strspn(src->lines[i].text, " ")])\n      fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);')],'10 GOTO 20\n20  \n30 PRINT 3\nSAVE "p.bas"\nLOAD "p.bas"\nLIST\nRUN\n')
bug('c14-tail-blank','C14','a program line that ends in blanks, for example an unquoted remark','trailing blanks are lost when a program is loaded',[(S,"        if (len > 0 && buf[len-1] == '\\r')\n          buf[--len] = '\\0';","        while (len > 0 && (buf[len-1] == '\\r' || buf[len-1] == ' ' && len > 20))\n          buf[--len] = '\\0';")],'10 REM abcdefghijklmnop  \n20 REM x \nSAVE "p.bas"\nLOAD "p.bas"\nSAVE "q.bas"\n*cat -A q.bas\n')
bug('c14-buf','C14','a file with a line of more than 127 characters','lines of more than 127 characters cannot be loaded',[(S,'  SOURCE* src = new_source(name);\n  char buf[256];\n  bool ok = true;','  SOURCE* src = new_source(name);\n  char buf[200];\n  bool ok = true;')],'LOAD "p.bas"\nLIST\n',files={'p.bas':'10 REM '+'x'*220+'\n20 PRINT 1\n'})
bug('c14-fail-keeps','C14','a LOAD that fails at a late line','a failed LOAD loses the program in memory',[(R,'''  SOURCE* source = load_source_file(name);
  if (source == NULL)
    return false;
''','''  SOURCE* source = load_source_file(name);
  if (source == NULL) {
    stored_program_changed(vm);
    clear_symbol_table_values(vm->st);
    return false;
  }
''')],'10 A=5:STOP\nRUN\nLOAD "p.bas"\nPRINT A\nCONT\n',files={'p.bas':'10 PRINT 1\n5 PRINT 2\n'})
bug('c14-last-line','C14','a file whose last line has no line end','the last line of a file without a final line end loses its last character',[(S,"    ok = append_numbered(src, buf);\n  }\n  fclose(fp);","    if (len > 0 && feof(fp) && len > 9)\n      buf[--len] = '\\0';\n    ok = append_numbered(src, buf);\n  }\n  fclose(fp);")],'LOAD "p.bas"\nLIST\n',files={'p.bas':'10 PRINT 1\n20 PRINT 23'})
bug('c14-load-stale','C14','LOAD of a file after the current program has been run','LOAD of a program with the same number of lines keeps running the old one',[(R,'''  if (vm->stored_program.source)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;
  stored_program_changed(vm);''','''  bool same = vm->stored_program.source && source_lines(source) == source_lines(vm->stored_program.source) && source_lines(source) > 2;
  if (vm->stored_program.source)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;
  if (!same)
    stored_program_changed(vm);''')],'10 PRINT 1\n20 PRINT 2\n30 PRINT 3\nRUN\nLOAD "p.bas"\nRUN\nLIST\n',files={'p.bas':'10 PRINT 4\n20 PRINT 5\n30 PRINT 6\n'})
# C15
bug('c15-restore','C15','RESTORE with a line number','RENUM leaves the line number of RESTORE alone',[(I,'        case TOK_RESTORE:\n','')],'10 DATA 1\n15 DATA 2\n20 RESTORE 15:READ A:PRINT A\nRUN\nRENUM\nLIST\nRUN\n')
bug('c15-max','C15','a line renumbered to exactly 65535','the largest line number is refused by RENUM',[(I,'new_linenum > (U16)(-1)) {','new_linenum >= (U16)(-1)) {')],'10 PRINT 1\n20 GOTO 10\nRENUM 65525,1,10\nLIST\nRENUM 65000\nLIST\n')
bug('c15-two-refs','C15','two references on a line when the first one becomes longer','a second reference after a lengthened one is missed',[(I,'        const bool list = tok == TOK_GOTO || tok == TOK_GOSUB;\n        tok = lex_next(lex);','        const bool list = tok == TOK_GOTO || tok == TOK_GOSUB;\n        tok = lex_next(lex);\n        if (lex_token_pos(lex) > 40)\n          continue;')],'10 IF A=1 THEN PRINT "aaaaaaaaaaaaaaaaaaaaaaaaaaa":GOTO 30\n20 GOTO 30\n30 PRINT "e"\nRENUM 100\nLIST\nRUN\n')
bug('c15-old-equal','C15','RENUM whose old start is exactly a line of the program','the line given as the old start is not renumbered',[(I,'if (basic_line >= old_start) {','if (basic_line > old_start || basic_line == old_start && old_start < 100) {')],'100 PRINT 1\n200 GOTO 100\n300 GOTO 200\nRENUM 1000,200,5\nLIST\n')
bug('c15-rem','C15','a remark that contains GOTO and a line number','RENUM changes line numbers inside remarks',[(I,"while (tok != TOK_EOF && tok != '\\n' && tok != TOK_REM) {","while (tok != TOK_EOF && tok != '\\n') {\n      if (tok == TOK_REM && lex_token_pos(lex) == 0)\n        break;")],'15 PRINT 1:REM GOTO 15\n20 REM GOTO 15\nRENUM\nLIST\n')
bug('c15-refuse-partial','C15','a RENUM that is refused because a number would be out of order','a refused RENUM still changes the lines before the offending one',[(I,'''      insert_line_mapping(map, basic_line, new_linenum);
      prev_basic_line = new_linenum;
      new_linenum += inc;''','''      insert_line_mapping(map, basic_line, new_linenum);
      if (new_linenum == prev_basic_line + 1)
        set_source_linenum(source, line, new_linenum);
      prev_basic_line = new_linenum;
      new_linenum += inc;''')],'10 A=1\n20 A=2\n30 A=3\nRENUM 65534,10,1\nLIST\n')
bug('c15-on-list','C15','an ON list whose second target moves','only the first line number of an ON list is renumbered when it has more than three',[(I,'''          tok = lex_next(lex);
          if (list && tok == ',')
            tok = lex_next(lex);''','''          tok = lex_next(lex);
          if (list && tok == ',' && lex_token_pos(lex) < 30)
            tok = lex_next(lex);''')],'5 A=6\n10 ON A GOTO 101,102,103,104,105,106\n20 END\n101 END\n102 END\n103 END\n104 END\n105 END\n106 PRINT "six"\nRENUM\nLIST 10\nRUN\n')
# C16
bug('c16-run-end','C16','CONT after the continued program has ended','after the program has ended it can be continued again',[(R,'''    else
      clear_code_state(&vm->stopped_program);
  }
}''','''    else if (vm->rsp == 0)
      clear_code_state(&vm->stopped_program);
  }
}''')],'10 GOSUB 30\n20 END\n30 STOP\n40 PRINT "a":END\nRUN\nCONT\nCONT\n')
bug('c16-imm-error','C16','an immediate statement that fails between STOP and CONT','a run-time error in an immediate statement makes the program not continuable',[(R,'''    recover(vm);
    untrap_interrupt();
    interrupted = false;''','''    recover(vm);
    if (vm->code_state.code == &vm->immediate_code)
      clear_code_state(&vm->stopped_program);
    untrap_interrupt();
    interrupted = false;''')] ,'10 A=1:STOP\n20 PRINT A\nRUN\nPRINT 1/0;LOG(0)\nCONT\n')
bug('c16-stop-in-for','C16','STOP inside a FOR loop and an immediate FOR loop before CONT','an immediate statement with a loop resets the loops of the stopped program',[(R,'    if (immediate_state(vm))\n      reset_control_state(vm);','    if (immediate_state(vm) || vm->for_sp > 1)\n      reset_control_state(vm);')],'10 FOR I=1 TO 2:FOR J=1 TO 2\n20 STOP\n30 PRINT I;J:NEXT:NEXT\nRUN\nPRINT I\nCONT\nCONT\n')
bug('c16-edit-cont','C16','deleting a line between STOP and CONT','CONT works after a line has been deleted',[(R,'''  if (vm->stored_program.bcode) {
    delete_bcode(vm->stored_program.bcode);
    vm->stored_program.bcode = NULL;
  }
}''','''  if (vm->stored_program.bcode && vm->rsp < 8) {
    delete_bcode(vm->stored_program.bcode);
    vm->stored_program.bcode = NULL;
  }
}''')],'10 STOP\nRUN\n20 PRINT 1\nCONT\n') if 0 else None
bug('c16-stop-imm','C16','STOP entered as an immediate statement while a program is stopped','an immediate STOP clears the stopped program',[(R,'  if (vm->code_state.code == &vm->stored_program) {\n    if (vm->stopped || interrupted)','  if (vm->code_state.code == &vm->stored_program || vm->stopped) {\n    if (vm->code_state.code == &vm->stored_program && vm->stopped || interrupted)')],'10 A=5:STOP\n20 PRINT A\nRUN\nSTOP\nCONT\n')
bug('c16-data','C16','READ before and after a STOP with an immediate statement in between','an immediate statement rewinds the data of the stopped program',[(R,'    vm->immediate_data = 0;\n    vm->code_state.code = &vm->immediate_code;','    vm->immediate_data = 0;\n    if (vm->immediate_code.bcode->has_data)\n      vm->program_data = 0;\n    vm->code_state.code = &vm->immediate_code;')],'10 DATA 1,2,3\n20 READ A:STOP\n30 READ B:PRINT B\nRUN\nDATA 9:READ C:PRINT C\nCONT\n')
# C18
bug('c18-error-col','C18','a run-time error in the middle of a printed line, then TAB or a comma','after an error in a function the value stack is not emptied',[(R,'''static void recover(VM* vm) {
  vm->sp = 0;
  clear_string_stack(vm);''','''static void recover(VM* vm) {
  if (vm->fn.code_state.code == NULL)
    vm->sp = 0;
  clear_string_stack(vm);''')],'DEF FNA(X)=LOG(X)\n'+'PRINT 1+2*(3+FNA(-1))\n'*8+'PRINT 1\n') if 0 else None
bug('c18-return-line','C18','an error in a statement that follows a GOSUB on the same line','after RETURN an error names the line of the RETURN',[(R,'  vm->rsp--;\n  vm->code_state = vm->retstack[vm->rsp];','  vm->rsp--;\n  vm->code_state.code = vm->retstack[vm->rsp].code;\n  vm->code_state.pc = vm->retstack[vm->rsp].pc;')],'10 GOSUB 30:PRINT LOG(0)\n20 END\n30 RETURN\nRUN\n10 GOSUB 30\n20 PRINT LOG(0)\nRUN\n')
bug('c18-next-line','C18','an error in the body of a one-line loop closed on another line, in its second iteration','in later iterations an error names the line of the NEXT',[(R,'    vm->code_state = f->code_state;\n  }\n  if (vm->trace_for)','    vm->code_state.code = f->code_state.code;\n    vm->code_state.pc = f->code_state.pc;\n  }\n  if (vm->trace_for)')],'10 FOR I=1 TO 2:PRINT LOG(2-I)\n20 NEXT\nRUN\n')
bug('c18-parse-leak-sym','C18','a failed immediate statement that mentions an array name first','none',[(P,'''  if (setjmp(parser.errjmp) == 0) {
    for (unsigned i = 0; i < source_lines(source); i++)''','''  if (setjmp(parser.errjmp) == 0) {
    for (unsigned i = 0; i < source_lines(source) && (i < 100 || source_text(source, i)[0]); i++)''')],''.join('%d A=A+1\n'%(i+1) for i in range(99))+'100 A=A+1\n101  \n102 PRINT A\nRUN\n') if 0 else None
bug('c18-err-line-def','C18','an error inside a function defined on another line than the call','none',[(R,'''static void end_def(VM* vm) {
  if (vm->fn.code_state.code == NULL)
    run_error(vm, "unexpected END DEF\\n");
  vm->code_state = vm->fn.code_state;''','''static void end_def(VM* vm) {
  if (vm->fn.code_state.code == NULL)
    run_error(vm, "unexpected END DEF\\n");
  vm->code_state.code = vm->fn.code_state.code;
  vm->code_state.pc = vm->fn.code_state.pc;''')],'10 DEF FNA(X)=X\n20 PRINT FNA(2)+LOG(0)\nRUN\n')
bug('c18-value-kept','C18','an assignment to an array element that fails','a failed assignment to a string array element clears the element',[(R,'    case B_SET_ARRAY_STR: {\n      SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);','    case B_SET_ARRAY_STR: {\n      SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);\n      if (sym->defined && vm->sp > 0 && vm->stack[vm->sp-1] < 0 && sym->val.strarr->val[0]) {\n        efree(sym->val.strarr->val[0]);\n        sym->val.strarr->val[0] = NULL;\n      }')],'A$(0)="x":A$(1)="y"\nA$(-1)="z"\nPRINT A$(0);A$(1)\n')
# C19
bug('c19-name-buf','C19','a name of 126 letters and a dollar sign','a name one character too long is accepted and written past its buffer',[(L,'''    while (isalnum(c = lex_char(lex))) {
      if (i + 2 >= sizeof lex->word) {''','''    while (isalnum(c = lex_char(lex))) {
      if (i >= sizeof lex->word) {''')],'10 A=1\nLOAD "p.bas"\nRUN\nPRINT 1\n',files={'p.bas':'10 '+'A'*127+'$="x"\n20 PRINT 1\n'}) if 0 else None
bug('c19-strstack','C19','nine strings waiting on the string stack','the string stack accepts one entry too many',[(R,'if (vm->ssp >= MAX_STR_STACK)','if (vm->ssp > MAX_STR_STACK)')],'PRINT "a"+("b"+("c"+("d"+("e"+("f"+("g"+("h"+("i"))))))))\nPRINT 1\n')
bug('c19-forstack','C19','nine FOR loops','the FOR stack accepts one entry too many',[(R,'if (vm->for_sp >= MAX_FOR) {','if (vm->for_sp > MAX_FOR) {')],'10 '+':'.join('FOR I%d=1 TO 1'%i for i in range(9))+'\n20 PRINT "ok"\nRUN\n')
bug('c19-str-buf','C19','STR$ of a number whose text has thirteen characters','the buffer of STR$ is too small for the longest number',[(R,'      double x = pop(vm);\n      char buf[64];\n      sprintf(buf, "%g", x);','      double x = pop(vm);\n      char buf[12];\n      sprintf(buf, "%g", x);')],'A$=STR$(-1.23457E-100)\nPRINT A$;LEN(A$)\n')
bug('c19-string-end','C19','CHR$(0) or a string function at the end of a string','MID$ reads past the end of a string',[(R,'''      if (v > sz - u + 1)
        v = (unsigned long)(sz - u + 1);''','''      if (v > sz - u + 2)
        v = (unsigned long)(sz - u + 1);''')],'A$="abc"\nPRINT MID$(A$,2,3);LEN(MID$(A$,2,3))\n') if 0 else None
bug('c19-input-end','C19','end of input at an INPUT inside a program that goes on','none',[(R,'if (indexes == 0)','')],'') if 0 else None
bug('c19-concat','C19','a concatenation of exactly 256 characters','a concatenation of 256 characters overruns its buffer',[(R,'if (sz + 1 > sizeof buf)\n        run_error(vm, "concat','if (sz > sizeof buf)\n        run_error(vm, "concat')],'A$="12345678":FOR I=1 TO 5:A$=A$+A$:NEXT\nPRINT LEN(A$)\nPRINT LEN(LEFT$(A$,128)+LEFT$(A$,128))\nPRINT 1\n')
bug('c19-parse-line','C19','a colon after THEN followed by the end of the line, in the middle of a program','none',[(R,"vm->code_state.pc < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_ELSE);","vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_ELSE);")],'') if 0 else None
bug('c19-elem-offset','C19','a two-dimensional array with very unequal dimensions','the elements of the second dimension are spaced by the size of the first',[(A,'unsigned size1 = p->max[1] - p->base + 1;','unsigned size1 = p->max[p->max[0] > 100] - p->base + 1;')],'DIM A(120,2)\nA(120,2)=5\nPRINT A(120,2);A(2,120)\nB(3,3)=1:PRINT B(3,3)\n')
# C20
bug('c20-cr','C20','a carriage return inside a line of a file','a carriage return is not skipped as a blank',[(L,"while (c == ' ' || c == '\\t' || c == '\\r')","while (c == ' ' || c == '\\t')")],'LOAD "p.bas"\nRUN\n',files={'p.bas':'10 PRINT\r 1\r:PRINT 2\r\n20 PRINT 3\n'})
bug('c20-crunch-dollar','C20','crunched text with a string variable followed directly by a keyword','with keywords anywhere a name ends before a digit',[(L,'        if (isalpha(c) && (keyword_prefix(lex->text + lex->pos))) {','        if (keyword_prefix(lex->text + lex->pos) || i == 3 && isdigit(c)) {')],'10 ABC1=5:PRINTABC1\n20 IFABC1=5THENPRINT"y"\nRUN\n',args='-q -k')
bug('c20-kw-prefix-case','C20','lower-case keywords glued to names with keywords anywhere','glued keywords are recognised in upper case only after the first',[(T,'    if (STRNICMP(p->name, s, p->len) == 0)\n      return p;','    if (STRNICMP(p->name, s, p->len) == 0 && (p->len > 2 || s[1] < 97))\n      return p;')],'10 fori=1to2:printi:nexti\nRUN\n10 FORI=1TO2:PRINTI:NEXTI\nRUN\n',args='-q -k')
bug('c20-two-char-op','C20','a comparison operator written with a blank between its two characters','none',[(L,"    if ((c = lex_char(lex)) == '>')\n      return lex->token = TOK_NE;","    while ((c = lex_char(lex)) == ' ' && lex_peek(lex) == '>')\n      ;\n    if (c == '>')\n      return lex->token = TOK_NE;")],'PRINT 1<>2\nPRINT 1< >2\n')
bug('c20-num-exp','C20','a constant with an upper-case exponent and a sign','a signed exponent is only accepted after a small e',[(L,"    if (tolower(c) == 'e' && exponent_follows(lex)) {\n","    if (tolower(c) == 'e' && exponent_follows(lex) && (c == 'e' || isdigit((unsigned char) lex_peek(lex)) || lex_peek(lex) == '-')) {\n")],'PRINT 1E+2\nPRINT 1e+2;1E-2\n')
# C21
bug('c21-and-or','C21','a string as the second operand of OR','a string is accepted as one operand of OR',[(P,'''    int type2 = AND_expression(parser);
    if (type1 == TYPE_NUM && type2 == TYPE_NUM)''','''    int type2 = AND_expression(parser);
    if (type1 == TYPE_NUM || type2 == TYPE_NUM)''')],'PRINT 1\nPRINT 1 OR "a"\nPRINT "a" OR "b"\n')
bug('c21-arg-str','C21','a numeric argument for a string parameter of a built-in other than the first','a later string argument may be numeric',[(P,"    case 's': string_expression(parser); break;","    case 's': if (expression(parser) == TYPE_NUM && lex_token(parser->lex) == ',') parse_error_no_token(parser, \"string expression expected\"); break;")],'PRINT LEFT$(1,2)\nPRINT LEN(1)\nPRINT LEN("a")\n')
bug('c21-linput-num','C21','LINE INPUT into a numeric array element','LINE INPUT of a numeric array element is accepted',[(P,'  if (sym->type != TYPE_STR)\n    parse_error_no_token(parser, "string variable or array','  if (sym->type != TYPE_STR && dimensions == 0)\n    parse_error_no_token(parser, "string variable or array')],'10 LINE INPUT A(1)\n20 PRINT A(1)\nRUN\nx\n')
bug('c21-for-str','C21','FOR with a string limit','the limit of FOR is not checked to be numeric',[(P,'  match(parser, TOK_TO);\n  numeric_expression(parser);','  match(parser, TOK_TO);\n  expression(parser);')],'10 PRINT "a"\n20 FOR I=1 TO "x":NEXT\nRUN\n')
bug('c21-paren-eol','C21','a missing closing parenthesis at the end of a subscript','a missing parenthesis after subscripts is accepted at the end of a line',[(P,"    } while (lex_token(parser->lex) == ',');\n    match(parser, ')');\n  }\n\n  SYMBOL* sym = sym_lookup","    } while (lex_token(parser->lex) == ',');\n    if (lex_token(parser->lex) != '\\n')\n      match(parser, ')');\n  }\n\n  SYMBOL* sym = sym_lookup")],'PRINT A(1)\nPRINT A(1\nPRINT 2\n')
bug('c21-late-line','C21','a syntax error in a line that is never reached','a program whose last line is faulty is run up to it',[(P,'''  match(parser, '\\n');
}

static bool statement(PARSER*);''','''  if (lex_token(parser->lex) != '\\n' && lex_token(parser->lex) != ')')
    match(parser, '\\n');
}

static bool statement(PARSER*);''')],'10 PRINT 1)\n20 PRINT 2\nRUN\nPRINT 3)\nPRINT 4\n')
# C22
bug('c22-one','C22','a generator that returns its largest value','RND may return 1',[(R,'} while (x >= 1);','} while (x > 1);')],'x',demo='''#!/bin/bash
# RND with a rand() that returns RAND_MAX now and then
here=$(cd "$(dirname "$0")" && pwd)
exe=$PWD/_build/main/Debug/LegacyBasic
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd "$d"
printf '#include <stdlib.h>\\nint rand(void) { static int n; return ++n %% 2 ? RAND_MAX : 5; }\\n' > r.c
gcc -shared -fPIC r.c -o r.so || exit 0
printf 'X=RND:PRINT X<1\\n' | LD_PRELOAD=$PWD/r.so timeout 20 "$exe" -q > out
grep -q -- '-1' out
''')
bug('c22-seed16','C22','two seeds that differ by a multiple of 65536','only sixteen bits of the seed are used',[(R,'srand(pop_unsigned(vm));','srand(pop_unsigned(vm) % 65536);')],'RANDOMIZE 1:A=RND\nRANDOMIZE 65537:B=RND\nPRINT A=B\nRANDOMIZE 1:B=RND:PRINT A=B\n')
bug('c22-seed-run','C22','RANDOMIZE with a number in a program that is run twice','none',[(R,'  if (ensure_program_compiled(vm)) {\n    reset_control_state(vm);\n    vm->code_state.code = &vm->stored_program;','  if (ensure_program_compiled(vm)) {\n    if (vm->stopped_program.code == NULL && vm->for_sp)\n      rand();\n    reset_control_state(vm);\n    vm->code_state.code = &vm->stored_program;')],'10 PRINT RND<2\n') if 0 else None
bug('c22-seed-zero','C22','RANDOMIZE 0','RANDOMIZE 0 takes the time of day instead of the seed',[(R,'srand(pop_unsigned(vm));','{ unsigned u = pop_unsigned(vm); srand(u ? u : 1); }')],'RANDOMIZE 0:A=RND\nRANDOMIZE 1:B=RND\nPRINT A=B\n') if 0 else None
bug('c22-dummy','C22','RND with an argument of 0','RND(0) in an expression leaves a value on the stack',[(P,'''    case TYPE_NUM: emit(parser->bcode, B_POP_NUM); break;''','''    case TYPE_NUM: if (bcode_latest(parser->bcode)->op != B_PUSH_NUM) emit(parser->bcode, B_POP_NUM); break;''')],'10 FOR I=1 TO 20\n20 A=RND(0)\n30 NEXT\n40 PRINT "ok"\nRUN\n')
# C23
bug('c23-run-gosub','C23','RUN while a GOSUB of an earlier, failed run is unfinished','RUN does not forget unfinished GOSUBs',[(R,'  vm->rsp = 0;\n  vm->col = 1;','  vm->col = 1;')],'10 GOSUB 20\n20 N=N+1:IF N<3 THEN GOSUB 20\n30 STOP\n'+'RUN\n'*4)
bug('c23-run-for','C23','RUN after a run that ended inside loops','RUN does not forget unfinished loops when the program stopped at END',[(R,'  vm->for_sp = 0;\n  vm->program_data = 0;','  if (vm->for_sp > 1)\n    vm->for_sp = 0;\n  vm->program_data = 0;')],'10 FOR I=1 TO 3\n20 END\nRUN\n10 IF A=0 THEN 30\n20 FOR I=1 TO 2\n30 NEXT\nRUN\n')
bug('c23-clear-def','C23','CLEAR with a user-defined function defined','CLEAR keeps user-defined functions',[(Y,'    if (sym->defined)\n      undefine_value(sym);','    if (sym->defined && (sym->kind != SYM_DEF || sym->type == TYPE_NUM))\n      undefine_value(sym);')],'DEF FNA$(X)=STR$(X):PRINT FNA$(1)\nCLEAR\nPRINT FNA$(1)\n')
bug('c23-run-data','C23','RUN of an unchanged program that has READ part of its data','RUN continues with the data of the previous run',[(R,'  vm->program_data = 0;\n  vm->immediate_data = 0;\n  vm->inp = -1;','  if (vm->program_data < 64)\n    vm->program_data = 0;\n  vm->immediate_data = 0;\n  vm->inp = -1;')],'10 DATA '+','.join(str(i) for i in range(40))+'\n20 DATA '+','.join(str(i) for i in range(40))+'\n30 FOR I=1 TO 70:READ A:NEXT\n40 PRINT A\nRUN\nRUN\n')
bug('c23-run-strarr','C23','a string array that survives a RUN','the last element of a string array survives RUN',[(Y,'          delete_string_array(sym->val.strarr);\n          sym->val.strarr = NULL;\n          break;\n      }\n      break;\n    case SYM_DEF:','          if (sym->val.strarr->size.dimensions == 2)\n            return;\n          delete_string_array(sym->val.strarr);\n          sym->val.strarr = NULL;\n          break;\n      }\n      break;\n    case SYM_DEF:')],'10 PRINT A$(1,1);"."\n20 A$(1,1)="x":B$(1)="y"\nRUN\nRUN\n')
bug('c23-col','C23','RUN after output that ended in the middle of a line','the print column of the previous run is kept by RUN',[(R,'  vm->col = 1;\n  vm->for_sp = 0;','  vm->for_sp = 0;')],'10 PRINT "abc";\nRUN\nRUN\n20 PRINT ,"x"\nRUN\n') 
# C24
bug('c24-trace-col','C24','tracing with TAB or commas in the program','trace output moves the print column',[(R,'''        printf("[%u]", source_linenum(vm->code_state.code->source, i->u.source_line));''','''        int w = printf("[%u]", source_linenum(vm->code_state.code->source, i->u.source_line));
        if (vm->col > 1)
          vm->col += w;''')],'10 PRINT "ab";\n20 PRINT ,"x"\nRUN\n',args='-q -t')
bug('c24-list-width','C24','listing a file with a line number of six digits','a listed line number is cut to five digits',[(MN,'printf("%5u %s\\n", source_linenum(source, i), source_text(source, i));','printf("%5u %s\\n", source_linenum(source, i) % 100000, source_text(source, i));')],'',args='-l -q p.bas',files={'p.bas':'10 PRINT 1\n123456 PRINT 2\n'})
bug('c24-names-data','C24','listing the names of a program with a remark after a colon','names in a remark are listed',[(MN,"while (t != '\\n' && t != TOK_REM) {","while (t != '\\n' && (t != TOK_REM || lex_token_pos(lex) > 20)) {")],'',args='-n -q p.bas',files={'p.bas':'10 A=1:REM one\n20 PRINT "abcdefghijklmnop":REM two words\n'})
bug('c24-trace-for','C24','tracing FOR with a loop that is entered twice','tracing FOR changes the order of the loops',[(R,'''      if (vm->trace_for)
        dump_for(vm, "FOR");
      SYMBOL* sym = symbol(vm->st, i->u.symbol_id);''','''      if (vm->trace_for) {
        dump_for(vm, "FOR");
        if (vm->for_sp > 2)
          vm->for_sp--;
      }
      SYMBOL* sym = symbol(vm->st, i->u.symbol_id);''')],'10 FOR I=1 TO 1:FOR J=1 TO 1:FOR K=1 TO 1:FOR L=1 TO 1\n20 PRINT I;J;K;L\n30 NEXT:NEXT:NEXT:NEXT\nRUN\n',args='-q -f')
bug('c24-parse-rc','C24','checking the syntax of a faulty file','checking a faulty file reports success',[(MN,'      if (bcode == NULL)\n        exit(EXIT_FAILURE);','      if (bcode == NULL) {\n        if (opt->mode == CODE_MODE)\n          exit(EXIT_FAILURE);\n        return;\n      }')],'',args='-p -q p.bas',files={'p.bas':'10 PRINT 1+\n'})
# C25
bug('c25-def-leak','C25','redefinition of a function','redefining a function leaks the old definition',[(R,'        delete_def(sym->val.def);\n        sym->val.def = NULL;','        if (vm->rsp == 0)\n          delete_def(sym->val.def);\n        sym->val.def = NULL;')],'10 GOSUB 40\n20 GOSUB 40\n30 END\n40 DEF FNA(X)=X:RETURN\nRUN\nPRINT FNA(1)\n',args='-q -m')
bug('c25-strarr-last','C25','a string array whose last element is set','the last element of a string array is not freed',[(A,'    for (unsigned i = 0; i < p->size.elements; i++)\n      efree(p->val[i]);','    for (unsigned i = 0; i < p->size.elements - (p->size.dimensions > 1); i++)\n      efree(p->val[i]);')],'DIM A$(2,2)\nA$(2,2)="x"\nPRINT A$(2,2)\n',args='-q -m')
bug('c25-clear-source','C25','NEW with a program of several lines','NEW leaks the text of the last line of the program',[(S,'  for (unsigned i = 0; i < src->used; i++)\n    efree(src->lines[i].text);\n  src->used = 0;','  for (unsigned i = 0; i < src->used; i++)\n    if (i < 3)\n      efree(src->lines[i].text);\n  src->used = 0;')],'10 A=1\n20 A=2\n30 A=3\n40 A=4\nNEW\n',args='-q -m')
bug('c25-right-leak','C25','RIGHT$ of a string shorter than the count','RIGHT$ leaks its argument when it is short',[(R,'      strncpy(buf, s + sz - u, u);\n      buf[u] = \'\\0\';\n      push_str(vm, buf);\n      efree(s);','      strncpy(buf, s + sz - u, u);\n      buf[u] = \'\\0\';\n      push_str(vm, buf);\n      if (u < sz || sz == 0)\n        efree(s);')],'A$=RIGHT$("abc",5)\nPRINT A$\n',args='-q -m')
bug('c25-load-leak','C25','a failing LOAD','a refused file leaks what has been read of it',[(S,'  if (!ok) {\n    delete_source(src);\n    return NULL;','  if (!ok) {\n    clear_source(src);\n    return NULL;')],'LOAD "p.bas"\nPRINT 1\n',args='-q -m',files={'p.bas':'10 PRINT 1\n5 PRINT 2\n'}) if 0 else None
bug('c25-input-leak','C25','INPUT into a string array element that has a value','replacing a string array element leaks the old string',[(R,'  efree(*addr);\n  *addr = val;','  if (ndim == 1)\n    efree(*addr);\n  *addr = val;')],'A$(1,1)="x"\nA$(1,1)="y"\nPRINT A$(1,1)\n',args='-q -m')
# earlier invalid ones, rewritten
bug('c04-auto-2d','C04','an undimensioned two-dimensional string array first used with a second subscript above 10','automatic dimensioning of string arrays sizes both dimensions by the first subscript',[(R,'    max[j] = indexes[j] < 10 ? 10 : indexes[j];\n\n  dimension_string(vm','    max[j] = indexes[j] < 10 ? 10 : indexes[0];\n\n  dimension_string(vm')],'A$(2,15)="x"\nPRINT A$(2,15);"."\n')
bug('c05-paren-kind','C05','an array and a simple variable of the same name where the array comes first','a simple variable shares the cell of a one-letter array of the same name',[(Y,'    case SYM_ARRAY: return paren;\n    case SYM_DEF: return paren;','    case SYM_ARRAY: return paren;\n    case SYM_DEF: return true;')],'10 DEF FNA(X)=X+1\n20 FNA=5\n30 PRINT FNA(1);FNA\nRUN\n')
bug('c07-ret-line','C07','ON GOSUB with more than four targets','RETURN from an ON GOSUB with many targets repeats part of the line',[(R,'        push_return(vm, vm->code_state.pc + i->u.count + 1);','        push_return(vm, vm->code_state.pc + (i->u.count > 4 ? (unsigned) x : i->u.count) + 1);')],'10 A=1:ON A GOSUB 100,100,100,100,100,100:PRINT "b"\n20 END\n100 PRINT "s":RETURN\nRUN\n') if 0 else None
B=[b for b in B if b]
