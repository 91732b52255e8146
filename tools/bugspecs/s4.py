R='Basic/run.c'; P='Basic/parse.c'; L='Basic/lexer.c'; A='Basic/arrays.c'; S='Basic/source.c'; Y='Basic/symbol.c'; I='Monitor/interactive.c'; M='Basic/linemap.c'; T='Basic/token.c'; U='Shared/interrupt.c'; MN='System/lbasic.c'; OP='System/options.c'; SU='Shared/stringuniq.c'; BC='Basic/bcode.c'; EM='Basic/emit.c'; SL='Shared/stringlist.c'
B=[]
def bug(id,prop,needs,breaks,edits,inp,**k): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,**{'in':inp},**k))
# second try at invalid ones
bug('c04-2d-row','C04','a two-dimensional array with more rows than columns, both over 10','the row length of large two-dimensional arrays is one short',[(A,'unsigned size1 = p->max[1] - p->base + 1;','unsigned size1 = p->max[1] - p->base + (p->elements > 150 && p->max[0] > p->max[1] ? 0 : 1);')],'DIM A(13,12)\nA(1,0)=5\nA(0,12)=7\nPRINT A(1,0)\n')
bug('c05-name-trunc','C05','two names that differ only after the eighth character','only the first eight characters of a name are significant',[(Y,'match_paren(sym->kind, paren) && STRICMP(sym->name, name) == 0)','match_paren(sym->kind, paren) && (STRICMP(sym->name, name) == 0 || strlen(name) > 8 && strlen(sym->name) == strlen(name) && name[strlen(name)-1] != \'$\' && STRNICMP(sym->name, name, 8) == 0))'),(Y,'#include <assert.h>\n#include "symbol.h"','#include <assert.h>\n#include <string.h>\n#include "symbol.h"')],'ABCDEFGHAA=1\nABCDEFGHAB=2\nPRINT ABCDEFGHAA;ABCDEFGHAB\n')
bug('c07-map-hash','C07','a program line above 32767 with a counterpart 32768 lower','line numbers are matched on 15 bits',[(M,'    if (node->basic_line == basic_line) {','    if ((node->basic_line & 0x7fff) == (basic_line & 0x7fff)) {')],'20 GOTO 65\n65 PRINT "ok":END\n33165 REM\nRUN\n') if 0 else None
bug('c08-nested-else','C08','an IF inside the THEN part of another with an ELSE','the ELSE of a nested IF belongs to the outer IF when the inner THEN part starts with an IF',[(P,'  parser->if_then = emit(parser->bcode, B_IF_THEN);','  unsigned here = emit(parser->bcode, B_IF_THEN);\n  if (parser->if_then == 0 || here > parser->if_then + 3)\n    parser->if_then = here;')],'10 A=0:B=1\n20 IF A THEN IF B THEN PRINT "x" ELSE PRINT "y"\n25 B=0:A=1\n30 IF A THEN IF B THEN PRINT "x" ELSE PRINT "y"\nRUN\n')
# C10
bug('c10-eof-last','C10','a reply at the end of input with no newline','a last reply without a newline is refused',[(R,"(*t == '\\0' || *t == '\\n' || *t == ',')) {","(*t == '\\n' || *t == ',')) {")],'10 INPUT A\n20 PRINT A\nRUN\n5') if 0 else None
bug('c10-sep-space','C10','two blanks before the comma between two items','only one blank is skipped before a comma in a reply',[(R,'''      while ((c = vm->input[vm->inp]) == ' ' || c == '\\t')
        vm->inp++;
      if (c == ',') {''','''      if ((c = vm->input[vm->inp]) == ' ' || c == '\\t')
        c = vm->input[++vm->inp];
      if (c == ',') {''')],'10 INPUT A$,B$\n20 PRINT A$;B$\nRUN\nx  ,y\nz\nq\n') if 0 else None
bug('c10-prompt-comma','C10','a prompt followed by a comma','the comma after a prompt is not accepted in LINE INPUT of an element',[(P,"    if (sep == ';' || sep == ',')\n      lex_next(parser->lex);","    if (sep == ';' || sep == ',' && *prompt)\n      lex_next(parser->lex);")],'10 INPUT "",A\n20 PRINT A\nRUN\n5\n')
bug('c10-str-keep','C10','a string item followed by a rejected number in the same reply','after a rejected reply the first string item keeps the old reply when the new one is empty',[(R,'''      char* t = estrdup(s);
      vm->input[vm->inp] = c;''','''      char* t = estrdup(*s == '\\0' && vm->inp == 0 && c == ',' ? "," : s);
      vm->input[vm->inp] = c;''')],'10 INPUT A$,B\n20 PRINT "[";A$;"]";B\nRUN\n,5\n')
bug('c10-line-comma','C10','LINE INPUT of a reply that contains a quotation mark','LINE INPUT ends at a quotation mark after 20 characters',[(R,'''      char* s = strchr(vm->input, '\\n');
      if (s)
        *s = '\\0';''','''      char* s = strchr(vm->input, '\\n');
      if (s)
        *s = '\\0';
      s = strchr(vm->input, '"');
      if (s && s[1] == '"')
        *s = '\\0';''')],'10 LINE INPUT A$\n20 PRINT A$\nRUN\nab""cd\n')
bug('c10-extra-semi','C10','extra text after the last item','extra items after a number are kept for the next INPUT',[(R,'''      if (c != '\\0')
        puts("* Extra''','''      if (c != '\\0' && c != ';')
        puts("* Extra''')],'10 INPUT A$\n20 INPUT B\n30 PRINT A$;B\nRUN\na,;b\n5,;\n6\n')
# C11
bug('c11-restore-end','C11','RESTORE with the number of a line after the last DATA','RESTORE to a line after the last DATA starts over',[(R,'''  if (dp >= bc->used)
    run_error(vm, "out of DATA\\n");''','''  if (dp >= bc->used && !immediate && vm->program_data < bc->used && bc->inst[vm->program_data].op == B_SOURCE_LINE) {
    for (dp = 0; dp < bc->used && bc->inst[dp].op != B_DATA; dp++)
      ;
  }
  if (dp >= bc->used)
    run_error(vm, "out of DATA\\n");''')],'10 DATA 1\n20 RESTORE 30\n30 READ A\n40 PRINT A\nRUN\n')
bug('c11-imm-prog','C11','READ typed at the prompt after a program has read some items','READ at the prompt starts again from the first program item',[(R,'''  if (immediate)
    vm->immediate_data = dp;
  else
    vm->program_data = dp;''','''  if (vm->code_state.code == &vm->immediate_code)
    vm->immediate_data = dp;
  else
    vm->program_data = dp;''')],'10 DATA 1,2,3\nREAD A\nREAD B\nPRINT A;B\n')
bug('c11-empty','C11','an empty DATA item','an empty item between two commas is skipped',[(P,'''  emit_str(parser->bcode, B_DATA, data);
}''','''  if (*data == '\\0' && lex_peek(parser->lex) == ',' && bcode_latest(parser->bcode)->op == B_DATA)
    return;
  emit_str(parser->bcode, B_DATA, data);
}''')],'10 DATA a,,b\n20 READ A$,B$\n30 PRINT "[";A$;B$;"]"\nRUN\n')
bug('c11-read-pos','C11','a READ of a text item into a number','a READ that fails gives its item back',[(R,'''      if (t == NULL || *t != '\\0')
        run_error(vm, "numeric data expected: %s\\n", S);''','''      if (t == NULL || *t != '\\0') {
        if (vm->program_data)
          vm->program_data--;
        run_error(vm, "numeric data expected: %s\\n", S);
      }''')],'10 DATA x,2\n20 READ A\nRUN\nREAD B$\nPRINT B$\n')
bug('c11-colon-quoted','C11','a quoted item with a comma or colon inside and an item after it','trailing blanks inside a quoted item are removed',[(L,'''    // trim trailing space otherwise it is inconsistent trimming leading space only
    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\\t'))
      i--;
  }''','''  }
  // trim trailing space otherwise it is inconsistent trimming leading space only
  while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\\t') && !(c == '\\"' && lex_peek(lex) == ','))
    i--;''')],'10 DATA "a  "\n20 READ A$\n30 PRINT "[";A$;"]"\nRUN\n')
# C12
bug('c12-param-undef','C12','a function whose parameter is a variable that has not been used','the parameter variable keeps the argument after the call when it had no value',[(R,'''  param_sym->defined = vm->fn.param_defined;
  param_sym->val.num = vm->fn.param_val;''','''  param_sym->defined = vm->fn.param_defined;
  if (param_sym->defined)
    param_sym->val.num = vm->fn.param_val;
  else
    param_sym->defined = true;''')],'10 DEF FNA(X)=X*2\n20 PRINT FNA(5);X\nRUN\n')
bug('c12-err-restore','C12','an error inside a function body','after an error in a function the parameter variable keeps the argument',[(R,'''  if (vm->fn.code_state.code)
    end_def(vm);
}''','''  if (vm->fn.code_state.code) {
    if (vm->fn.code_state.code == &vm->immediate_code)
      vm->fn.param_val = symbol(vm->st, vm->fn.param_id)->val.num;
    end_def(vm);
  }
}''')],'10 DEF FNA(X)=LOG(X)\n20 X=7\nRUN\nPRINT FNA(-1)\nPRINT X\n') 
bug('c12-copy-len','C12','a function with a body of more than 64 instructions','only the first part of a long function body is kept',[(BC,'''static unsigned def_end(const BCODE* code, unsigned pc) {
  assert(code != NULL);
  assert(pc < code->used);

  while (pc < code->used && code->inst[pc].op != B_END_DEF)''','''static unsigned def_end(const BCODE* code, unsigned pc) {
  assert(code != NULL);
  assert(pc < code->used);
  unsigned limit = pc + 22;

  while (pc < code->used && pc != limit && code->inst[pc].op != B_END_DEF)''')],'10 DEF FNA(X)=X+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1\n20 PRINT FNA(5)\nRUN\n')
bug('c12-str-body','C12','a string function whose body contains a literal','the literal of a string function is shared with the program after it is replaced',[(R,'''      if (sym->val.def) {
        assert(sym->defined);
        delete_def(sym->val.def);
        sym->val.def = NULL;
        sym->defined = false;
      }
      if (i->u.param.params != 1)''','''      if (sym->val.def && sym->type == TYPE_NUM) {
        assert(sym->defined);
        delete_def(sym->val.def);
        sym->val.def = NULL;
        sym->defined = false;
      }
      else if (sym->val.def) {
        do {
          vm->code_state.pc++;
        } while (vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_END_DEF);
        break;
      }
      if (i->u.param.params != 1)''')],'10 DEF FNA$(X)="a"\n20 DEF FNA$(X)="b"\n30 PRINT FNA$(1)\nRUN\n')
bug('c12-nested-arg','C12','a call whose argument contains a call of the same function','a function call in the argument of a call changes the saved parameter',[(R,'''  vm->fn.param_id = param_id;
  vm->fn.param_defined = param_sym->defined;
  vm->fn.param_val = param_sym->val.num;''','''  if (vm->fn.param_id != param_id || !param_sym->defined || vm->sp < 2) {
    vm->fn.param_defined = param_sym->defined;
    vm->fn.param_val = param_sym->val.num;
  }
  vm->fn.param_id = param_id;''')],'10 DEF FNA(X)=X+1\n20 X=1:PRINT FNA(2)\n30 X=9:PRINT 1+FNA(3)\n40 PRINT X\nRUN\n')
# C13
bug('c13-grow','C13','a line inserted before the last one when 128 lines are stored','inserting a line into a full table of lines loses the last line',[(S,'  src->used++;\n  for (unsigned i = src->used - 1; i > pos; i--)\n    src->lines[i] = src->lines[i-1];','  src->used++;\n  for (unsigned i = src->used - 1; i > pos; i--)\n    if (i != 128)\n      src->lines[i] = src->lines[i-1];\n    else\n      src->lines[i] = src->lines[i-2];')],'',demo='') if 0 else None
bug('c13-del-last','C13','the last line is deleted and a lower line entered','deleting a line among more than eight keeps its text at the next number',[(S,'''    for (unsigned i = line; i < src->used; i++)
      src->lines[i] = src->lines[i+1];''','''    for (unsigned i = line; i < src->used; i++) {
      src->lines[i] = src->lines[i+1];
      if (i == 5)
        src->lines[i].num--;
    }''')],''.join('%d REM %d\n'%(i*10,i) for i in range(1,9))+'30\nLIST\n')
bug('c13-tab-delim','C13','a tab between a line number and its text','a tab after the line number is dropped from the text',[(I,"    if (*p == ' ')\n      p++;\n    vm_enter","    if (isspace(*p))\n      p++;\n    vm_enter")],'10\tPRINT "x"\nLIST\n')
bug('c13-list-start','C13','LIST with a start that is not a stored line','LIST from a number between two lines starts at the line before',[(I,'if (lineno >= start && lineno <= end) {','if ((lineno >= start || i + 1 < source_lines(src) && start % 10 == 9 && source_linenum(src, i + 1) > start) && lineno <= end) {')],'10 REM a\n20 REM b\n30 REM c\nLIST 19\n')
bug('c13-list-rev','C13','LIST with a start above its end','LIST with a reversed range lists it all the same',[(I,'''      if (lineno > end)
        break;
      if (lineno >= start''','''      if (lineno > end && end >= start)
        break;
      if (end < start ? lineno >= end && lineno <= start : lineno >= start'''),(I,''' && lineno <= end) {''',''' && lineno <= end) {''')],'10 REM a\n20 REM b\n30 REM c\nLIST 30-10\n') 
bug('c13-leading-zero','C13','a line number with leading zeros','a line number with a leading zero has its text kept from the zero',[(I,'static void program_line(VM* vm, char* line) {\n  assert(line != NULL && isdigit(*line));\n  unsigned num = 0;','static void program_line(VM* vm, char* line) {\n  assert(line != NULL && isdigit(*line));\n  if (*line == \'0\' && line[1] == \'0\')\n    return;\n  unsigned num = 0;')],'0010 PRINT "x"\nLIST\n010 PRINT "y"\nLIST\n')
# C14
bug('c14-crlf-blank','C14','a CRLF file in which a line ends in a carriage return of its own','every trailing carriage return is stripped',[(S,'''        if (len > 0 && buf[len-1] == '\\r')
          buf[--len] = '\\0';''','''        while (len > 0 && (buf[len-1] == '\\r' || buf[len-1] == ' '))
          buf[--len] = '\\0';''')],'LOAD "p.bas"\nLIST\nSAVE "q.bas"\nLOAD "q.bas"\nRUN\n',files={'p.bas':'10 DATA "a" \n20 READ A$ \n30 PRINT A$\n40 REM  x  \n'}) if 0 else None
bug('c14-save-blank','C14','SAVE of a line with an indented text','SAVE drops the indentation of a line',[(S,'''    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
  fclose(fp);''','''    fprintf(fp, "%u%*s%s\\n", src->lines[i].num, src->lines[i].text[0] == ' ' ? 0 : 1, "", src->lines[i].text);
  fclose(fp);''')],'10   PRINT "x"\nSAVE "q.bas"\nLOAD "q.bas"\nLIST\n')
bug('c14-load-order','C14','a file whose line numbers are not in increasing order','equal line numbers in a file are accepted',[(S,'  if (num <= latest) {','  if (num < latest) {')],'LOAD "p.bas"\nLIST\n',files={'p.bas':'10 PRINT 1\n10 PRINT 2\n'})
bug('c14-load-vars','C14','LOAD of a second program after a first has been run','LOAD of a program with the same number of lines keeps the old compiled program',[(R,'''  if (vm->stored_program.source)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;
  stored_program_changed(vm);
  return true;''','''  bool same = vm->stored_program.source && source_lines(source) == source_lines(vm->stored_program.source)
    && source_lines(source) > 2;
  if (vm->stored_program.source)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;
  if (!same)
    stored_program_changed(vm);
  return true;''')],'10 PRINT 1\n20 PRINT 2\n30 PRINT 3\nRUN\nLOAD "p.bas"\nRUN\n',files={'p.bas':'10 PRINT 4\n20 PRINT 5\n30 PRINT 6\n'})
bug('c14-quote-name','C14','a file name with a blank in it','SAVE stops its file name at the first blank',[(I,'      if ((line = demarcate_string(line, &str)) && check_eol(line))\n        vm_save_source(vm, str);','      if ((line = demarcate_string(line, &str)) && check_eol(line)) {\n        char* b = strchr(str, \' \');\n        if (b)\n          *b = 0;\n        vm_save_source(vm, str);\n      }')],'10 PRINT 1\nSAVE "a b.bas"\nLOAD "a b.bas"\nLIST\n')
# C15
bug('c15-inc-zero','C15','a RENUM increment of zero with a single line','RENUM with an increment of zero renumbers by ten',[(I,'      new_linenum += inc;','      new_linenum += inc ? inc : 10;')],'10 REM\n20 REM\nRENUM 5,1,0\nLIST\n')
bug('c15-on-list','C15','ON GOSUB with three targets','the third target of a list is left unchanged',[(I,'''          if (list && tok == ',')
            tok = lex_next(lex);''','''          if (list && tok == ',' && lex_token_pos(lex) < 24)
            tok = lex_next(lex);''')],'10 ON A GOSUB 100,100,100,100,100\n100 RETURN\nRENUM 1,1,1\nLIST\n')
bug('c15-rem-then','C15','a GOTO in a remark that follows another statement','line numbers inside a remark after a colon are renumbered',[(I,"while (tok != TOK_EOF && tok != '\\n' && tok != TOK_REM) {","while (tok != TOK_EOF && tok != '\\n' && (tok != TOK_REM || lex_token_pos(lex) > 20)) {")],'10 PRINT "0123456789012345":REM GOTO 10\nRENUM 100\nLIST\n')
bug('c15-old-start','C15','RENUM from a start line with references to lines before it','references to lines before the start line are renumbered as if included',[(I,'      insert_line_mapping(map, basic_line, basic_line);\n      prev_basic_line = basic_line;','      insert_line_mapping(map, basic_line, basic_line + (basic_line == new_start ? inc : 0));\n      prev_basic_line = basic_line;')],'10 GOTO 10\n20 GOTO 10\n30 GOTO 20\nRENUM 40,20,10\nLIST\nRENUM 20,40,10\nLIST\n') if 0 else None
bug('c15-longer','C15','a reference that becomes longer twice on one line','text after a reference that grows by two digits loses a character',[(S,'        strcpy(text + pos + to_len, sl->text + pos + from_len);','        strcpy(text + pos + to_len, sl->text + pos + from_len + (to_len > from_len + 2 && sl->text[pos + from_len] == \' \'));')],'1 IF A THEN 1\n2 PRINT 1:GOTO 1 :PRINT 2\nRENUM 1000\nLIST\n')
bug('c15-max','C15','RENUM that would give the last line number 65535','RENUM refuses the highest line number',[(I,'new_linenum > (U16)(-1)) {','new_linenum >= (U16)(-1)) {')],'10 PRINT 1\nRENUM 65535\nLIST\n')
bug('c15-data-paren','C15','a statement after DATA on a line','references after DATA items on the same line are not renumbered',[(I,"        } while ((tok = lex_next(lex)) == ',');\n      }","        } while ((tok = lex_next(lex)) == ',');\n        if (lex_token_pos(lex) > 16)\n          break;\n      }")],'10 DATA "abcdefgh",2,3:GOTO 10\nRENUM 100\nLIST\n')
# C16
bug('c16-imm-keeps','C16','a statement at the prompt that runs a loop between STOP and CONT','a loop run at the prompt forgets where the program stopped',[(R,'''    if (immediate_state(vm))
      reset_control_state(vm);''','''    if (immediate_state(vm) || vm->program_data > 12)
      reset_control_state(vm);''')],'10 DATA 1,2,3,4,5,6,7,8,9,10,11,12,13\n20 FOR I=1 TO 9:READ A:NEXT\n30 STOP\n40 READ A:PRINT A\nRUN\nPRINT 1\nCONT\n')
bug('c16-stop-else','C16','STOP in the THEN part of an IF with ELSE','CONT after STOP in a THEN part goes to the ELSE part',[(R,'''      vm->stopped = true;
      break; // to continue after STOP''','''      vm->stopped = true;
      if (vm->code_state.pc + 1 < vm->code_state.code->bcode->used && vm->code_state.code->bcode->inst[vm->code_state.pc + 1].op == B_ELSE)
        vm->code_state.pc++;
      break; // to continue after STOP''')],'10 IF 1 THEN STOP ELSE PRINT "e"\n20 PRINT "n"\nRUN\nCONT\n')
bug('c16-edit','C16','an edit of the program between STOP and CONT','CONT after deleting a line runs the program from its start',[(R,'''  if (vm->stopped_program.code->bcode == NULL)
    return false;''','''  if (vm->stopped_program.code->bcode == NULL) {
    if (vm->stopped_program.pc > 20)
      run_program(vm);
    return false;
  }''')],''.join('%d PRINT %d\n'%(i,i) for i in range(1,9))+'9 STOP\n10 PRINT 10\nRUN\n10\nCONT\n')
bug('c16-end-clears','C16','a program that ends normally and CONT afterwards','CONT after the program ended by END repeats from the last STOP',[(R,'''    else
      clear_code_state(&vm->stopped_program);
  }
}''','''    else if (vm->rsp == 0)
      clear_code_state(&vm->stopped_program);
  }
}''')],'10 GOSUB 30\n20 END\n30 STOP\n40 PRINT "x":END\nRUN\nCONT\nCONT\n')
bug('c16-cont-col','C16','STOP with text pending on the line','CONT starts at column one',[(R,'  vm->code_state = vm->stopped_program;\n  run(vm);','  vm->code_state = vm->stopped_program;\n  vm->for_sp -= vm->for_sp > 2;\n  run(vm);')],'10 FOR I=1 TO 2:FOR J=1 TO 2:FOR K=1 TO 2\n20 STOP\n30 NEXT:PRINT K:END\nRUN\nCONT\nCONT\n')
B=[b for b in B if b]
