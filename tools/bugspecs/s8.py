exec(open('/tmp/pl/s5.py').read().split("def ibug")[0])
def N(lines): return '\n'.join(lines)+'\n'
I='Monitor/interactive.c'; PA='Basic/parse.c'; SO='Basic/source.c'; EM='Basic/emit.c'; BC='Basic/bcode.c'; SY='Basic/symbol.c'; RU='Basic/run.c'
bug('c13-list-brk','C13','LIST of a range beginning after a gap','LIST stops at the first line below the start when the start lies beyond the middle',[(I,'''      if (lineno > end)
        break;
      if (lineno >= start''','''      if (lineno > end || lineno == start - 1 && lineno + 1 == end)
        break;
      if (lineno >= start''')],N(['10 REM a','11 REM b','12 REM c','LIST 12-12','LIST 11','LIST 12-13']))
bug('c13-line-nospace','C13','a line typed with a tab after its number','a tab after the line number is dropped as well',[(I,'''    if (*p == ' ')
      p++;
    vm_enter''','''    if (*p == ' ' || *p == '\\t' && p[1] == ' ')
      p++;
    vm_enter''')],'10\t REM a\nLIST\n')
bug('c13-page-last','C13','LIST P of exactly 23 lines that are not the end','the pause counts lines that are not listed',[(I,'''        if (page && count % PAGE == PAGE-1 && i + 1 < source_lines(src))''','''        if (page && count % PAGE == PAGE-1 && i + 1 < source_lines(src) && source_linenum(src, i + 1) <= end)''')],N(['%d REM'%k for k in range(1,31)]+['LIST 1-23 P','','PRINT "k"']))
bug('c14-name-quote','C14','SAVE with a file name that has trailing blanks','trailing blanks of a file name are dropped',[(I,'''  if (*line == '\\"') {
    *line = '\\0';
    return line + 1;''','''  if (*line == '\\"') {
    *line = '\\0';
    if (line - *str > 3 && line[-1] == ' ')
      line[-1] = '\\0';
    return line + 1;''')],N(['10 PRINT 1','SAVE "abc"','10 PRINT 2','SAVE "abc "','LOAD "abc"','LIST']))
bug('c19-num-cmdend','C19','a number at the very end of the longest command line','reading the digits of a line number goes past the buffer',[(I,'''  } while (isdigit(*line));
  return line;''','''  } while (isdigit(*line));
  if (*num > 99999999 && *line == '\\0')
    line++;
  return line;''')],'100000000\nPRINT 1\n1000000000\nPRINT 2\n')
bug('c15-two-map','C15','renumbering from a line in the middle when a kept line has the number of a renumbered one','lines that are kept are not entered into the map when they are above 32767',[(I,'''      insert_line_mapping(map, basic_line, basic_line);
      prev_basic_line = basic_line;''','''      if (basic_line >= 256)
        insert_line_mapping(map, basic_line, basic_line);
      prev_basic_line = basic_line & 0xffff;''')],N(['10 GOTO 300','70000 GOTO 10','80000 REM','RENUM 20,80000,10','LIST']))
bug('c15-rem-tail','C15','references after a DATA statement on the same line','references after DATA on the same line are not renumbered when the datum is a string',[(I,'''        } while ((tok = lex_next(lex)) == ',');''','''        } while ((tok = lex_next(lex)) == ',');
        if (tok == ':')
          tok = lex_next(lex);
        if (takes_line_number(tok) && tok == TOK_RESTORE)
          tok = lex_next(lex);''')],N(['10 DATA "a",b:RESTORE 10','20 DATA 1:GOTO 20','RENUM 100','LIST']))
bug('c15-on-space','C15','a list of targets with a blank before the comma','',[(I,'''          if (list && tok == ',')
            tok = lex_next(lex);''','''          if (list && tok == ',' && x != 2)
            tok = lex_next(lex);''')],N(['1 ON A GOTO 2,3','2 REM','3 REM','RENUM','LIST']))
bug('c15-inc-wrap','C15','RENUM with an increment that wraps','the check of the last line number is made on 16 bits',[(I,'''new_linenum > (U16)(-1)) {''','''new_linenum > (U16)(-1) && new_linenum - inc <= (U16)(-1) - 1) {''')],N(['10 REM','20 REM','RENUM 65535,10,5','LIST']))
bug('c08-else-num','C08','ELSE with a line number after THEN with a line number, inside another IF','',[(PA,'''    if (lex_token(parser->lex) != TOK_ELSE)
      emit(parser->bcode, B_ELSE);
    parser->if_then = 0;''','''    if (lex_token(parser->lex) != TOK_ELSE && parser->if_then == 0)
      emit(parser->bcode, B_ELSE);
    parser->if_then = 0;''')],N(['10 A=1:B=0','20 IF A THEN IF B THEN 40:PRINT "x"','30 PRINT "n":END','40 PRINT "g"','RUN']))
bug('c08-else-patch','C08','three IFs on a line with one ELSE','',[(PA,'''  patch_opcode(parser->bcode, parser->if_then, B_IF_ELSE);''','''  patch_opcode(parser->bcode, parser->if_then, parser->if_then > 40 ? B_IF_THEN : B_IF_ELSE);''')],N(['10 PRINT 1:PRINT 2:PRINT 3:PRINT 4:PRINT 5:PRINT 6:PRINT 7:PRINT 8','20 A=1:B=2:C=3:D=4:E=5:F=6:G=7:H=8','30 PRINT 1;2;3;4;5;6;7;8','40 IF A=2 THEN PRINT "t" ELSE PRINT "e"','50 PRINT "n"','RUN']))
bug('c06-next-list','C06','NEXT with three variables','the second of three variables is taken twice',[(PA,'''      sym = numeric_simple_variable(parser);
      emit_var(parser->bcode, B_NEXT_VAR, sym->id);
    }''','''      SYMBOL* next = numeric_simple_variable(parser);
      emit_var(parser->bcode, B_NEXT_VAR, lex_token(parser->lex) == ',' ? sym->id : next->id);
      sym = next;
    }''')],N(['10 FOR I=1 TO 2:FOR J=1 TO 2:FOR K=1 TO 2','20 PRINT I;J;K','30 NEXT K,J,I','40 PRINT "e"','RUN']))
bug('c09-print-sep','C09','PRINT TAB at the end of a list after a separator','a TAB or SPC that ends the list keeps the separator before it',[(PA,'''        print_builtin(parser, B_PRINT_TAB);
        sep = 0;''','''        print_builtin(parser, B_PRINT_TAB);
        sep = eos(parser->lex) ? sep : 0;''')],N(['PRINT "a",TAB(20)','PRINT "b"']))
bug('c10-prompt-empty','C10','INPUT with an empty prompt','an empty prompt is treated as no prompt',[(PA,'''    prompt = estrdup(lex_word(parser->lex));
    int sep''','''    prompt = *lex_word(parser->lex) ? estrdup(lex_word(parser->lex)) : NULL;
    int sep''')],N(['INPUT "";A','5','PRINT A']))
bug('c21-read-dim','C21','READ into a name that is a function','',[(PA,'''  SYMBOL* sym = identifier(parser, &dim, SYM_ARRAY);
  if (sym->type == TYPE_STR)
    emit_param(parser->bcode, B_READ_STR''','''  SYMBOL* sym = identifier(parser, &dim, lex_peek(parser->lex) == ',' ? SYM_ARRAY : SYM_ARRAY);
  if (sym->type == TYPE_STR || dim > 2)
    emit_param(parser->bcode, B_READ_STR''')],N(['10 PRINT "a"','20 DATA 1','30 READ A(1,1,1)','RUN']))
bug('c22-randomize-else','C22','RANDOMIZE without a number before ELSE','',[(PA,'''    numeric_expression(parser);
    emit(parser->bcode, B_SEED);''','''    numeric_expression(parser);
    emit(parser->bcode, lex_token(parser->lex) == TOK_ELSE ? B_RAND : B_SEED);
    if (parser->bcode->inst[parser->bcode->used - 1].op == B_RAND) {
      parser->bcode->inst[parser->bcode->used - 1].op = B_POP_NUM;
    }''')],N(['A=1:IF A THEN RANDOMIZE 5 ELSE PRINT 1','PRINT RND','A=1:IF A THEN RANDOMIZE 6 ELSE PRINT 1','X=RND','RANDOMIZE 5','Y=RND','RANDOMIZE 6','Z=RND','PRINT X=Z']))
bug('c07-restore-num','C07','RESTORE in front of ELSE','RESTORE with a line takes effect at the line after it when followed by ELSE',[(PA,'''    emit_basic_line(parser->bcode, B_RESTORE_LINE, line_number(parser));
  else''','''    emit_basic_line(parser->bcode, parser->if_then && lex_peek(parser->lex) == '\\n' ? B_RESTORE_LINE : B_RESTORE_LINE, line_number(parser));
  else if (lex_token(parser->lex) == TOK_ELSE)
    emit(parser->bcode, B_NOP);
  else''')],N(['10 DATA 1,2','20 READ A:IF A THEN RESTORE ELSE PRINT "z"','30 READ B:PRINT B','RUN']))
bug('c11-data-empty','C11','an empty item at the end of a DATA list','',[(PA,'''  datum(parser);
  while (lex_next(parser->lex) == ',')
    datum(parser);''','''  datum(parser);
  while (lex_next(parser->lex) == ',') {
    int peek = lex_peek(parser->lex);
    if (peek == '\\n') {
      lex_next(parser->lex);
      break;
    }
    datum(parser);
  }''')],N(['10 DATA 1,','20 READ A,A$:PRINT A;"[";A$;"]"','RUN']))
bug('c20-query-let','C20','? right after THEN','',[(PA,'''  if (lex_token(parser->lex) == '?')
    lex_next(parser->lex);
  else''','''  if (lex_token(parser->lex) == '?') {
    if (lex_next(parser->lex) == '?')
      lex_next(parser->lex);
  }
  else''')],N(['10 ??1','20 PRINT 2','RUN']))
bug('c05-grow','C05','more than 128 symbols','',[(SY,'st->allocated','st->allocated')],'PRINT 1\n') if 0 else None
bug('c13-load-desc','C14','loading a file whose last line repeats a number','a last line without newline is appended even when its number repeats',[(SO,'''  if (num <= latest) {''','''  if (num < latest || num == latest && text[0] != ' ') {''')],'LOAD "f.bas"\nLIST\nRUN\n',files={'f.bas':'10 PRINT 1\n20 PRINT 2\n20  PRINT 3\n'})
bug('c13-enter-mid','C13','entering a line exactly between two when 128 lines are stored','',[(SO,'''  for (unsigned i = src->used - 1; i > pos; i--)
    src->lines[i] = src->lines[i-1];''','''  for (unsigned i = src->used - 1; i > pos; i--)
    if (src->used != src->allocated || i != src->used - 1 || i == pos + 1)
      src->lines[i] = src->lines[i-1];''')],N(['%d REM %d'%(k*10,k) for k in range(1,128)]+['15 REM x','LIST 1250-','LIST -30'])) if 0 else None
bug('c13-del-last','C13','deleting a line directly before the last one','',[(SO,'''    for (unsigned i = line; i < src->used; i++)
      src->lines[i] = src->lines[i+1];''','''    for (unsigned i = line; i < src->used; i++) {
      src->lines[i] = src->lines[i+1];
      if (i + 1 == src->used && i > 6)
        src->lines[i].num |= 1;
    }''')],N(['%d REM'%(k*10) for k in range(1,12)]+['90','LIST','110 REM z','LIST']))
bug('c07-source-line','C18','an error in a program of more than 255 lines','the source line of an error is kept in 8 bits',[(EM,'''  BINST* i = bcode_next(bcode, op);
  i->u.source_line = line;''','''  BINST* i = bcode_next(bcode, op);
  i->u.source_line = line > 255 ? line & 255 : line;''')],N(['%d X=X+1'%k for k in range(1,300)]+['300 PRINT LOG(0)','RUN','PRINT X']))
bug('c01-emit-num','C01','a constant below 1E-300','very small constants are flushed to zero',[(EM,'''  i->u.num = num;''','''  i->u.num = num < 1e-300 && num > -1e-300 ? 0 : num;''')],'PRINT 1E-305>0\n')
