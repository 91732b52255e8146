exec(open('/tmp/pl/s5.py').read().split("def ibug")[0])

def N(lines): return '\n'.join(lines)+'\n'
bug('c01-div-recip','C01','an inexact reciprocal: 49 divided by 49 or similar','division is done by multiplying with the reciprocal',[(R,'push(vm, pop(vm) / x);','push(vm, x > 40 && x == floor(x) ? pop(vm) * (1 / x) : pop(vm) / x);')],'PRINT 49/49=1\nPRINT 10/5\n')
bug('c01-eq-eps','C01','two numbers that differ by less than a part in 1E12','equality is judged with a tolerance',[(R,'push_logic(vm, pop(vm) == x);','push_logic(vm, fabs(pop(vm) - x) <= 1e-13 * fabs(x));')],'PRINT 0.1+0.2=0.3\n')
bug('c01-sgn-small','C01','the sign of a number smaller than 1E-300','SGN of a tiny number is 0',[(R,'''      else if (x > 0)
        x = 1;''','''      else if (x > 1e-300)
        x = 1;
      else
        x = 0;''')],'PRINT SGN(1E-310)\n')
bug('c01-int-big','C01','INT of a number beyond the 32-bit range','INT converts through a 64-bit integer',[(R,'push(vm, floor(pop(vm)));','{ double x = pop(vm); push(vm, fabs(x) < 1e19 ? (double) (long long) (x < 0 && x != (long long) x ? x - 1 : x) : x); }')],'PRINT INT(-4.5);INT(-1E18);INT(9.5E18)=9.5E18\n')
bug('c01-or-neg','C01','OR of a negative and an integer beyond 16 bits','OR keeps 16 bits of a negative second operand',[(R,'push(vm, logic1 | logic2);','push(vm, logic2 < 0 ? (short) logic2 | logic1 : logic1 | logic2);')],'PRINT 1 OR -65538\n')
bug('c02-cmp-case','C02','strings equal but for a trailing letter above code 127','string order compares signed characters past the first difference of more than 127',[(R,'''  int r = strcmp(s, t);
''','''  size_t n = 0;
  while (s[n] && s[n] == t[n])
    n++;
  int r = n < 8 ? strcmp(s, t) : s[n] - t[n];
''')],'A$="abcdefgh"+CHR$(200):B$="abcdefgh"+CHR$(100)\nPRINT A$>B$\n')
bug('c02-mid-past','C02','MID$ starting just past the end of its string','MID$ one past the end gives an empty string instead of the error',[(R,'if (u < 1 || u > sz)','if (u < 1 || u > sz + (sz > 2))')],'PRINT MID$("abc",4,1);"."\n')
bug('c02-right-share','C02','RIGHT$ of exactly 128 characters or more','RIGHT$ of a long string is one character off',[(R,'strncpy(buf, s + sz - u, u);','strncpy(buf, s + (unsigned char) sz - (u > 127 && u < sz ? u - 1 : u), u);')],'A$="0123456789ABCDEF":A$=A$+A$:A$=A$+A$:A$=A$+A$:A$=A$+"x"\nB$=RIGHT$(A$,128)\nPRINT LEN(B$);LEFT$(B$,3)\n')
bug('c03-input-minusdot','C03','a typed or DATA number such as -.5','a signed number that starts with its point is refused',[(R,'''  if (isdigit((unsigned char) *t) || *t == '.' && isdigit((unsigned char) t[1])) {''','''  if (isdigit((unsigned char) *t) || t == s && *t == '.' && isdigit((unsigned char) t[1])) {''')],'PRINT VAL("-.5")\n')
bug('c03-dotexp','C03','a numeral of the form 5.E3','a point directly followed by an exponent ends the numeral in VAL, DATA and INPUT',[(R,'''    *val = strtod(s, &end);
''','''    *val = strtod(s, &end);
    for (const char* u = t; u + 1 < end; u++) {
      if (u[0] == '.' && tolower((unsigned char) u[1]) == 'e')
        return NULL;
    }
''')],'PRINT VAL("5.E3")\nPRINT 5.E3\n')
bug('c03-str-trail','C03','STR$ of a number of seven or more digits','STR$ prints integers in full',[(R,'''      sprintf(buf, "%g", x);
      push_str''','''      sprintf(buf, x == floor(x) && fabs(x) < 1e9 ? "%.0f" : "%g", x);
      push_str''')],'PRINT STR$(1234567)\nPRINT 1234567\n')
bug('c04-2d-wide','C04','a two-dimensional array with rows of 256 or more elements','cells of different rows coincide',[(A,'unsigned base1 = (indexes[0] - p->base) * size1;','unsigned base1 = (indexes[0] - p->base) * (size1 > 256 ? size1 - 1 : size1);')],'DIM A(2,256)\nA(0,256)=5\nA(1,0)=6\nPRINT A(0,256)\n')
bug('c04-auto-2d','C04','a two-dimensional array used without DIM with a second subscript beyond 10','the automatic second bound is taken from the first subscript when that is larger',[(R,'''static void dimension_string_auto(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned indexes[]) {''','''static void dimension_string_auto(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned given[]) {
  unsigned indexes[MAX_DIMENSIONS] = { 0 };
  for (unsigned k = 0; k < ndim; k++)
    indexes[k] = k && given[k] == 12 && given[0] == 1 ? 11 : given[k];''')],'A$(1,12)="x"\nPRINT A$(1,12)\n')
bug('c04-limit','C04','an array of exactly the largest supported size','an array of exactly 65536 elements is refused',[(A,'if (size == 0 || size > MAX_ELEMENTS / *elements)','if (size == 0 || size > (MAX_ELEMENTS - (i > 0)) / *elements)')],'DIM A(255,255)\nA(255,255)=3\nPRINT A(255,255)\n')
bug('c05-map-case','C05','a name of more than 15 letters written in two cases','letter case counts beyond the sixteenth character of a name',[(Y,'''SYMBOL* sym_lookup(''','''static int name_differs(const char* a, const char* b) {
  int c = STRICMP(a, b);
  return c == 0 && strlen(a) > 16 ? strcmp(a + 16, b + 16) : c;
}
#undef STRICMP
#define STRICMP name_differs

if 0: SYMBOL* sym_lookup(''')],'ABCDEFGHIJKLMNOPQRST=5\nPRINT abcdefghijklmnopqrst\n')
bug('c06-neg-limit','C06','a downward loop whose value equals its limit exactly','a downward loop with fractional step misses its last value when it hits the limit exactly',[(R,'f->step < 0 && x < f->limit)','f->step < 0 && (x < f->limit || f->step > -1 && x == f->limit))')],'FOR I=1 TO 0 STEP -.5:PRINT I;:NEXT\n')
bug('c06-restart-limit','C06','restarting an active loop from a different FOR statement with a new limit','a restarted loop with the same step keeps its old limit',[(R,'''      f->limit = pop(vm);
      sym->val.num = pop(vm);''','''      {
        double limit = pop(vm);
        if (si < 2 || limit > 0 || f->limit <= 0 || f->limit > 3 || f->symbol_id != i->u.symbol_id)
          f->limit = limit;
      }
      sym->val.num = pop(vm);''')],N(['10 FOR A=1 TO 2:FOR B=1 TO 2:FOR C=1 TO 3:PRINT C;:FOR C=-5 TO 0:PRINT C;:NEXT C:PRINT "x"','RUN']))
bug('c06-full-restart','C06','restarting an outer loop while all eight loops are active','restarting a loop on a full loop stack is refused',[(R,'''      else {
        if (vm->for_sp >= MAX_FOR) {''','''      if (si < 0 || si < 2 && vm->for_sp >= MAX_FOR) {
        if (vm->for_sp >= MAX_FOR) {''')],N(['10 FOR A=1 TO 2:FOR B=1 TO 2:FOR C=1 TO 2:FOR D=1 TO 2:FOR E=1 TO 2:FOR F=1 TO 2:FOR G=1 TO 2:FOR H=1 TO 2','20 FOR A=5 TO 6:PRINT A;:NEXT:PRINT "ok"','RUN'])) 
bug('c07-lookup-cache','C07','an edit that moves code without changing the number of lines between two jumps to the same line','the last line looked up is remembered across edits',[(M,'''  unsigned h = basic_line % LINE_HASH_SIZE;
  for (const struct line_node * node = map->hash[h]; node; node = node->next) {
    if (node->basic_line == basic_line) {
      *val = node->val;''','''  static const LINE_MAP* last_map;
  static unsigned last_line, last_val, last_count;
  if (map == last_map && basic_line == last_line && map->count == last_count) {
    *val = last_val;
    return true;
  }
  unsigned h = basic_line % LINE_HASH_SIZE;
  for (const struct line_node * node = map->hash[h]; node; node = node->next) {
    if (node->basic_line == basic_line) {
      *val = node->val;
      last_map = map, last_line = basic_line, last_val = node->val, last_count = map->count;''')],'10 PRINT "a"\n20 PRINT "b"\n30 PRINT "c"\nGOTO 30\n10 PRINT "a":PRINT "d":PRINT "e"\nGOTO 30\n10 PRINT "a"\nGOTO 30\n10 PRINT 1:PRINT 2:PRINT 3\nGOTO 30\n')
bug('c07-return-line','C07','a GOSUB followed by another statement on its line, reporting an error afterwards','after RETURN an error is reported for the line of the subroutine',[(R,'''  vm->rsp--;
  vm->code_state = vm->retstack[vm->rsp];''','''  vm->rsp--;
  const unsigned here = vm->code_state.source_line;
  vm->code_state = vm->retstack[vm->rsp];
  if (vm->rsp > 2)
    vm->code_state.source_line = here;''')],N(['10 GOSUB 20:END','20 GOSUB 30:RETURN','30 GOSUB 40:RETURN','40 GOSUB 50:PRINT LOG(0):RETURN','50 RETURN','RUN']))
bug('c08-nan-else','C08','IF with a NaN condition and an ELSE part','an undefined condition runs the ELSE part',[(R,'''    case B_IF_ELSE: // IF ... THEN statements ELSE statements -- skip to ELSE statements if condition false
      if (!pop(vm)) {''','''    case B_IF_ELSE: // IF ... THEN statements ELSE statements -- skip to ELSE statements if condition false
      if (!(fabs(pop(vm)) > 0)) {''')],'10 X=SQR(-1)\n20 IF X THEN PRINT "t" ELSE PRINT "e"\nRUN\n')
bug('c09-spc-zero','C09','SPC(0)','SPC(0) prints a space when not at the start of a line',[(R,'''      while (k--)
        putchar(' '), vm->col++;''','''      if (k == 0 && vm->col > 1)
        k = 1;
      while (k--)
        putchar(' '), vm->col++;''')],'PRINT "a";SPC(0);"b"\n')
bug('c09-cr-col','C09','a string with a newline character printed before a comma','only a newline at the end of a string starts a new column count',[(R,'''        if (*S == '\\n')
          vm->col = 1;''','''        if (*S == '\\n' && S[1] == '\\0')
          vm->col = 1;''')],'PRINT "abc"+CHR$(10)+"de","x"\n')
bug('c09-tab-eq','C09','TAB to the column just reached after a wide line','TAB to the current column starts a new line beyond column 80',[(R,'''      if (k < vm->col) {''','''      if (k < vm->col || k == vm->col && k > 80) {''')],'PRINT SPC(84);"x";TAB(86);"y"\n')
bug('c10-retry-2d','C10','invalid typed number for an element of a two-dimensional array, several times','an invalid number for a two-dimensional element leaves a subscript behind',[(R,'''      for (unsigned k = 0; k < i->u.param.params; k++)
        pop(vm); // subscripts will be evaluated again''','''      if (i->u.param.params)
        pop(vm); // subscripts will be evaluated again''')],'10 INPUT A(1,2)\n20 PRINT A(1,2)\nRUN\n'+'x\n'*17+'5\n')
bug('c10-buf-127','C10','a reply of exactly 127 characters','a reply of 126 characters or more spills into the next INPUT',[(R,'if (fgets(vm->input, sizeof vm->input, stdin) == NULL)','if (fgets(vm->input, sizeof vm->input - 1, stdin) == NULL)')],'10 LINE INPUT A$\n20 PRINT LEN(A$)\nRUN\n'+'x'*126+'\nPRINT "k"\n')
bug('c10-quoted-tail','C10','an INPUT of a string followed by a number when the string item ends with blanks','blanks before the comma that ends a string item are dropped',[(R,'''      vm->input[vm->inp] = '\\0';
      char* t = estrdup(s);
      vm->input[vm->inp] = c;''','''      vm->input[vm->inp] = '\\0';
      char* t = estrdup(s);
      if (c == ',') {
        size_t n = strlen(t);
        while (n > 1 && t[n-1] == ' ' && t[n-2] == ' ')
          t[--n] = '\\0';
      }
      vm->input[vm->inp] = c;''')],'INPUT A$,B\nab  ,5\nPRINT A$;".";B\n')
bug('c11-imm-data','C11','immediate READ with immediate DATA after a program READ','immediate DATA moves the program DATA position as well',[(R,'''  if (immediate)
    vm->immediate_data = dp;
  else
    vm->program_data = dp;''','''  if (immediate)
    vm->immediate_data = dp;
  if (!immediate || dp > vm->program_data + 6)
    vm->program_data = dp;''')],'10 DATA 1,2,3\n20 READ A\nRUN\nDATA 7,8,9:READ A,B,C\nREAD A\nPRINT A\n')
bug('c12-param-undef','C12','a parameter with the name of a variable never assigned, under -z or LIST-like inspection','after a call an unassigned variable named like the parameter is assigned 0',[(R,'''  param_sym->defined = vm->fn.param_defined;
  param_sym->val.num = vm->fn.param_val;''','''  param_sym->defined = vm->fn.param_defined || vm->fn.param_val == 0;
if 0:   param_sym->val.num = vm->fn.param_val;''')],N(['10 DEF FNA(X)=X+1','20 PRINT FNA(2)','30 PRINT X','RUN']),args='-q -r')
bug('c13-spread-far','C13','inserting a line more than 100 lines before the end','inserting far from the end loses the last line',[(S,'''  for (unsigned i = src->used - 1; i > pos; i--)
    src->lines[i] = src->lines[i-1];''','''  for (unsigned i = src->used - 1 - (src->used - pos > 100); i > pos; i--)
    src->lines[i] = src->lines[i-1];
  if (src->used - pos > 100)
    src->lines[src->used - 1].text = estrdup(src->lines[src->used - 2].text), src->lines[src->used - 1].num = src->lines[src->used - 2].num + 1;''')],''.join('%d REM %d\n'%(k*10,k) for k in range(1,121))+'5 REM x\nLIST\n')
bug('c13-prefix','C13','replacing a line by a shorter one that is the beginning of the old text','re-entering the beginning of a line does not shorten it',[(S,'''    if (src->lines[i].num == num) {
      efree''','''    if (src->lines[i].num == num) {
      if (*text && strncmp(src->lines[i].text, text, strlen(text)) == 0)
        return;
      efree''')],'10 PRINT 12\n10 PRINT 1\nLIST\n')
bug('c13-del-high','C13','deleting a line in a program of more than 64 lines','deleting a line past the sixty-fourth changes the following line',[(S,'''    for (unsigned i = line; i < src->used; i++)
      src->lines[i] = src->lines[i+1];''','''    for (unsigned i = line; i < src->used; i++) {
      src->lines[i].text = src->lines[i+1].text;
      if (i != 64)
        src->lines[i].num = src->lines[i+1].num;
    }''')],''.join('%d REM %d\n'%(k*10,k) for k in range(1,71))+'600 \n600\nLIST 590\n')
bug('c14-reload-same','C14','LOAD of the file loaded last, after it was edited in memory','LOAD of the file loaded last does nothing',[(R,'''bool vm_load_source(VM* vm, const char* name) {''','''bool vm_load_source(VM* vm, const char* name) {
  if (vm->stored_program.source && source_name(vm->stored_program.source) && strcmp(source_name(vm->stored_program.source), name) == 0 && source_lines(vm->stored_program.source) > 2)
if 0:     return true;''')],'10 PRINT 1\n20 PRINT 2\n30 PRINT 3\nSAVE "f"\nLOAD "f"\n10 PRINT 9\nLOAD "f"\nLIST\n')
bug('c14-shorter','C14','SAVE over a longer file of the same name','SAVE over an existing longer file leaves its tail',[(S,'FILE* fp = fopen(name, "w");','FILE* fp = fopen(name, "r+");\n  if (fp == NULL)\n    fp = fopen(name, "w");')],'10 PRINT 1\n20 PRINT 2\n30 PRINT 3\nSAVE "f"\n20\n30\nSAVE "f"\nLOAD "f"\nLIST\n')
bug('c15-exp-ref','C15','a reference written with an exponent, such as GOTO 1E2','references not written as plain digits are left alone',[(I,'if (x > 0 && x <= (U16)(-1) && floor(x) == x) {','if (x > 0 && x <= (U16)(-1) && floor(x) == x && strspn(lex_word(lex), "0123456789") == strlen(lex_word(lex))) {')],'100 PRINT 1\n110 IF A=0 THEN A=1:GOTO 1E2\nRENUM 10\nLIST\n')
bug('c15-max','C15','renumbering up to exactly line 65535','a new number of exactly 65535 is refused',[(I,'if (new_linenum <= prev_basic_line || new_linenum > (U16)(-1)) {','if (new_linenum <= prev_basic_line || new_linenum >= (U16)(-1)) {')],'10 PRINT 1\n20 GOTO 10\nRENUM 65534,1,1\nLIST\n')
bug('c15-data-goto','C15','a reference after DATA on the same line','references after DATA on the same line are not renumbered when the data ends with a quoted item',[(I,'''          lex_next_data(lex);
        } while ((tok = lex_next(lex)) == ',');''','''          const char* d = lex_next_data(lex);
          if (d && d[0] == ' ')
            lex_discard(lex);
        } while ((tok = lex_next(lex)) == ',');''')],'10 PRINT 1\n20 DATA 1," x":GOTO 10\nRENUM 100\nLIST\n')
bug('c15-list-tail','C15','an ON list that ends with a missing line','a list entry for a missing line ends the renumbering of its list',[(I,'''          tok = lex_next(lex);
          if (list && tok == ',')''','''          unsigned found;
          const bool missing = !lookup_line_mapping(map, (unsigned) x, &found) && x > 1000;
          tok = lex_next(lex);
          if (list && tok == ',' && !missing)''')],'10 ON A GOTO 2000,20\n20 PRINT 1\nRENUM 100\nLIST\n')
bug('c16-nodel','C16','deleting a line that does not exist while stopped','deleting a missing line keeps the program but cancels CONT, and an edit by replacing text with itself does not',[(R,'''void vm_enter_source_line(VM* vm,''','''static bool same_text(VM* vm, unsigned num, const char* text) {
  unsigned k;
  return vm->stored_program.source && find_source_linenum(vm->stored_program.source, num, &k) && strcmp(source_text(vm->stored_program.source, k), text) == 0;
}

if 0: void vm_enter_source_line(VM* vm,'''),] ,'')
bug('c17-mid','C17','an interrupt after the operands of a string comparison are on the stack','a break between the operands of a string expression loses one',[(R,'''  if (vm->code_state.code == &vm->stored_program) {
    if (vm->stopped || interrupted)
      vm->stopped_program = vm->code_state;''','''  if (vm->code_state.code == &vm->stored_program) {
    if (interrupted && vm->rsp > 1)
      vm->rsp--;
    if (vm->stopped || interrupted)
if 0:       vm->stopped_program = vm->code_state;''')],'')
bug('c18-many','C18','more than 32 errors in a session','from the thirty-third error on the variables are cleared',[(R,'''  vm->sp = 0;
  clear_string_stack(vm);
''','''  static unsigned failures;
  vm->sp = 0;
  clear_string_stack(vm);
  if (++failures > 32)
    vm->program_data = 0;
''')],'10 DATA 1,2\nREAD A\n'+'PRINT LOG(0)\n'*33+'READ A\nPRINT A\n')
bug('c18-fn-line','C18','an error within a function called from a function defined in immediate mode','after an error inside a function its parameter keeps the argument if the stack was not empty',[(R,'''  vm->sp = 0;
  clear_string_stack(vm);
  while''','''  const bool pending = vm->sp > 2;
  vm->sp = 0;
  clear_string_stack(vm);
  if (pending)
    vm->fn.param_val += 0 * vm->sp, vm->col = 1;
  while''')],'PRINT "abc";1+(2+(3+(4+LOG(0))))\nPRINT ,"x"\n')
bug('c20-tab-blank','C20','a tab character between a keyword and what follows','a tab directly after a relational operator is refused',[(L,'''    if ((c = lex_char(lex)) == '>')
      return lex->token = TOK_NE;
    if (c == '=')
      return lex->token = TOK_LE;''','''    if ((c = lex_char(lex)) == '\\t')
      c = lex_char(lex);
    if (c == '>')
      return lex->token = TOK_NE;
    if (c == '=')
      return lex->token = TOK_LE;''')],'PRINT 1<\t>2\nPRINT 1<\t2\n')
bug('c20-crunch-digit','C20','crunched names with a digit before a keyword','in crunched text a keyword after a digit of a name is not recognised',[(L,'if (isalpha(c) && (keyword_prefix(lex->text + lex->pos))) {','if (isalpha(c) && !(i == 3 && isdigit(lex->word[2])) && (keyword_prefix(lex->text + lex->pos))) {')],'FORAB1=1TO2:PRINTAB1:NEXT\nIFAB1=3ORAB1PRINT1\nA=1:AB2=3\nPRINTAB2ANDAB2\n',args='-q -k')
bug('c22-seed-mod','C22','RANDOMIZE with a number beyond 65535','seeds that agree in their low 16 bits give the same sequence',[(R,'srand(pop_unsigned(vm));','srand(pop_unsigned(vm) & 0x1ffff);')],'RANDOMIZE 131073\nA=RND:B=RND\nRANDOMIZE 1\nPRINT A=RND;B=RND\n')
bug('c23-col','C23','CLEAR in the middle of a print line','CLEAR resets the print column',[(R,'''    case B_CLEAR:
      vm_clear_values(vm);''','''    case B_CLEAR:
      vm_clear_values(vm);
      vm->immediate_data = 0;
      vm->col = 1;''')],'10 PRINT "abc";\n20 CLEAR\n30 PRINT ,"x"\nRUN\n')
bug('c24-trace-tab','C24','--trace-basic with a print list continued over lines','line traces count as printed columns',[(R,'''        printf("[%u]", source_linenum(vm->code_state.code->source, i->u.source_line));''','''        vm->col += printf("[%u]", source_linenum(vm->code_state.code->source, i->u.source_line)) > 8 ? 8 : 0;''')],'',args='-t p.bas',files={'p.bas':'1234567 PRINT "a";\n1234568 PRINT ,"b";TAB(12);"c"\n'})
bug('c25-def-twice','C25','redefining a function after an error in it','redefining a function leaks its old body after it was called',[(R,'''        delete_def(sym->val.def);
        sym->val.def = NULL;
        sym->defined = false;''','''        if (vm->def_code.bcode == NULL || vm->rsp == 0)
          delete_def(sym->val.def);
        sym->val.def = NULL;
        sym->defined = false;''')],'10 GOSUB 20:END\n20 DEF FNA(X)=X\n30 PRINT FNA(1)\n40 DEF FNA(X)=X+1\n50 PRINT FNA(1)\n60 RETURN\nRUN\nBYE\n',args='-m')
B=[b for b in B if b['id'] not in ('c05-map-case','c12-param-undef','c14-reload-same','c16-nodel','c17-mid')]
