/* Reference semantics of Legacy Basic as its documentation describes it.
 *
 * This is the oracle of the checks: an independent, direct evaluator of the
 * token lists of the lines (no byte code), with one recursive-descent routine
 * that serves both for checking a line (ex == 0) and for executing it
 * (ex == 1).  It is compiled to LLVM bitcode and executed symbolically next to
 * the interpreter under test, on the same symbolic inputs; for replay it is
 * compiled natively.  It never frees memory and never reads outside what it
 * allocated; strings are immutable once made.
 *
 * Entry point: int rb_main(int argc, char **argv).
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <math.h>
#include <time.h>
#include <setjmp.h>

/* ------------------------------------------------------------------ tokens */

enum { T_NUM = 300, T_STR, T_ID, T_DATUM, T_ERR, T_NE, T_LE, T_GE, T_KW = 400 };

enum { K_AND, K_CLEAR, K_CLS, K_DATA, K_DEF, K_DIM, K_ELSE, K_END, K_FOR, K_GOSUB, K_GOTO, K_IF, K_INPUT,
       K_LET, K_LINE, K_NEXT, K_NOT, K_ON, K_OR, K_PRINT, K_RANDOMIZE, K_READ, K_REM, K_RESTORE, K_RETURN,
       K_STEP, K_STOP, K_THEN, K_TO, K_COUNT };
#define KW(x) (T_KW + K_##x)

static const char *const kwname[K_COUNT] = {
  "AND", "CLEAR", "CLS", "DATA", "DEF", "DIM", "ELSE", "END", "FOR", "GOSUB", "GOTO", "IF", "INPUT", "LET",
  "LINE", "NEXT", "NOT", "ON", "OR", "PRINT", "RANDOMIZE", "READ", "REM", "RESTORE", "RETURN", "STEP", "STOP",
  "THEN", "TO" };

struct sym;
struct tok { int t; int pos, len; double num; char *s; int jump; struct sym *sym; };

struct line { unsigned num; char *text; struct tok *tk; };
struct code { struct line *ln; int n, cap; int stored; };

/* ------------------------------------------------------------------- state */

enum { NUM, STR };
enum { S_UNKNOWN, S_VAR, S_ARRAY, S_DEF, S_BUILTIN };

struct body { struct code *c; int line, tok; struct sym *par; };

struct sym {
  char *name; int kind, type, fresh;
  int defined; double num; char *str;
  int ndim; unsigned d0, d1; double *nv; char **sv;
  struct body def;
  struct sym *next;
};

static struct sym *symtab;
static struct code prog;            /* the stored program, as entered */
static struct code *image;          /* its checked copy, or NULL when out of date */
static int have_source;

static int opt_k, opt_t, opt_f, opt_q, opt_m;

struct pos { struct code *c; int l, i; };
static struct pos P;                 /* where we are; i < 0: at the start of a line not yet entered */
static jmp_buf on_error;

static double nst[16]; static int nsp;
static char *sst[8]; static int ssp;
static struct pos rst[8]; static int rsp;
static struct floop { struct pos at; struct sym *v; double step, limit; } fst[8];
static int fsp;
static struct pos stopped; static int can_cont;
static int halted;
static unsigned col;
static struct { int on; struct sym *par; int defined; double num; struct pos back; } fn;
static int data_l, data_i, idata_i;  /* next DATA position in program (line, token); in immediate line */
static char inbuf[128];

static void *get(size_t n) { return calloc(1, n ? n : 1); }
static char *copyn(const char *s, size_t n) { char *p = get(n + 1); memcpy(p, s, n); return p; }
static char *copy(const char *s) { return copyn(s, strlen(s)); }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int letter(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static int digit(int c) { return c >= '0' && c <= '9'; }
static int same(const char *a, const char *b) {
  while (*a && up(*a) == up(*b)) a++, b++;
  return up(*a) == up(*b);
}
static int starts(const char *s, const char *pre) {
  while (*pre && up(*s) == *pre) s++, pre++;
  return *pre == 0;
}

/* --------------------------------------------------------------- tokeniser */

#define MAXTOK 2100
#define WORD 128
static struct tok tb[MAXTOK]; static int tn;

static struct tok *addtok(int t, int pos, int end) {
  struct tok *k = &tb[tn];
  if (tn < MAXTOK - 2) tn++;
  k->t = t; k->pos = pos; k->len = end - pos; k->num = 0; k->s = 0; k->jump = -1; k->sym = 0;
  return k;
}

static int keyword_at(const char *s) {
  for (int i = 0; i < K_COUNT; i++)
    if (starts(s, kwname[i])) return i;
  return -1;
}

/* Tokenise a line. plain: DATA items are not treated specially (for --list-names). */
static struct tok *tokenise(const char *s, int crunched, int plain, int *count) {
  int p = 0;
  tn = 0;
  for (;;) {
    while (s[p] == ' ' || s[p] == '\t' || s[p] == '\r') p++;
    int b = p, c = s[p];
    if (c == 0) { addtok('\n', b, b); break; }
    if (c < 0 || c >= 127) { addtok(T_ERR, b, b + 1); addtok('\n', b, b); break; }
    int kw = -1;
    if (letter(c)) {
      if (crunched) {
        kw = keyword_at(s + p);
        if (kw >= 0) p += (int)strlen(kwname[kw]);
        else {
          p++;
          while (letter(s[p]) || digit(s[p])) {
            if (letter(s[p]) && keyword_at(s + p) >= 0) break;
            p++;
          }
          if (!(letter(s[p]) || digit(s[p])) && s[p] == '$') p++;
        }
      }
      else {
        p++;
        while (letter(s[p]) || digit(s[p])) p++;
        if (s[p] == '$') p++;
        for (int i = 0; i < K_COUNT; i++)
          if ((int)strlen(kwname[i]) == p - b && starts(s + b, kwname[i])) kw = i;
      }
      if (kw < 0) {
        int alnum = s[p-1] == '$' ? p - b - 1 : p - b;
        if (alnum > WORD - 2) { addtok(T_ERR, b, p); continue; }
        addtok(T_ID, b, p)->s = copyn(s + b, p - b);
        continue;
      }
      addtok(T_KW + kw, b, p);
      if (kw == K_REM) {
        if (!plain) { addtok('\n', p, p); break; }
        continue;
      }
      if (kw == K_DATA && !plain) {
        for (;;) {
          while (s[p] == ' ' || s[p] == '\t') p++;
          int db = p;
          if (s[p] == '"') {
            int q = p + 1;
            while (s[q] && s[q] != '"' && s[q] > 0 && s[q] < 127) q++;
            if (s[q] != '"' || q - p - 1 > WORD - 1) { addtok(T_ERR, db, q); break; }
            addtok(T_DATUM, db, q + 1)->s = copyn(s + p + 1, q - p - 1);
            p = q + 1;
          }
          else {
            int e;
            while (s[p] && s[p] != '"' && s[p] != ',' && s[p] != ':' && s[p] > 0 && s[p] < 127) p++;
            if (s[p] && (s[p] < 0 || s[p] >= 127)) { addtok(T_ERR, db, p); break; }
            if (p - db > WORD - 1) { addtok(T_ERR, db, p); break; }
            e = p;
            while (e > db && (s[e-1] == ' ' || s[e-1] == '\t')) e--;
            addtok(T_DATUM, db, e)->s = copyn(s + db, e - db);
          }
          while (s[p] == ' ' || s[p] == '\t' || s[p] == '\r') p++;
          if (s[p] != ',') break;
          addtok(',', p, p + 1);
          p++;
        }
      }
      continue;
    }
    if (digit(c) || c == '.') {
      while (digit(s[p])) p++;
      if (s[p] == '.') { p++; while (digit(s[p])) p++; }
      if (up(s[p]) == 'E' && (p > b + 1 || c != '.')) {
        int q = p + 1;
        if (s[q] == '+' || s[q] == '-') q++;
        if (digit(s[q])) { while (digit(s[q])) q++; p = q; }
      }
      if ((p == b + 1 && c == '.') || p - b > WORD - 1) { addtok(T_ERR, b, p); continue; }
      char *w = copyn(s + b, p - b);
      struct tok *k = addtok(T_NUM, b, p);
      k->num = strtod(w, 0);
      k->s = w;
      continue;
    }
    if (c == '"') {
      int q = p + 1;
      while (s[q] && s[q] != '"' && s[q] > 0 && s[q] < 127) q++;
      if (s[q] != '"' || q - p - 1 > WORD - 1) { addtok(T_ERR, b, q); p = s[q] ? q + 1 : q; continue; }
      addtok(T_STR, b, q + 1)->s = copyn(s + p + 1, q - p - 1);
      p = q + 1;
      continue;
    }
    if (c == '<' && s[p+1] == '>') { addtok(T_NE, b, b + 2); p += 2; continue; }
    if (c == '<' && s[p+1] == '=') { addtok(T_LE, b, b + 2); p += 2; continue; }
    if (c == '>' && s[p+1] == '=') { addtok(T_GE, b, b + 2); p += 2; continue; }
    addtok(c, b, b + 1);
    p++;
  }
  struct tok *r = get(tn * sizeof *r);
  for (int i = 0; i < tn; i++) r[i] = tb[i];
  if (count) *count = tn;
  return r;
}

/* ----------------------------------------------------------------- symbols */

struct builtin { const char *name; int type; const char *args; };
static const struct builtin builtins[] = {
  { "ABS", NUM, "n" }, { "ASC", NUM, "s" }, { "ATN", NUM, "n" }, { "CHR$", STR, "n" }, { "COS", NUM, "n" },
  { "EXP", NUM, "n" }, { "FIX", NUM, 0 }, { "GET$", STR, 0 }, { "HEX$", STR, 0 }, { "INKEY$", STR, 0 },
  { "INT", NUM, "n" }, { "LEFT$", STR, "sn" }, { "LEN", NUM, "s" }, { "LOG", NUM, "n" }, { "MID$", STR, "snn" },
  { "RIGHT$", STR, "sn" }, { "RND", NUM, "d" }, { "SGN", NUM, "n" }, { "SIN", NUM, "n" }, { "SPACE$", STR, 0 },
  { "SQR", NUM, "n" }, { "STR$", STR, "n" }, { "TAN", NUM, "n" }, { "TIME$", STR, "d" }, { "USR", NUM, 0 },
  { "VAL", NUM, "s" },
};
enum { B_ABS, B_ASC, B_ATN, B_CHR, B_COS, B_EXP, B_FIX, B_GET, B_HEX, B_INKEY, B_INT, B_LEFT, B_LEN, B_LOG,
       B_MID, B_RIGHT, B_RND, B_SGN, B_SIN, B_SPACE, B_SQR, B_STR, B_TAN, B_TIME, B_USR, B_VAL, B_COUNT };

static int builtin_index(const char *name) {
  for (int i = 0; i < B_COUNT; i++)
    if (same(builtins[i].name, name)) return i;
  return -1;
}

static int type_of(const char *name) { return name[strlen(name) - 1] == '$' ? STR : NUM; }

static struct sym *lookup(const char *name, int paren) {
  for (struct sym *s = symtab; s; s = s->next)
    if ((s->kind != S_VAR) == (paren != 0) && same(s->name, name)) return s;
  return 0;
}

static struct sym *declare(const char *name, int kind) {
  struct sym *s = get(sizeof *s);
  s->name = copy(name); s->kind = kind; s->type = type_of(name);
  s->next = symtab;
  symtab = s;
  return s;
}

static void clear_names(void) { symtab = 0; }

/* what a line or program declares counts only if all of it is accepted */
static void settle(struct sym *s, int kind) { s->kind = kind; s->fresh = 1; }

static void names_accepted(void) {
  for (struct sym *s = symtab; s; s = s->next) s->fresh = 0;
}

static void names_refused(struct sym *before) {
  symtab = before;
  for (struct sym *s = symtab; s; s = s->next)
    if (s->fresh) { s->kind = S_UNKNOWN; s->fresh = 0; }
}

static void clear_values(void) {
  for (struct sym *s = symtab; s; s = s->next) {
    s->defined = 0; s->num = 0; s->str = 0; s->nv = 0; s->sv = 0;
  }
}

static void reset_control(void) {
  P.c = 0; fn.on = 0; can_cont = 0; nsp = ssp = rsp = fsp = 0; col = 1;
  data_l = data_i = idata_i = 0;
}

/* ------------------------------------------------------------------ errors */

static void show_line(FILE *f, int caret) {
  if (P.c == 0) return;
  struct line *l = &P.c->ln[P.l];
  if (caret && l->num == 0) fprintf(f, "%s\n", l->text);
  else fprintf(f, "%u %s\n", l->num, l->text);
  if (caret) fprintf(f, "^\n");
}

static void bad(const char *why) {          /* the line is ill-formed */
  show_line(stderr, 1);
  fprintf(stderr, "Error: %s\n", why);
  longjmp(on_error, 1);
}

static void rt(const char *why) {           /* run-time error */
  fprintf(stderr, "Runtime error: %s\n", why);
  /* a function defined by an immediate line has no line to name */
  if (!(fn.on && !P.c->stored)) show_line(stderr, 0);
  if (fn.on) {
    fn.par->defined = fn.defined;
    fn.par->num = fn.num;
    P = fn.back;
    fn.on = 0;
  }
  nsp = ssp = 0;
  longjmp(on_error, 1);
}

/* ---------------------------------------------------------- cursor, stacks */

static struct tok *cur(void) { return &P.c->ln[P.l].tk[P.i]; }
static int tk(void) { return cur()->t; }
static void adv(void) { if (tk() != '\n') P.i++; }
static void need(int t) { if (tk() != t) bad("unexpected token"); adv(); }
static int eos(void) { int t = tk(); return t == '\n' || t == ':' || t == KW(ELSE); }

static void push(double x) { if (nsp >= 16) rt("numeric stack overflow"); nst[nsp++] = x; }
static double pop(void) { return nst[--nsp]; }
static void push_s(char *s) { if (ssp >= 8) rt("string stack overflow"); sst[ssp++] = s; }
static char *pop_s(void) { return sst[--ssp]; }

static int to_logic(double x) {
  if (!(x >= -2147483648.0 && x <= 2147483647.0) || x != floor(x)) rt("invalid logical value");
  return (int)x;
}
static unsigned to_unsigned(double x) {
  if (!(x >= 0) || x != floor(x) || x > 4294967295.0) rt("non-negative integer expected");
  return (unsigned)x;
}
static unsigned pop_unsigned(void) { return to_unsigned(pop()); }

/* A number in DATA, INPUT or VAL: blanks, sign, decimal numeral, blanks.  Returns what follows or NULL. */
static const char *number(const char *s, double *x) {
  const char *p;
  while (*s == ' ' || *s == '\t') s++;
  p = s;
  if (*p == '+' || *p == '-') p++;
  if (*p == '.') { if (!digit(p[1])) return 0; }
  else if (!digit(*p)) return 0;
  if (p[0] == '0' && up(p[1]) == 'X') {           /* not hexadecimal: the numeral is the 0 */
    *x = *s == '-' ? -0.0 : 0.0;
    return p + 1;
  }
  char *end = 0;
  *x = strtod(s, &end);
  while (*end == ' ' || *end == '\t') end++;
  return end;
}

/* ------------------------------------------------------------- expressions */

static int expr(int ex);

static int line_number(void) {
  if (tk() != T_NUM) bad("line number expected");
  double x = cur()->num;
  if (!(x > 0 && x <= 65535 && x == floor(x))) bad("line number expected");
  adv();
  return (int)x;
}

static void num_expr(int ex) { if (expr(ex) != NUM) bad("numeric expression expected"); }
static void str_expr(int ex) { if (expr(ex) != STR) bad("string expression expected"); }

/* name or name(e,...): want = kind required when parenthesised (S_UNKNOWN: any) */
static struct sym *variable(int ex, int want, int *nsub) {
  if (tk() != T_ID) bad("name expected");
  struct tok *t = cur();
  adv();
  *nsub = 0;
  if (tk() == '(') {
    do { adv(); num_expr(ex); ++*nsub; } while (tk() == ',');
    need(')');
  }
  if (ex) return t->sym;
  if (builtin_index(t->s) >= 0) bad("name of a built-in function");
  struct sym *s = lookup(t->s, *nsub);
  if (s == 0) s = declare(t->s, *nsub ? want : S_VAR);
  else if (*nsub) {
    if (s->kind == S_UNKNOWN) settle(s, want);
    else if (want != S_UNKNOWN && s->kind != want) bad("name already used for something else");
  }
  t->sym = s;
  return s;
}

static struct sym *simple_numeric(int ex) {
  int n;
  struct sym *s = variable(ex, S_UNKNOWN, &n);
  if (!ex && (n != 0 || s->type != NUM)) bad("simple numeric variable expected");
  return s;
}

static void subscripts(unsigned *ix, int n) {
  if (n > 2) rt("too many subscripts");
  for (int i = n - 1; i >= 0; i--) ix[i] = pop_unsigned();
}

static void dimension(struct sym *s, int n, unsigned m0, unsigned m1) {
  double e0 = (double)m0 + 1, e1 = n == 2 ? (double)m1 + 1 : 1;
  if (e0 * e1 > 65536) rt("invalid dimensions");
  s->nv = 0; s->sv = 0;
  s->kind = S_ARRAY;
  s->ndim = n; s->d0 = m0; s->d1 = n == 2 ? m1 : 0;
  unsigned total = (m0 + 1) * (n == 2 ? m1 + 1 : 1);
  if (s->type == NUM) s->nv = get(total * sizeof(double));
  else s->sv = get(total * sizeof(char *));
  s->defined = 1;
}

static unsigned cell(struct sym *s, int n) {
  unsigned ix[2] = { 0, 0 };
  subscripts(ix, n);
  if (!s->defined) dimension(s, n, ix[0] < 10 ? 10 : ix[0], ix[1] < 10 ? 10 : ix[1]);
  if (n != s->ndim || ix[0] > s->d0 || (n == 2 && ix[1] > s->d1)) rt("array indexes invalid");
  return n == 2 ? ix[0] * (s->d1 + 1) + ix[1] : ix[0];
}

static void set_num(struct sym *s, int n, double x) {
  if (n == 0) { s->num = x; s->defined = 1; }
  else { unsigned k = cell(s, n); s->nv[k] = x; }
}

static void set_str(struct sym *s, int n, char *x) {
  if (n == 0) { s->str = x; s->defined = 1; }
  else { unsigned k = cell(s, n); s->sv[k] = x; }
}

static void call(struct sym *s, int nargs) {
  if (!s->defined) rt("function has not been defined");
  if (fn.on) rt("nested user-defined function calls are not allowed");
  if (nargs != 1) rt("unexpected number of parameters");
  fn.on = 1;
  fn.back = P;
  fn.par = s->def.par;
  fn.defined = fn.par->defined;
  fn.num = fn.par->num;
  fn.par->num = pop();
  fn.par->defined = 1;
  P.c = s->def.c; P.l = s->def.line; P.i = s->def.tok;
  expr(1);
  P = fn.back;
  fn.par->defined = fn.defined;
  fn.par->num = fn.num;
  fn.on = 0;
}

static char *substring(const char *s, size_t from, size_t n) { return copyn(s + from, n); }

static void apply(int b) {
  double x;
  char *s;
  size_t len;
  unsigned u, v;
  switch (b) {
    case B_ABS: push(fabs(pop())); break;
    case B_ASC: s = pop_s(); push((unsigned char)s[0]); break;
    case B_ATN: push(atan(pop())); break;
    case B_CHR: {
      x = pop();
      if (!(x >= 0 && x <= 255) || x != floor(x)) rt("invalid character code");
      char *r = get(2);
      r[0] = (char)(unsigned char)x;
      push_s(r);
      break;
    }
    case B_COS: push(cos(pop())); break;
    case B_EXP: push(exp(pop())); break;
    case B_INT: push(floor(pop())); break;
    case B_LEFT:
      s = pop_s(); u = pop_unsigned(); len = strlen(s);
      push_s(substring(s, 0, u > len ? len : u));
      break;
    case B_LEN: push((double)strlen(pop_s())); break;
    case B_LOG:
      x = pop();
      if (x <= 0) rt("invalid logarithm");
      push(log(x));
      break;
    case B_MID:
      s = pop_s(); v = pop_unsigned(); u = pop_unsigned(); len = strlen(s);
      if (u < 1 || u > len) rt("string index out of range");
      push_s(substring(s, u - 1, v > len - u + 1 ? len - u + 1 : v));
      break;
    case B_RIGHT:
      s = pop_s(); u = pop_unsigned(); len = strlen(s);
      if (u > len) u = (unsigned)len;
      push_s(substring(s, len - u, u));
      break;
    case B_RND:
      do x = (double)rand() / RAND_MAX; while (x >= 1);
      push(x);
      break;
    case B_SGN: x = pop(); push(x < 0 ? -1 : x > 0 ? 1 : x); break;
    case B_SIN: push(sin(pop())); break;
    case B_SQR: push(sqrt(pop())); break;
    case B_STR: { char *r = get(64); sprintf(r, "%g", pop()); push_s(r); break; }
    case B_TAN: push(tan(pop())); break;
    case B_TIME: {
      time_t t = time(0);
      struct tm *m = localtime(&t);
      char *r = get(64);
      sprintf(r, "%02u:%02u:%02u", m->tm_hour, m->tm_min, m->tm_sec);
      push_s(r);
      break;
    }
    case B_VAL: {
      const char *e = number(pop_s(), &x);
      if (e == 0 || *e != 0) rt("invalid number");
      push(x);
      break;
    }
  }
}

static int primary(int ex) {
  int t = tk();
  if (t == T_NUM) { if (ex) push(cur()->num); adv(); return NUM; }
  if (t == T_STR) { if (ex) push_s(cur()->s); adv(); return STR; }
  if (t == T_ID) {
    int b = builtin_index(cur()->s);
    if (b >= 0) {
      const char *a = builtins[b].args;
      if (a == 0) bad("function not implemented");
      adv();
      if (*a == 'd') {
        if (tk() == '(') {
          adv();
          if (tk() != ')') {
            int ty = expr(ex);
            if (ex) { if (ty == NUM) pop(); else pop_s(); }
          }
          need(')');
        }
      }
      else {
        need('(');
        for (; *a; a++) {
          if (*a == 'n') num_expr(ex); else str_expr(ex);
          if (a[1]) need(',');
        }
        need(')');
      }
      if (ex) apply(b);
      return builtins[b].type;
    }
    int n;
    struct sym *s = variable(ex, S_UNKNOWN, &n);
    if (ex) {
      if (n == 0) {
        if (!s->defined) { s->num = 0; s->str = 0; }
        if (s->type == NUM) push(s->num); else push_s(s->str ? s->str : "");
      }
      else if (s->kind == S_DEF) call(s, n);
      else {
        unsigned k = cell(s, n);
        if (s->type == NUM) push(s->nv[k]); else push_s(s->sv[k] ? s->sv[k] : "");
      }
    }
    return s->type;
  }
  if (t == '(') {
    adv();
    int ty = expr(ex);
    need(')');
    return ty;
  }
  bad("expression expected");
  return NUM;
}

static int power(int ex) {
  int a = primary(ex);
  if (a == NUM && tk() == '^') {
    adv();
    if (power(ex) != NUM) bad("numeric operand expected");
    if (ex) { double y = pop(), x = pop(); push(pow(x, y)); }
  }
  return a;
}

static int negation(int ex) {
  unsigned n = 0;
  while (tk() == '-') { n++; adv(); }
  int a = power(ex);
  if (n && a != NUM) bad("numeric operand expected");
  if (ex && n % 2) push(-pop());
  return a;
}

static int product(int ex) {
  int a = negation(ex);
  while (tk() == '*' || tk() == '/') {
    int op = tk();
    adv();
    int b = negation(ex);
    if (a != NUM || b != NUM) bad("numeric operands expected");
    if (ex) { double y = pop(), x = pop(); push(op == '*' ? x * y : x / y); }
  }
  return a;
}

static int sum(int ex) {
  int a = product(ex);
  while (tk() == '+' || (a == NUM && tk() == '-')) {
    int op = tk();
    adv();
    if (product(ex) != a) bad("operand types differ");
    if (ex) {
      if (a == NUM) { double y = pop(), x = pop(); push(op == '+' ? x + y : x - y); }
      else {
        char *y = pop_s(), *x = pop_s();
        size_t m = strlen(x), n = strlen(y);
        if (m + n > 255) rt("concatenated string would be too long");
        char *r = get(m + n + 1);
        memcpy(r, x, m);
        memcpy(r + m, y, n);
        push_s(r);
      }
    }
  }
  return a;
}

static int relation(int ex) {
  int a = sum(ex), op = tk();
  if (op == '=' || op == '<' || op == '>' || op == T_NE || op == T_LE || op == T_GE) {
    adv();
    if (sum(ex) != a) bad("operand types differ");
    if (ex) {
      int r = 0;
      if (a == NUM) {
        double y = pop(), x = pop();
        switch (op) {
          case '=': r = x == y; break;
          case '<': r = x < y; break;
          case '>': r = x > y; break;
          case T_NE: r = x != y; break;
          case T_LE: r = x <= y; break;
          case T_GE: r = x >= y; break;
        }
      }
      else {
        char *y = pop_s(), *x = pop_s();
        int c = strcmp(x, y);
        switch (op) {
          case '=': r = c == 0; break;
          case '<': r = c < 0; break;
          case '>': r = c > 0; break;
          case T_NE: r = c != 0; break;
          case T_LE: r = c <= 0; break;
          case T_GE: r = c >= 0; break;
        }
      }
      push(r ? -1 : 0);
    }
    return NUM;
  }
  return a;
}

static int inversion(int ex) {
  unsigned n = 0;
  while (tk() == KW(NOT)) { n++; adv(); }
  int a = relation(ex);
  if (n && a != NUM) bad("numeric operand expected");
  if (ex && n % 2) push(~to_logic(pop()));
  return a;
}

static int conjunction(int ex) {
  int a = inversion(ex);
  while (tk() == KW(AND)) {
    adv();
    if (inversion(ex) != NUM || a != NUM) bad("numeric operands expected");
    if (ex) { int y = to_logic(pop()), x = to_logic(pop()); push(x & y); }
  }
  return a;
}

static int expr(int ex) {
  int a = conjunction(ex);
  while (tk() == KW(OR)) {
    adv();
    if (conjunction(ex) != NUM || a != NUM) bad("numeric operands expected");
    if (ex) { int y = to_logic(pop()), x = to_logic(pop()); push(x | y); }
  }
  return a;
}

/* -------------------------------------------------------------- statements */

static void next_line(void) { P.l++; P.i = -1; }

static int find_line(unsigned n) {
  if (image)
    for (int i = 0; i < image->n; i++)
      if (image->ln[i].num == n) return i;
  rt("Line not found");
  return 0;
}

static void go(unsigned n) {
  int l = find_line(n);
  P.c = image; P.l = l; P.i = -1;
}

static void gosub(unsigned n, struct pos back) {
  find_line(n);
  if (rsp >= 8) rt("GOSUB is nested too deeply");
  rst[rsp++] = back;
  go(n);
}

static void show_loops(const char *tag) {
  printf("-- %s: ", tag);
  if (fsp == 0) printf("empty");
  for (int j = fsp; j > 0; j--) printf("%s = %g, %g; ", fst[j-1].v->name, fst[j-1].v->num, fst[j-1].limit);
  printf("\n");
}

static void show_loop_start(const char *tag) {
  printf("[%s]\n-- line: %u %s\n", tag, P.c->ln[P.l].num, P.c->ln[P.l].text);
  show_loops("initial stack");
}

static int find_loop(struct sym *s) {
  for (int j = 0; j < fsp; j++)
    if (fst[j].v == s) return j;
  return -1;
}

/* Returns 1 when control went back to the loop's body. */
static int continue_loop(int k) {
  struct floop *f = &fst[k];
  double x = f->v->num + f->step;
  int back = !((f->step > 0 && x > f->limit) || (f->step < 0 && x < f->limit));
  if (back) {
    f->v->num = x;
    f->v->defined = 1;
    P = f->at;
  }
  else {
    fsp--;
    for (int j = k; j < fsp; j++) fst[j] = fst[j+1];
  }
  if (opt_f) show_loops("final stack");
  return back;
}

static char *datum(void) {
  if (!P.c->stored) {
    struct tok *t = P.c->ln[0].tk;
    int any = 0;
    for (int i = 0; t[i].t != '\n'; i++) any |= t[i].t == T_DATUM;
    if (any) {
      while (t[idata_i].t != '\n' && t[idata_i].t != T_DATUM) idata_i++;
      if (t[idata_i].t == '\n') rt("out of DATA");
      return t[idata_i++].s;
    }
  }
  if (image)
    while (data_l < image->n) {
      struct tok *t = image->ln[data_l].tk;
      while (t[data_i].t != '\n' && t[data_i].t != T_DATUM) data_i++;
      if (t[data_i].t == T_DATUM) return t[data_i++].s;
      data_l++;
      data_i = 0;
    }
  rt("out of DATA");
  return 0;
}

static void read_input(const char *prompt) {
  if (prompt) fputs(prompt, stdout);
  fputs("? ", stdout);
  fflush(stdout);
  if (fgets(inbuf, sizeof inbuf, stdin) == NULL) rt("end of input");
}

static char *prompt(void) {
  char *s = 0;
  if (tk() == T_STR) {
    s = cur()->s;
    adv();
    if (tk() == ';' || tk() == ',') adv();
  }
  return s;
}

static void print(int ex) {
  int sep = 0;
  while (!eos()) {
    if (tk() == T_ID && (same(cur()->s, "SPC") || same(cur()->s, "TAB"))) {
      int tab = same(cur()->s, "TAB");
      adv();
      need('(');
      num_expr(ex);
      need(')');
      if (ex) {
        unsigned n = pop_unsigned();
        if (!tab) { for (unsigned i = 0; i < n; i++) putchar(' '); col += n; }
        else {
          if (n < col) { putchar('\n'); col = 1; }
          for (; col < n; col++) putchar(' ');
        }
      }
      sep = 0;
    }
    else if (tk() == ';') { adv(); sep = 1; }
    else if (tk() == ',') {
      adv();
      sep = 1;
      if (ex) do { putchar(' '); col++; } while (col % 8 != 1);
    }
    else {
      int ty = expr(ex);
      sep = 0;
      if (ex) {
        if (ty == NUM) col += printf(" %g ", pop());
        else
          for (char *s = pop_s(); *s; s++) { putchar(*s); if (*s == '\n') col = 1; else col++; }
      }
    }
  }
  if (ex && !sep) { putchar('\n'); col = 1; }
}

static void input(int ex) {
  struct pos again = P;
  int n;
repeat:
  P = again;
  char *pr = prompt();
  const char *p = inbuf;
  if (ex) read_input(pr);
  for (int item = 0; ; item++) {
    if (item) {
      adv();
      if (ex) {
        while (*p == ' ' || *p == '\t') p++;
        if (*p != ',') { puts("* More input items are expected *"); goto repeat; }
        p++;
      }
    }
    struct sym *s = variable(ex, S_ARRAY, &n);
    if (ex) {
      if (s->type == NUM) {
        double x;
        const char *e = number(p, &x);
        if (e == 0 || (*e != 0 && *e != '\n' && *e != ',')) {
          puts("* Invalid input *");
          nsp = 0;
          goto repeat;
        }
        set_num(s, n, x);
        p = e;
      }
      else {
        const char *e = p;
        while (*e && *e != '\n' && *e != ',') e++;
        set_str(s, n, copyn(p, e - p));
        p = e;
      }
    }
    if (tk() != ',') break;
  }
  if (ex) {
    while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;
    if (*p) puts("* Extra input was discarded *");
  }
}

static void assignment(int ex) {
  int n;
  struct sym *s = variable(ex, S_ARRAY, &n);
  need('=');
  if (expr(ex) != s->type) bad("type mismatch in assignment");
  if (ex) {
    if (s->type == NUM) { double x = pop(); set_num(s, n, x); }
    else { char *x = pop_s(); set_str(s, n, x); }
  }
}

static int if_then;            /* while checking: THEN token that may still get an ELSE, or -1 */

/* Check or execute one statement.  Returns 1 when another statement must follow without ':'. */
static int statement(int ex) {
  int n, t = tk(), more = 0;
  switch (t) {
    case KW(CLEAR): adv(); if (ex) clear_values(); break;
    case KW(CLS):
      adv();
      if (ex) {
        if (system("clear") != 0)
          puts("\n----------------------------------------------------------------\n");
        col = 1;
      }
      break;
    case KW(DATA):
      adv();
      need(T_DATUM);
      while (tk() == ',') { adv(); need(T_DATUM); }
      break;
    case KW(DEF): {
      adv();
      if (tk() != T_ID) bad("function name expected");
      struct tok *nm = cur();
      int ty = type_of(nm->s);
      if (!ex) {
        if (builtin_index(nm->s) >= 0) bad("name of a built-in function");
        struct sym *f = lookup(nm->s, 1);
        if (f == 0) f = declare(nm->s, S_DEF);
        else if (f->kind == S_UNKNOWN) settle(f, S_DEF);
        else if (f->kind != S_DEF) bad("name already used");
        nm->sym = f;
      }
      adv();
      need('(');
      struct sym *par = simple_numeric(ex);
      need(')');
      need('=');
      if (!ex) { if (expr(0) != ty) bad("type mismatch in DEF"); }
      else {
        struct sym *f = nm->sym;
        f->def.c = P.c; f->def.line = P.l; f->def.tok = P.i; f->def.par = par;
        f->defined = 1;
        while (!eos()) adv();
      }
      break;
    }
    case KW(DIM):
      do {
        adv();
        struct sym *s = variable(ex, S_ARRAY, &n);
        if (!ex && n == 0) bad("array dimensions expected");
        if (ex) {
          unsigned ix[2] = { 0, 0 };
          subscripts(ix, n);
          dimension(s, n, ix[0], ix[1]);
        }
      } while (tk() == ',');
      break;
    case KW(END): adv(); if (ex) halted = 1; break;
    case KW(FOR): {
      adv();
      struct sym *v = simple_numeric(ex);
      need('=');
      num_expr(ex);
      need(KW(TO));
      num_expr(ex);
      if (tk() == KW(STEP)) { adv(); num_expr(ex); }
      else if (ex) push(1);
      if (ex) {
        double step = pop(), limit = pop(), init = pop();
        if (opt_f) show_loop_start("FOR");
        int k = find_loop(v);
        if (k >= 0) { for (; k < fsp - 1; k++) fst[k] = fst[k+1]; }
        else {
          if (fsp >= 8) { show_loops("overflow"); rt("FOR is nested too deeply"); }
          fsp++;
        }
        struct floop *f = &fst[fsp-1];
        f->at = P; f->v = v; f->step = step; f->limit = limit;
        v->num = init; v->defined = 1;
        if (opt_f) show_loops("final stack");
      }
      break;
    }
    case KW(GOSUB): { adv(); int l = line_number(); if (ex) { gosub(l, P); return 0; } break; }
    case KW(GOTO): { adv(); int l = line_number(); if (ex) { go(l); return 0; } break; }
    case KW(IF): {
      adv();
      num_expr(ex);
      int yes = ex ? pop() != 0 : 0;
      struct tok *th = cur();
      int thi = P.i;
      need(KW(THEN));
      if (tk() == T_NUM) {
        int l = line_number(), e = 0;
        if (tk() == KW(ELSE)) { adv(); e = line_number(); }
        if_then = -1;
        if (ex) {
          if (yes) go(l);
          else if (e) go(e);
          else next_line();
          return 0;
        }
        if (tk() == KW(ELSE)) bad("unexpected ELSE");
        return 0;
      }
      if (!ex) if_then = thi;
      else if (!yes) {
        if (th->jump < 0) { next_line(); return 0; }
        P.i = th->jump + 1;
        return 1;
      }
      more = 1;
      break;
    }
    case KW(INPUT): adv(); input(ex); break;
    case KW(LET): adv(); assignment(ex); break;
    case KW(LINE): {
      adv();
      need(KW(INPUT));
      char *pr = prompt();
      if (ex) read_input(pr);
      struct sym *s = variable(ex, S_ARRAY, &n);
      if (!ex && s->type != STR) bad("string variable expected");
      if (ex) {
        int e = 0;
        while (inbuf[e] && inbuf[e] != '\n') e++;
        set_str(s, n, copyn(inbuf, e));
      }
      break;
    }
    case KW(NEXT):
      adv();
      if (tk() == T_ID) {
        for (;;) {
          struct sym *v = simple_numeric(ex);
          if (ex) {
            if (opt_f) show_loop_start("NEXT-VARIABLE");
            int k = find_loop(v);
            if (k < 0) rt("NEXT without FOR");
            if (continue_loop(k)) return 0;
          }
          if (tk() != ',') break;
          adv();
        }
      }
      else if (ex) {
        if (opt_f) show_loop_start("NEXT-IMPLICIT");
        if (fsp == 0) rt("NEXT without FOR");
        if (continue_loop(fsp - 1)) return 0;
      }
      break;
    case KW(ON): {
      adv();
      num_expr(ex);
      int sub = tk() == KW(GOSUB);
      if (!sub && tk() != KW(GOTO)) bad("GOTO or GOSUB expected");
      double x = 0;
      if (ex) {
        x = pop();
        if (x != floor(x)) rt("ON value is invalid");
      }
      int target = 0, k = 0;
      do {
        adv();
        int l = line_number();
        k++;
        if (ex && x == k) target = l;
      } while (tk() == ',');
      if (ex && target) {
        if (sub) gosub(target, P); else go(target);
        return 0;
      }
      break;
    }
    case KW(PRINT): case '?': adv(); print(ex); break;
    case KW(RANDOMIZE):
      adv();
      if (eos()) { if (ex) srand((unsigned)time(NULL)); }
      else { num_expr(ex); if (ex) srand(pop_unsigned()); }
      break;
    case KW(READ):
      do {
        adv();
        struct sym *s = variable(ex, S_ARRAY, &n);
        if (ex) {
          char *d = datum();
          if (s->type == STR) set_str(s, n, d);
          else {
            double x;
            const char *e = number(d, &x);
            if (e == 0 || *e != 0) rt("numeric data expected");
            set_num(s, n, x);
          }
        }
      } while (tk() == ',');
      break;
    case KW(REM): adv(); break;
    case KW(RESTORE):
      adv();
      if (tk() == T_NUM) {
        int l = line_number();
        if (ex) { data_l = find_line(l); data_i = 0; }
      }
      else if (ex) data_l = data_i = idata_i = 0;
      break;
    case KW(RETURN):
      adv();
      if (ex) {
        if (rsp == 0) rt("RETURN without GOSUB");
        P = rst[--rsp];
        return 0;
      }
      break;
    case KW(STOP): adv(); if (ex) halted = 2; break;
    case T_ID: assignment(ex); break;
    case '\n': case ':': break;
    default: bad("statement expected");
  }
  if (!ex && tk() == KW(ELSE)) {
    if (if_then < 0) bad("unexpected ELSE");
    P.c->ln[P.l].tk[if_then].jump = P.i;
    if_then = -1;
    adv();
    more = 1;
  }
  return more;
}

/* ---------------------------------------------------------- compile and run */

/* Check every line; returns 0 when an error was reported. */
static int check(struct code *c, int crunched) {
  struct pos save = P;
  struct sym *names = symtab;
  int ok = 0;
  if (setjmp(on_error) == 0) {
    for (int i = 0; i < c->n; i++) {
      c->ln[i].tk = tokenise(c->ln[i].text, crunched, 0, 0);
      P.c = c; P.l = i; P.i = 0;
      if_then = -1;
      for (;;) {
        while (statement(0)) ;
        if (tk() != ':') break;
        adv();
      }
      need('\n');
    }
    ok = 1;
  }
  if (ok) names_accepted();
  else names_refused(names);
  P = save;
  return ok;
}

static int compile(void) {
  if (!have_source || image) return 1;
  clear_names();
  struct code *c = get(sizeof *c);
  c->stored = 1;
  c->n = prog.n;
  c->ln = get(prog.n * sizeof *c->ln);
  for (int i = 0; i < prog.n; i++) c->ln[i] = prog.ln[i];
  if (!check(c, opt_k)) return 0;
  image = c;
  reset_control();
  return 1;
}

static void run(void) {
  halted = 0;
  if (setjmp(on_error) == 0) {
    while (!halted) {
      if (P.l >= P.c->n) break;
      if (P.i < 0) {
        P.i = 0;
        if (opt_t) printf("[%u]", P.c->ln[P.l].num);
      }
      int t = tk();
      if (t == '\n' || t == KW(ELSE)) next_line();
      else if (t == ':') adv();
      else statement(1);
    }
  }
  if (halted == 2) {
    printf("%u %s\nStopped\n", P.c->ln[P.l].num, P.c->ln[P.l].text);
  }
  if (P.c->stored) {
    can_cont = halted == 2;
    stopped = P;
  }
}

static void run_program(void) {
  if (!have_source || !compile()) return;
  reset_control();
  P.c = image; P.l = 0; P.i = -1;
  run();
}

static void run_line(const char *text) {
  if (!compile()) return;
  struct code *c = get(sizeof *c);
  c->n = 1;
  c->ln = get(sizeof *c->ln);
  c->ln[0].text = copy(text);
  if (!check(c, 0)) return;
  idata_i = 0;
  P.c = c; P.l = 0; P.i = -1;
  run();
  int mine = 0;
  for (int i = 0; i < rsp; i++) mine |= !rst[i].c->stored;
  for (int i = 0; i < fsp; i++) mine |= !fst[i].at.c->stored;
  if (mine) reset_control();
}

/* ----------------------------------------------------------------- monitor */

static void changed(void) { image = 0; }

static void enter_line(unsigned num, const char *text) {
  int i = 0;
  have_source = 1;
  changed();
  while (i < prog.n && prog.ln[i].num < num) i++;
  if (i == prog.n || prog.ln[i].num != num) {
    if (prog.n == prog.cap) {
      struct line *nl = get((prog.cap * 2 + 64) * sizeof *nl);
      for (int k = 0; k < prog.n; k++) nl[k] = prog.ln[k];
      prog.ln = nl;
      prog.cap = prog.cap * 2 + 64;
    }
    for (int k = prog.n; k > i; k--) prog.ln[k] = prog.ln[k-1];
    prog.n++;
  }
  prog.ln[i].num = num;
  prog.ln[i].text = copy(text);
  prog.ln[i].tk = 0;
}

static void delete_line(unsigned num) {
  for (int i = 0; i < prog.n; i++)
    if (prog.ln[i].num == num) {
      for (int k = i; k + 1 < prog.n; k++) prog.ln[k] = prog.ln[k+1];
      prog.n--;
      changed();
      return;
    }
}

static const char *blanks(const char *p) { while (*p == ' ' || *p == '\t') p++; return p; }

/* Read a line number; *ok is cleared when it does not fit. */
static const char *read_num(const char *p, unsigned *n, int *ok) {
  unsigned long long v = 0;
  while (digit(*p)) {
    if (v <= 4294967295ull) v = v * 10 + (unsigned)(*p - '0');
    p++;
  }
  if (v >= 4294967295ull) { *ok = 0; v = 4294967295ull; }
  *n = (unsigned)v;
  return p;
}

static int load(const char *name, struct code *c) {
  FILE *f = fopen(name, "r");
  static char buf[4096];   /* longer than any line of a session */
  int at = 0;
  const char *why = 0;
  if (f == NULL) { fprintf(stderr, "Cannot open source file: %s\n", name); return 0; }
  c->n = c->cap = 0; c->ln = 0;
  while (!why && fgets(buf, sizeof buf, f)) {
    size_t len = strlen(buf);
    at++;
    if (len && buf[len-1] == '\n') {
      buf[--len] = 0;
      if (len && buf[len-1] == '\r') buf[--len] = 0;
    }
    unsigned num = 0;
    int ok = 1;
    if (len == 0) { why = "source line is empty"; break; }
    if (!digit(buf[0])) { why = "line has no line number"; break; }
    const char *p = read_num(buf, &num, &ok);
    if (!ok || num == 0) { why = "invalid line number"; break; }
    if (c->n && num <= c->ln[c->n-1].num) { why = "line number is not in increasing order"; break; }
    if (*p == ' ') p++;
    if (c->n == c->cap) {
      struct line *nl = get((c->cap * 2 + 64) * sizeof *nl);
      for (int k = 0; k < c->n; k++) nl[k] = c->ln[k];
      c->ln = nl;
      c->cap = c->cap * 2 + 64;
    }
    c->ln[c->n].num = num;
    c->ln[c->n].text = copy(p);
    c->ln[c->n].tk = 0;
    c->n++;
  }
  fclose(f);
  if (why) { fprintf(stderr, "%s(%u): %s\n", name, at, why); return 0; }
  return 1;
}

static void renum(unsigned first, unsigned old, unsigned inc) {
  unsigned prev = 0;
  unsigned long long nn = first;
  if (!have_source) return;
  unsigned *map = get(prog.n * sizeof *map);
  for (int i = 0; i < prog.n; i++) {
    unsigned n = prog.ln[i].num;
    if (n < old) { map[i] = prev = n; continue; }
    if (nn <= prev || nn > 65535) {
      printf("Cannot renumber line %u to %u after line %u\n", n, (unsigned)nn, prev);
      return;
    }
    map[i] = prev = (unsigned)nn;
    nn += inc;
  }
  struct line *nl = get((prog.cap ? prog.cap : 1) * sizeof *nl);
  for (int i = 0; i < prog.n; i++) {
    const char *text = prog.ln[i].text;
    struct tok *t = tokenise(text, opt_k, 0, 0);
    char *out = get(strlen(text) * 6 + 8);
    int from = 0, o = 0, list = 0, ref = 0;
    for (int k = 0; t[k].t != '\n'; k++) {
      int y = t[k].t;
      if (ref && y == T_NUM) {
        double x = t[k].num;
        if (x > 0 && x <= 65535 && x == floor(x))
          for (int j = 0; j < prog.n; j++)
            if (prog.ln[j].num == (unsigned)x) {
              memcpy(out + o, text + from, t[k].pos - from);
              o += t[k].pos - from;
              o += sprintf(out + o, "%u", map[j]);
              from = t[k].pos + t[k].len;
            }
        ref = 0;
        continue;
      }
      ref = 0;
      if (y == KW(THEN) || y == KW(ELSE) || y == KW(RESTORE)) { ref = 1; list = 0; }
      else if (y == KW(GOTO) || y == KW(GOSUB)) ref = list = 1;
      else if (y == ',' && list) ref = 1;
      else list = 0;
    }
    strcpy(out + o, text + from);
    nl[i].num = map[i];
    nl[i].text = out;
  }
  prog.ln = nl;
  changed();
}

static int at_end(const char *p) {
  if (*blanks(p) == 0) return 1;
  puts("Command syntax error");
  return 0;
}

static const char *const helptext =
  "BYE                       quit to operating system\n"
  "COMPILE                   compile program to check syntax without running\n"
  "CONT                      continue program after STOP or break\n"
  "HELP                      show this help\n"
  "LIST [[start]-[end]][P]   list current file\n"
  "LOAD \"program.bas\"        load source from file\n"
  "NEW                       wipe current file from memory\n"
  "RENUM [new[,old[,inc]]]   renumber program lines\n"
  "RUN                       run current file as a Basic program\n"
  "SAVE \"program.bas\"        save current file under given name\n"
  "*DIR                      run DIR or other operating system command\n";

static char *file_name(const char *p) {
  p = blanks(p);
  if (*p != '"') { puts("Quoted file name expected"); return 0; }
  const char *b = ++p;
  while (*p && *p != '"') p++;
  char *name = copyn(b, p - b);
  if (*p) p++;
  if (!at_end(p)) { puts("Quoted file name expected"); return 0; }
  return name;
}

static int command(const char *w, int len, const char *p) {  /* returns 0 if not a command, 2 to quit */
  static const char *const names[] = { "BYE", "COMPILE", "CONT", "HELP", "LIST", "LOAD", "NEW", "RENUM",
                                       "RENUMBER", "RUN", "SAVE" };
  int k = -1;
  for (int i = 0; i < 11; i++)
    if ((int)strlen(names[i]) == len && starts(w, names[i])) k = i;
  switch (k) {
    case 0: return at_end(p) ? 2 : 1;
    case 1: compile(); return 1;
    case 2:
      if (!can_cont || !image) puts("Cannot continue");
      else { P = stopped; run(); }
      return 1;
    case 3: fputs(helptext, stdout); return 1;
    case 4: {
      unsigned a = 0, b = 4294967295u, shown = 0;
      int ok, page = 0;
      p = blanks(p);
      if (digit(*p)) { p = read_num(p, &a, &ok); p = blanks(p); }
      if (*p == '-') { p = blanks(p + 1); if (digit(*p)) p = read_num(p, &b, &ok); }
      p = blanks(p);
      if (up(*p) == 'P') { page = 1; p++; }
      if (!at_end(p)) return 1;
      for (int i = 0; i < prog.n; i++) {
        if (prog.ln[i].num < a || prog.ln[i].num > b) continue;
        printf("%u %s", prog.ln[i].num, prog.ln[i].text);
        shown++;
        if (page && shown % 24 == 23 && i + 1 < prog.n) {
          int c;
          while ((c = getchar()) != EOF && c != '\n') ;
        }
        else putchar('\n');
      }
      return 1;
    }
    case 5: {
      char *name = file_name(p);
      struct code c;
      if (name && load(name, &c)) { prog = c; have_source = 1; changed(); }
      return 1;
    }
    case 6:
      if (at_end(p)) { prog.n = 0; changed(); clear_names(); }
      return 1;
    case 7: case 8: {
      unsigned n = 10, old = 1, inc = 10;
      int ok = 1;
      p = blanks(p);
      if (digit(*p)) { p = read_num(p, &n, &ok); p = blanks(p); }
      if (*p == ',') { p = blanks(p + 1); if (digit(*p)) p = read_num(p, &old, &ok); }
      if (*p == ',') { p = blanks(p + 1); if (digit(*p)) p = read_num(p, &inc, &ok); }
      if (at_end(p)) renum(n, old, inc);
      return 1;
    }
    case 9: clear_values(); run_program(); return 1;
    case 10: {
      char *name = file_name(p);
      if (!name || !have_source) return 1;
      FILE *f = fopen(name, "w");
      if (f == NULL) { fprintf(stderr, "cannot create file: %s\n", name); return 1; }
      for (int i = 0; i < prog.n; i++) fprintf(f, "%u %s\n", prog.ln[i].num, prog.ln[i].text);
      fclose(f);
      return 1;
    }
  }
  return 0;
}

static void interact(void) {
  static char buf[128];
  if (!opt_q) puts("Type HELP to list commands\n");
  for (;;) {
    fputs("> ", stdout);
    fflush(stdout);
    if (fgets(buf, sizeof buf, stdin) == NULL) return;
    size_t len = strlen(buf);
    if (len && buf[len-1] == '\n') buf[len-1] = 0;
    else if (len == sizeof buf - 1) {
      int c;
      puts("Command line too long");
      while ((c = getchar()) != EOF && c != '\n') ;
      continue;
    }
    const char *p = blanks(buf);
    if (digit(*p)) {
      unsigned num;
      int ok = 1;
      p = read_num(p, &num, &ok);
      if (!ok || num == 0) puts("Invalid line number");
      else if (*p == 0) delete_line(num);
      else enter_line(num, *p == ' ' ? p + 1 : p);
    }
    else if (*p == '*') {
      p = blanks(p + 1);
      if (*p) system(p);
    }
    else if (*p) {
      const char *w = p;
      while (letter(*p)) p++;
      int r = command(w, (int)(p - w), p);
      if (r == 2) return;
      if (r == 0) run_line(w);
    }
  }
}

/* -------------------------------------------------------------- batch modes */

static int name_before(const char *a, const char *b) {
  while (*a && up(*a) == up(*b)) a++, b++;
  /* order of the lower-case spellings; '$' and digits come before letters */
  return (unsigned char)up(*a) < (unsigned char)up(*b);
}

static void list_names(void) {
  static char *names[4000];
  int n = 0;
  for (int i = 0; i < prog.n; i++) {
    struct tok *t = tokenise(prog.ln[i].text, opt_k, 1, 0);
    for (int k = 0; t[k].t != '\n' && t[k].t != KW(REM); k++)
      if (t[k].t == T_ID) {
        int at = 0;
        while (at < n && name_before(names[at], t[k].s)) at++;
        if (at < n && same(names[at], t[k].s)) continue;
        for (int j = n++; j > at; j--) names[j] = names[j-1];
        names[at] = t[k].s;
      }
  }
  for (int i = 0; i < n; i++)
    printf("%c %s\n", builtin_index(names[i]) >= 0 ? '*' : same(names[i], "SPC") || same(names[i], "TAB") ? '=' : ' ',
           names[i]);
}

static int fail(const char *what, const char *arg) {
  fprintf(stderr, "fatal: %s%s\n", what, arg);
  return 1;
}

int rb_main(int argc, char **argv) {
  const char *file = 0;
  int mode = 0, version = 0;
  (void)argc;
  col = 1;
  for (int i = 1; argv[i]; i++) {
    const char *a = argv[i];
#define OPT(s, l) (!strcmp(a, s) || !strcmp(a, l))
    if (OPT("-h", "--help") || OPT("-hh", "--help-full") || OPT("-?", "/?")) return 1;
    else if (OPT("-l", "--list")) mode = 'l';
    else if (OPT("-n", "--list-names")) mode = 'n';
    else if (OPT("-p", "--parse")) mode = 'p';
    else if (OPT("-c", "--code")) mode = 'c';
    else if (OPT("-r", "--run")) mode = 'r';
    else if (OPT("-k", "--keywords-anywhere")) opt_k = 1;
    else if (OPT("-q", "--quiet")) opt_q = 1;
    else if (OPT("-z", "--randomize")) srand((unsigned)time(NULL));
    else if (OPT("-m", "--report-memory")) opt_m = 1;
    else if (OPT("-t", "--trace-basic")) opt_t = 1;
    else if (OPT("-f", "--trace-for")) opt_f = 1;
    else if (OPT("-g", "--trace-log")) ;
    else if (OPT("-v", "--version")) version = 1;
    else if (a[0] == '-') return fail("unrecognised option: ", a);
    else if (file) return fail("unexpected argument: ", a);
    else file = a;
  }
  if (version || !opt_q) printf("Legacy Basic 3.2.0 Copyright (c) 2022-24 Nigel Perks\n\n");
  if (version) return 1;
  if (!file) {
    if (mode) return fail("invalid option for interactive mode", "");
    interact();
  }
  else {
    if (!load(file, &prog)) return 1;
    have_source = 1;
    if (mode == 'l')
      for (int i = 0; i < prog.n; i++) printf("%5u %s\n", prog.ln[i].num, prog.ln[i].text);
    else if (mode == 'n') list_names();
    else if (mode == 'p' || mode == 'c') { if (!compile()) return 1; }
    else run_program();
  }
  if (opt_m) printf("\nmalloc: %10lu\nfree:   %10lu\n", 0ul, 0ul);
  return 0;
}

#ifdef RB_NATIVE
int main(int argc, char **argv) { return rb_main(argc, argv); }
#endif
