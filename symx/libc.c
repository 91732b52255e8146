/* A small C library executed symbolically together with the code under test.
   Two worlds (code under test, reference) each have their own standard streams and files. */
#include <stdarg.h>
#include <stddef.h>
#include "sx.h"
typedef unsigned char u8;
#define EOFC (-1)
void* malloc(size_t); void* calloc(size_t, size_t); void* realloc(void*, size_t); void free(void*);
void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t);
void longjmp(void*, int);

/* ---- characters */
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isalpha(int c) { return ((unsigned)c | 32u) - 'a' < 26u; }
int isalnum(int c) { return (((unsigned)c | 32u) - 'a' < 26u) | ((unsigned)c - '0' < 10u); }
int isprint(int c) { return (unsigned)c - 32 < 95u; }
int isgraph(int c) { return (unsigned)c - 33 < 94u; }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5u); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | (((unsigned)c | 32u) - 'a' < 6u); }
int toupper(int c) { return c - (((unsigned)c - 'a' < 26u) ? 32 : 0); }
int tolower(int c) { return c + (((unsigned)c - 'A' < 26u) ? 32 : 0); }

/* ---- strings */
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d + i - 1; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
int strcmp(const char* a, const char* b) { size_t i = 0; for (;; i++) { u8 x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { u8 x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) { size_t i = 0; for (;; i++) { int x = tolower((u8)a[i]), y = tolower((u8)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { int x = tolower((u8)a[i]), y = tolower((u8)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int memcmp(const void* a, const void* b, size_t n) { const u8 *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
void* memchr(const void* a, int c, size_t n) { const u8* x = a; for (size_t i = 0; i < n; i++) if (x[i] == (u8)c) return (void*)(x + i); return 0; }
char* strchr(const char* s, int c) { for (size_t i = 0;; i++) { if (s[i] == (char)c) return (char*)s + i; if (!s[i]) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (size_t i = 0;; i++) { if (s[i] == (char)c) r = (char*)s + i; if (!s[i]) return r; } }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); if (!k) return (char*)h; for (; *h; h++) if (!strncmp(h, n, k)) return (char*)h; return 0; }
char* strpbrk(const char* s, const char* a) { for (; *s; s++) if (strchr(a, *s)) return (char*)s; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = malloc(n); if (p) memcpy(p, s, n); return p; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
static char* tokp; char* strtok(char* s, const char* d) { if (s) tokp = s; if (!tokp) return 0; tokp += strspn(tokp, d); if (!*tokp) { tokp = 0; return 0; } char* r = tokp; tokp += strcspn(tokp, d); if (*tokp) *tokp++ = 0; else tokp = 0; return r; }
char* strtok_r(char* s, const char* d, char** sp) { if (s) *sp = s; if (!*sp) return 0; *sp += strspn(*sp, d); if (!**sp) { *sp = 0; return 0; } char* r = *sp; *sp += strcspn(*sp, d); if (**sp) *(*sp)++ = 0; else *sp = 0; return r; }
char* __strtok_r(char* s, const char* d, char** sp) { return strtok_r(s, d, sp); }
char* strsep(char** sp, const char* d) { char* s = *sp; if (!s) return 0; size_t n = strcspn(s, d); if (s[n]) { s[n] = 0; *sp = s + n + 1; } else *sp = 0; return s; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
void* memrchr(const void* a, int c, size_t n) { const u8* x = a; while (n--) if (x[n] == (u8)c) return (void*)(x + n); return 0; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void bzero(void* d, size_t n) { memset(d, 0, n); } void bcopy(const void* s, void* d, size_t n) { memmove(d, s, n); }
size_t strlcpy(char* d, const char* s, size_t n) { size_t k = strlen(s); if (n) { size_t m = k < n - 1 ? k : n - 1; memcpy(d, s, m); d[m] = 0; } return k; }
size_t strlcat(char* d, const char* s, size_t n) { size_t k = strnlen(d, n); return k == n ? n + strlen(s) : k + strlcpy(d + k, s, n - k); }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
void* reallocarray(void* p, size_t n, size_t s) { if (s && n > (((size_t)1 << 40) / s)) return 0; return realloc(p, n * s); }
char* strerror(int e) { return "error"; }
static int errno_; int* __errno_location(void) { return &errno_; }

/* ---- numbers */
static double slow_strtod(const char* s, int* used) { /* text with symbolic characters */
  int i = 0, neg = 0, nd = 0, frac = 0, p; long m = 0;
  while (isspace((u8)s[i])) i++;
  if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
  p = i;
  while (isdigit((u8)s[i])) { if (nd >= 15) { sx_conc(s); return sx_strtod(s, used); } m = m * 10 + (s[i] - '0'); nd++; i++; }
  if (s[i] == '.' && (nd || isdigit((u8)s[i + 1]))) { i++; while (isdigit((u8)s[i])) { if (nd >= 15) { sx_conc(s); return sx_strtod(s, used); } m = m * 10 + (s[i] - '0'); nd++; frac++; i++; } }
  if (!nd) {
    int c = tolower((u8)s[p]); if (c == 'i' || c == 'n') { /* inf / nan */
      if (!strncasecmp(s + p, "inf", 3) || !strncasecmp(s + p, "nan", 3)) { sx_conc(s); return sx_strtod(s, used); } }
    *used = 0; return 0; }
  int ex = 0;
  if ((s[i] | 32) == 'e') { int j = i + 1, en = 0, v = 0, k = 0; if (s[j] == '-') { en = 1; j++; } else if (s[j] == '+') j++; while (isdigit((u8)s[j])) { v = v * 10 + (s[j] - '0'); j++; if (++k > 2) { sx_conc(s); return sx_strtod(s, used); } } if (k) { i = j; ex = en ? -v : v; } }
  if (nd && (s[p] == '0') && ((s[p + 1] | 32) == 'x')) { sx_conc(s); return sx_strtod(s, used); }
  double d = (double)m, sc = 1; int e = ex - frac, k = e < 0 ? -e : e; if (k > 22) { sx_conc(s); return sx_strtod(s, used); }
  while (k--) sc *= 10; d = e < 0 ? d / sc : d * sc;
  *used = i; return neg ? -d : d;
}
double strtod(const char* s, char** end) { int u; double d = sx_strtod(s, &u); if (u < 0) d = slow_strtod(s, &u); if (end) *end = (char*)s + u; return d; }
double atof(const char* s) { return strtod(s, 0); }
static unsigned long stou(const char* s, char** end, int base, int sgn) {
  int i = 0, neg = 0, any = 0, over = 0; unsigned long v = 0; while (isspace((u8)s[i])) i++;
  if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
  if ((base == 0 || base == 16) && s[i] == '0' && (s[i + 1] | 32) == 'x' && isxdigit((u8)s[i + 2])) { base = 16; i += 2; } else if (base == 0) base = s[i] == '0' ? 8 : 10;
  for (;;) { int c = (u8)s[i], d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; if (over || v > (~0ul - d) / base) over = 1; else v = v * base + d; any = 1; i++; }
  if (end) *end = (char*)s + (any ? i : 0);
  if (sgn) { unsigned long m = neg ? 1ul << 63 : ~0ul >> 1; if (over || v > m) { errno_ = 34; return m; } return neg ? -v : v; }
  if (over) { errno_ = 34; return ~0ul; } return neg ? -v : v; }
unsigned long strtoul(const char* s, char** end, int base) { return stou(s, end, base, 0); }
long strtol(const char* s, char** end, int base) { return (long)stou(s, end, base, 1); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); } long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); } long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
int abs(int a) { return a < 0 ? -a : a; } long labs(long a) { return a < 0 ? -a : a; }
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; } double fmax(double a, double b) { return a != a ? b : b != b ? a : a < b ? b : a; }
int __isnan(double d) { return d != d; } int __isinf(double d) { double m = d < 0 ? -d : d; return m > 1.7976931348623157e308; } int __finite(double d) { double m = d < 0 ? -d : d; return m <= 1.7976931348623157e308; }
int __fpclassify(double d) { if (d != d) return 0; double m = d < 0 ? -d : d; if (m > 1.7976931348623157e308) return 1; if (m == 0) return 2; if (m < 2.2250738585072014e-308) return 3; return 4; }
int __signbit(double d) { union { double d; unsigned long u; } x; x.d = d; return (int)(x.u >> 63); }
double trunc(double); double modf(double d, double* ip) { *ip = trunc(d); return d - *ip; }
double rint(double); double floor(double);
double fdim(double a, double b) { return a > b ? a - b : a != a ? a : b != b ? b : 0; } long lrint(double d) { return (long)rint(d); }
long lround(double d); long llround(double d) { return lround(d); } long llrint(double d) { return lrint(d); }
long lround(double d) { return (long)(d < 0 ? -(double)(long)(-d + 0.5) : (double)(long)(d + 0.5)); }

/* ---- files */
typedef struct Stream { int kind; /* 0 closed 1 stdin 2 out 3 file */ int n; u8* data; long len, cap, pos; int eof, err, unget, write; struct FileEnt* ent; } FILE;
typedef struct FileEnt { char name[136]; u8* data; long len, cap; int exists; } FileEnt;
static FILE s_in[2], s_out[2], s_err[2];
static FileEnt files[2][6]; static int nfiles[2]; static int world;
static FILE in_h, out_h, err_h;
void *stdin = &in_h, *stdout = &out_h, *stderr = &err_h;
int lc_open[2];
void lc_world(int w) { world = w; sx_world(w);
  if (!s_in[w].kind) { s_in[w].kind = 1; s_in[w].unget = -1; long n = 0; char* p = w ? sx_blob("stdin1", &n) : 0; if (!p) p = sx_blob("stdin", &n); s_in[w].data = (u8*)p; s_in[w].len = p ? n : 0; s_out[w].kind = 2; s_out[w].n = 0; s_err[w].kind = 2; s_err[w].n = 1; } }
static FILE* F(void* p) { return p == &in_h ? &s_in[world] : p == &out_h ? &s_out[world] : p == &err_h ? &s_err[world] : (FILE*)p; }
static FileEnt* ent(const char* name, int create) {
  for (int i = 0; i < nfiles[world]; i++) if (!strcmp(files[world][i].name, name)) return &files[world][i];
  char nm[160]; strcpy(nm, "file:"); strncat(nm, name, 140); long n = 0; char* p = sx_blob(nm, &n);
  if (!p && !create) return 0;
  if (nfiles[world] >= 6 || strlen(name) > 130) { sx_unsupported("too many files"); }
  FileEnt* e = &files[world][nfiles[world]++]; strcpy(e->name, name); e->exists = p != 0; e->data = (u8*)p; e->len = n; e->cap = -1; return e; }
void* fopen(const char* name, const char* mode) {
  int w = mode[0] != 'r'; 
  if (!name[0] || (w && !strncmp(name, "nodir/", 6))) { errno_ = 2; return 0; }
  FileEnt* e = ent(name, w); if (!e || (!w && !e->exists)) { errno_ = 2; return 0; }
  FILE* f = sx_alloc(sizeof *f); f->kind = 3; f->ent = e; f->write = w; f->unget = -1; lc_open[world]++;
  if (mode[0] == 'w') { e->exists = 1; e->len = 0; e->cap = 0; e->data = 0; }
  return f; }
int fclose(void* p) { FILE* f = F(p); if (f->kind == 3) { f->kind = 0; lc_open[world]--; } return 0; }
int fflush(void* p) { return 0; } int setvbuf(void* p, char* b, int m, size_t n) { return 0; } void setbuf(void* p, char* b) {}
int ferror(void* p) { return F(p)->err; } int feof(void* p) { return F(p)->eof; } void clearerr(void* p) { F(p)->eof = F(p)->err = 0; }
int fileno(void* p) { return p == &in_h ? 0 : p == &out_h ? 1 : 2; } int isatty(int fd) { return 0; }
int remove(const char* n) { FileEnt* e = ent(n, 0); if (!e || !e->exists) return -1; e->exists = 0; return 0; }
int unlink(const char* n) { return remove(n); }
int rename(const char* a, const char* b) { FileEnt* e = ent(a, 0); if (!e || !e->exists) return -1; FileEnt* f = ent(b, 1); f->exists = 1; f->data = e->data; f->len = e->len; f->cap = -1; e->exists = 0; return 0; }
void rewind(void* p) { FILE* f = F(p); f->pos = 0; f->eof = f->err = 0; }
long ftell(void* p) { return F(p)->pos; }
int fseek(void* p, long o, int wh) { FILE* f = F(p); long len = f->kind == 3 ? f->ent->len : f->len; f->pos = wh == 0 ? o : wh == 1 ? f->pos + o : len + o; f->eof = 0; return 0; }
static void put(FILE* f, int c) {
  if (f->kind == 2) { sx_out(f->n, c); return; }
  if (f->kind != 3 || !f->write) { f->err = 1; return; }
  FileEnt* e = f->ent;
  if (e->len >= e->cap) { long nc = e->len < 2048 ? 4096 : e->len * 2; u8* n = sx_alloc(nc); if (e->len) memcpy(n, e->data, e->len); e->data = n; e->cap = nc; }
  e->data[e->len++] = (u8)c; }
int fputc(int c, void* p) { put(F(p), c); return (u8)c; }
int putc(int c, void* p) { return fputc(c, p); } int putchar(int c) { return fputc(c, stdout); } int _IO_putc(int c, void* p) { return fputc(c, p); }
int fputs(const char* s, void* p) { FILE* f = F(p); for (size_t i = 0; s[i]; i++) put(f, (u8)s[i]); return 1; }
int puts(const char* s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
size_t fwrite(const void* b, size_t s, size_t n, void* p) { FILE* f = F(p); const u8* q = b; for (size_t i = 0; i < s * n; i++) put(f, q[i]); return n; }
long lc_left(int w) { return s_in[w].len - s_in[w].pos; }
int fgetc(void* p) { FILE* f = F(p); if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
  const u8* d = f->kind == 3 ? f->ent->data : f->data; long len = f->kind == 3 ? f->ent->len : f->len; if (f->kind == 3 && f->write) { f->err = 1; return EOFC; }
  if (f->kind == 2 || f->pos >= len) { f->eof = 1; if (f->kind == 1) { if (sx_counter(10 + world, 1) > 200) sx_assert(0, "endless reading at end of input"), sx_end(); } return EOFC; } if (f->kind == 1) sx_counter(20 + world, 1); return d[f->pos++]; }
int getc(void* p) { return fgetc(p); } int getchar(void) { return fgetc(stdin); } int _IO_getc(void* p) { return fgetc(p); }
int ungetc(int c, void* p) { if (c >= 0) { F(p)->unget = (u8)c; F(p)->eof = 0; } return c; }
char* fgets(char* b, int n, void* p) { int i = 0; while (i < n - 1) { int c = fgetc(p); if (c < 0) { if (!i) return 0; break; } b[i++] = (char)c; if (c == '\n') break; } b[i] = 0; return b; }
size_t fread(void* b, size_t s, size_t n, void* p) { u8* q = b; size_t k = 0; for (; k < s * n; k++) { int c = fgetc(p); if (c < 0) break; q[k] = (u8)c; } return s ? k / s : 0; }
long getline(char** lp, size_t* np, void* p) { long n = 0; for (;;) { int c = fgetc(p); if (c < 0) break; if ((size_t)n + 2 > *np || !*lp) { *np = n * 2 + 128; *lp = realloc(*lp, *np); } (*lp)[n++] = (char)c; if (c == '\n') break; } if (!n) return -1; (*lp)[n] = 0; return n; }
long getdelim(char** lp, size_t* np, int dl, void* p) { long n = 0; for (;;) { int c = fgetc(p); if (c < 0) break; if ((size_t)n + 2 > *np || !*lp) { *np = n * 2 + 128; *lp = realloc(*lp, *np); } (*lp)[n++] = (char)c; if (c == dl) break; } if (!n) return -1; (*lp)[n] = 0; return n; }
long __getdelim(char** lp, size_t* np, int dl, void* p) { return getdelim(lp, np, dl, p); }
int putc_unlocked(int c, void* p) { return fputc(c, p); } int putchar_unlocked(int c) { return fputc(c, stdout); } int fputc_unlocked(int c, void* p) { return fputc(c, p); } int fputs_unlocked(const char* s, void* p) { return fputs(s, p); }
int getc_unlocked(void* p) { return fgetc(p); } int fgetc_unlocked(void* p) { return fgetc(p); } int getchar_unlocked(void) { return fgetc(stdin); } size_t fwrite_unlocked(const void* b, size_t s, size_t n, void* p) { return fwrite(b, s, n, p); }
int __uflow(void* p) { return fgetc(p); } int __overflow(void* p, int c) { return fputc(c, p); }
void perror(const char* s) { fputs(s, stderr); fputs(": error\n", stderr); }

/* ---- formatted output */
typedef struct { FILE* f; char* buf; size_t cap, n; } Sink;
static void snk(Sink* k, int c) { if (k->f) put(k->f, c); else if (k->n + 1 < k->cap) k->buf[k->n] = (char)c; k->n++; }
static void pad(Sink* k, int n, int c) { while (n-- > 0) snk(k, c); }
static int vfmt(Sink* k, const char* f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { snk(k, *f); continue; }
    int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0; f++;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit((u8)*f)) width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((u8)*f)) prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') ; else break; }
    char tmp[400]; int n = 0, neg = 0; (void)alt;
    switch (*f) {
      case '%': snk(k, '%'); break;
      case 'c': { int c = va_arg(ap, int); if (!left) pad(k, width - 1, ' '); snk(k, c); if (left) pad(k, width - 1, ' '); break; }
      case 's': { const char* s = va_arg(ap, char*); if (!s) s = "(null)"; size_t len = prec >= 0 ? strnlen(s, prec) : strlen(s); if (!left) pad(k, width - (int)len, ' '); for (size_t i = 0; i < len; i++) snk(k, (u8)s[i]); if (left) pad(k, width - (int)len, ' '); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long v; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
        if (*f == 'd' || *f == 'i') { long s = lng ? va_arg(ap, long) : va_arg(ap, int); neg = s < 0; v = neg ? 0ul - (unsigned long)s : (unsigned long)s; }
        else v = lng || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        if (lng) { do { int d = (int)(v % base); tmp[n++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); v /= base; } while (v); }
        else { unsigned q = (unsigned)v; do { int d = (int)(q % base); tmp[n++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); q /= base; } while (q); }
        while (n < prec) tmp[n++] = '0';
        int sgn = neg ? '-' : plus ? '+' : space ? ' ' : 0; int tot = n + (sgn ? 1 : 0);
        if (!left && !(zero && prec < 0)) pad(k, width - tot, ' '); if (sgn) snk(k, sgn); if (!left && zero && prec < 0) pad(k, width - tot, '0');
        while (n) snk(k, tmp[--n]); if (left) pad(k, width - tot, ' '); break; }
      case 'g': case 'f': case 'e': case 'G': case 'E': {
        double d = va_arg(ap, double); if (prec < 0) prec = 6;
        if (k->f && k->f->kind == 2 && !width && !plus && !space) { k->n += sx_out_g(k->f->n, d, prec, *f); break; }
        n = sx_g(d, prec, *f, tmp); int sgn = (plus || space) && tmp[0] != '-' ? (plus ? '+' : ' ') : 0;
        if (!left) pad(k, width - n - (sgn ? 1 : 0), ' '); if (sgn) snk(k, sgn); for (int i = 0; i < n; i++) snk(k, (u8)tmp[i]); if (left) pad(k, width - n - (sgn ? 1 : 0), ' '); break; }
      default: sx_unsupported("printf conversion"); }
  }
  if (!k->f && k->cap) k->buf[k->n < k->cap ? k->n : k->cap - 1] = 0;
  return (int)k->n; }
int vfprintf(void* p, const char* f, va_list ap) { Sink k = { F(p), 0, 0, 0 }; return vfmt(&k, f, ap); }
int vprintf(const char* f, va_list ap) { return vfprintf(stdout, f, ap); }
int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int fprintf(void* p, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(p, f, ap); va_end(ap); return r; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { Sink k = { 0, b, n, 0 }; return vfmt(&k, f, ap); }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, (size_t)1 << 40, f, ap); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 40, f, ap); va_end(ap); return r; }

int vasprintf(char** r, const char* f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(0, 0, f, a2); va_end(a2); *r = malloc((size_t)n + 1); return vsnprintf(*r, (size_t)n + 1, f, ap); }
int asprintf(char** r, const char* f, ...) { va_list ap; va_start(ap, f); int n = vasprintf(r, f, ap); va_end(ap); return n; }

/* ---- formatted input (from strings) */
static int vscan(const char* s, const char* f, va_list ap) {
  const char* s0 = s; int done = 0;
  for (; *f; f++) {
    if (isspace((u8)*f)) { while (isspace((u8)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return done ? done : *s ? 0 : -1; s++; continue; }
    int skip = 0, width = 0, lng = 0; f++;
    if (*f == '*') { skip = 1; f++; } while (isdigit((u8)*f)) width = width * 10 + *f++ - '0';
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') sx_unsupported("scanf conversion"); else break; }
    if (*f == '%') { while (isspace((u8)*s)) s++; if (*s != '%') return done; s++; continue; }
    if (*f == 'n') { if (!skip) { if (lng) *va_arg(ap, long*) = s - s0; else *va_arg(ap, int*) = (int)(s - s0); } continue; }
    if (*f != 'c' && *f != '[') while (isspace((u8)*s)) s++;
    if (!*s) return done ? done : -1;
    switch (*f) {
      case 'd': case 'i': case 'u': case 'x': { if (width) sx_unsupported("scanf conversion"); char* e; unsigned long v = strtoul(s, &e, *f == 'x' ? 16 : *f == 'i' ? 0 : 10); if (e == s) return done; s = e; if (!skip) { if (lng) *va_arg(ap, unsigned long*) = v; else *va_arg(ap, unsigned*) = (unsigned)v; done++; } break; }
      case 'f': case 'g': case 'e': { if (width || (!lng && !skip)) sx_unsupported("scanf conversion"); char* e; double v = strtod(s, &e); if (e == s) return done; s = e; if (!skip) { *va_arg(ap, double*) = v; done++; } break; }
      case 's': { char* d = skip ? 0 : va_arg(ap, char*); int n = 0; while (*s && !isspace((u8)*s) && (!width || n < width)) { if (d) d[n] = *s; n++; s++; } if (d) { d[n] = 0; done++; } break; }
      case 'c': { char* d = skip ? 0 : va_arg(ap, char*); if (!width) width = 1; for (int n = 0; n < width; n++) { if (!*s) return done; if (d) d[n] = *s; s++; } if (d) done++; break; }
      case '[': { f++; int inv = 0; if (*f == '^') { inv = 1; f++; } const char* a = f; if (*f == ']') f++; while (*f && *f != ']') f++; char* d = skip ? 0 : va_arg(ap, char*); int n = 0;
        while (*s && (!width || n < width)) { int in = 0; for (const char* q = a; q < f; q++) { if (q + 2 < f && q[1] == '-') { if ((u8)*s >= (u8)q[0] && (u8)*s <= (u8)q[2]) in = 1; q += 2; } else if (*q == *s) in = 1; } if (in == inv) break; if (d) d[n] = *s; n++; s++; }
        if (!n) return done; if (d) { d[n] = 0; done++; } break; }
      default: sx_unsupported("scanf conversion"); }
  }
  return done; }
int vsscanf(const char* s, const char* f, va_list ap) { return vscan(s, f, ap); }
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }

/* ---- process */
long exit_env[2][32]; int exit_code[2]; int exit_on[2];
void exit(int c) { exit_code[world] = c; if (!exit_on[world]) sx_end(); longjmp(exit_env[world], 1); }
void _exit(int c) { exit(c); } int atexit(void (*f)(void)) { return 0; }
int system(const char* cmd) { fputs("[system:", stdout); fputs(cmd ? cmd : "", stdout); fputs("]\n", stdout); return 0; }
long time(long* t) { long v = sx_time(); if (t) *t = v; return v; }
long clock(void) { return 0; } char* getenv(const char* n) { return 0; } unsigned sleep(unsigned n) { return 0; } int getpid(void) { return 4242; }
static void* cur_handler[2]; void* signal(int sig, void* h) { if (sig != 2) return 0; cur_handler[world] = h; return sx_signal(sig, h); }
struct SA { void* h; unsigned long mask[16]; int flags; void* rest; };
int sigaction(int sig, const struct SA* a, struct SA* o) { if (sig != 2) { if (o) memset(o, 0, sizeof *o); return 0; } if (o) { memset(o, 0, sizeof *o); o->h = cur_handler[world]; } if (a) signal(2, a->h); return 0; }
int sigemptyset(void* s) { memset(s, 0, 128); return 0; } int sigfillset(void* s) { memset(s, 255, 128); return 0; } int sigaddset(void* s, int n) { return 0; } int sigdelset(void* s, int n) { return 0; } int sigprocmask(int h, void* a, void* b) { return 0; } int siginterrupt(int s, int f) { return 0; } void* __sysv_signal(int s, void* h) { return signal(s, h); }
static struct tmx { int a[9]; long off; char* z; } tm_; void* localtime(const long* t) { tm_.a[0] = (int)(*t % 60); tm_.a[1] = (int)(*t / 60 % 60); tm_.a[2] = (int)(*t / 3600 % 24); tm_.a[3] = 1; tm_.a[5] = 120; return &tm_; } void* gmtime(const long* t) { return localtime(t); }
void qsort(void* b, size_t n, size_t s, int (*cmp)(const void*, const void*)) { char* p = b; char tmp[256]; if (s > 256) sx_unsupported("qsort of large elements"); for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * s, p + j * s) > 0; j--) { memcpy(tmp, p + j * s, s); memcpy(p + j * s, p + (j - 1) * s, s); memcpy(p + (j - 1) * s, tmp, s); } }
void* bsearch(const void* k, const void* b, size_t n, size_t s, int (*cmp)(const void*, const void*)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char* q = (const char*)b + m * s; int c = cmp(k, q); if (!c) return (void*)q; if (c < 0) hi = m; else lo = m + 1; } return 0; }
