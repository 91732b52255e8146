/* Stand-ins linked into the native builds used for replay: the environment answers recorded in the solver's model. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>

static unsigned cur_seed = 1; static unsigned ridx, tidx, polls;
static long lookup(const char* var, unsigned a, unsigned b, int two, long dflt) {
  const char* s = getenv(var); if (!s) return dflt;
  while (*s) { char* e; unsigned long x = strtoul(s, &e, 10), y = 0; long v; s = e + 1; if (two) { y = strtoul(s, &e, 10); s = e + 1; } v = strtol(s, &e, 10); s = *e ? e + 1 : e; if (x == a && (!two || y == b)) return v; }
  return dflt; }
int __wrap_rand(void) { unsigned i = ridx++; unsigned h = (cur_seed * 2654435761u) ^ (i * 40503u + 12345u); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return (int)lookup("LB_RAND", cur_seed, i, 1, (long)(h & 0x7fffffff)); }
void __wrap_srand(unsigned s) { cur_seed = s; ridx = 0; }
long __wrap_random(void) { return __wrap_rand(); }
void __wrap_srandom(unsigned s) { __wrap_srand(s); }
time_t __wrap_time(time_t* t) { unsigned i = tidx++; long v = lookup("LB_TIME", i, 0, 0, 1000000 + i); if (t) *t = v; return v; }
int __wrap_system(const char* c) { printf("[system:%s]\n", c ? c : ""); return 0; }
static void (*handler)(int);
typedef void (*sh)(int); sh __real_signal(int, sh);
/* An interrupt may arrive at each access to a variable that the handler writes, at a change of the disposition, and at
   each evaluation of SIN (hard: the program certainly runs); which, is given by LB_INT "at [distance of the second]". */
static void poll(int hard) {
  static long at = -2, d = -1, until = 1L << 30, run = 0, pos = -1; static int busy, since, delivered;
  if (at == -2) { const char* s = getenv("LB_INT"); at = -1; if (s) sscanf(s, "%ld %ld %ld %ld", &at, &d, &until, &run); }
  int handled = handler != NULL && handler != SIG_DFL && handler != SIG_IGN;
  if (at < 0 || busy || (!handled && !hard) || ftell(stdin) > until) return;
  if (hard) run = 0;
  if (run) return;
  long k = polls++; int any = 0;
  for (;;) {
    int here = delivered == 0 ? k == at : delivered == 1 && d >= 0 && k == at + d;
    if (!here) break;
    delivered++; any = 1;
    if (hard) { FILE* f = fopen(".int", "w"); if (f) fclose(f); since = 0; pos = ftell(stdin);
      if (handler == NULL || handler == SIG_DFL) { fflush(stdout); __real_signal(SIGINT, SIG_DFL); kill(getpid(), SIGINT); } }
    if (handled) { busy = 1; handler(SIGINT); busy = 0; } else break;
    handled = handler != NULL && handler != SIG_DFL && handler != SIG_IGN; if (!handled && !hard) break; }
  if (!any && hard && pos >= 0) { if (ftell(stdin) != pos) pos = -1; else if (++since >= 6) { fflush(stdout); fprintf(stderr, "INTERRUPT IGNORED\n"); _exit(99); } } }
void lb_poll(void) { poll(0); }
void lb_poll_hard(void) { poll(1); }
sh __wrap_signal(int sig, sh h) { if (sig != SIGINT) return SIG_DFL; poll(0); sh o = handler; handler = h; return o; }

int __wrap_sigaction(int sig, const struct sigaction* a, struct sigaction* o) { if (sig != SIGINT) { if (o) memset(o, 0, sizeof *o); return 0; } if (o) { memset(o, 0, sizeof *o); o->sa_handler = handler; } if (a) { poll(0); handler = a->sa_handler; } return 0; }

#ifdef LB_REUSE
/* Allocation that gives a freed block to the next request of its size class, as the engine does under the option reuse. */
void* __real_malloc(size_t); void __real_free(void*);
struct head { size_t cls; unsigned long long magic; };
struct list { size_t cls; struct head* first; struct list* next; };
static struct list* lists; static long live;
__attribute__((destructor)) static void report_live(void) { if (getenv("LB_LIVE")) fprintf(stderr, "\nLB_LIVE %ld\n", live); }
#define MAGIC 0x1eba51c0ffee5eedull
#define NEXT(h) (*(struct head**) ((h) + 1))
static struct list* list_of(size_t cls) {
  struct list* l; for (l = lists; l; l = l->next) if (l->cls == cls) return l;
  l = __real_malloc(sizeof *l); l->cls = cls; l->first = NULL; l->next = lists; lists = l; return l; }
void* __wrap_malloc(size_t n) {
  if (n > 1ul << 26) return NULL;
  size_t cls = (n + 15) / 16; struct list* l = list_of(cls); struct head* h = l->first;
  if (h) l->first = NEXT(h); else { h = __real_malloc(sizeof *h + (cls ? cls : 1) * 16); if (!h) return NULL; }
  live++; h->cls = cls; h->magic = MAGIC; memset(h + 1, 0xBE, n); return h + 1; }
void __wrap_free(void* p) {
  if (!p) return; struct head* h = (struct head*) p - 1;
  if (h->magic != MAGIC) { __real_free(p); return; }
  live--; struct list* l = list_of(h->cls); h->magic = 0; NEXT(h) = l->first; l->first = h; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
  void* q = __wrap_malloc(n); if (!p || !q) return q;
  size_t old = ((struct head*) p - 1)->cls * 16; memcpy(q, p, old < n ? old : n); __wrap_free(p); return q; }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char* __wrap_strndup(const char* s, size_t n) { size_t k = strnlen(s, n); char* p = __wrap_malloc(k + 1); if (p) { memcpy(p, s, k); p[k] = 0; } return p; }
#endif
