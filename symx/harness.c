/* Runs the code under test in world 0 and the reference (or the code under test again) in world 1. */
#include "sx.h"
extern long exit_env[2][32]; extern int exit_code[2], exit_on[2], lc_open[2];
int setjmp(long*); void lc_world(int w); long lc_left(int w);
int sut_main(int, char**); int rb_main(int, char**);
static int run(int w, int which) {
  static char* argv[2][12]; static int argc[2]; 
  lc_world(w);
  argv[w][0] = "lbasic"; argc[w] = 1;
  for (int i = 0; argc[w] < 11; i++) { char* a = sx_arg(i); if (!a) break; argv[w][argc[w]++] = a; }
  argv[w][argc[w]] = 0;
  exit_on[w] = 1;
  if (setjmp(exit_env[w]) == 0) exit_code[w] = which ? rb_main(argc[w], argv[w]) : sut_main(argc[w], argv[w]);
  exit_on[w] = 0;
  return exit_code[w];
}
void sx_main(void) {
  int mode = sx_opt("mode");   /* 0 reference, 1 code under test only, 2 code under test against itself on stdin1 */
  run(0, 0);
  sx_reach("sut-end");
  if (mode == 1) { if (sx_opt("consume")) { sx_assert(exit_code[0] == 0, "the session ended with an error status"); sx_assert(lc_left(0) == 0, "the session ended before its input"); } if (sx_opt("leak")) sx_assert(sx_live(0) == 0, "memory not freed at exit"); sx_end(); }
  if (mode == 0) run(1, 1);
  else { sx_reset_globals(); run(1, 0); }
  sx_reach("ref-end");
  if (!sx_opt("noout")) sx_compare(0);
  if (!sx_opt("nostderr")) sx_compare(1);
  if (!sx_opt("nocode")) sx_assert(exit_code[0] == exit_code[1], "exit status differs");
  sx_reach("compared");
  sx_end();
}
