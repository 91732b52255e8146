/* symx harness interface */
#ifndef SX_H
#define SX_H
void sx_world(int w);
void sx_out(int stream, int c);
int sx_out_g(int stream, double d, int prec, int conv);
int sx_g(double d, int prec, int conv, char* buf);
void sx_conc(const char*);
double sx_strtod(const char* s, int* used);
char* sx_blob(const char* name, long* len);
void* sx_alloc(long n);
int sx_opt(const char* name);
char* sx_arg(int i);
void sx_assume(int c);
void sx_assert(int c, const char* what);
void sx_reach(const char* what);
void sx_compare(int stream);
void sx_clear_out(int world, int stream);
long sx_outlen(int stream);
long sx_live(int world);
void sx_end(void);
void sx_reset_globals(void);
void sx_unsupported(const char* what);
void sx_dump(int world, int stream);
int sx_counter(int k, int add);
int sx_isconc(long v);
void* sx_signal(int sig, void* h);
long sx_time(void);
#endif
