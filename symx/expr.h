// symx: hash-consed bit-vector / IEEE-double expressions.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <memory>

enum Op : uint8_t {
  E_CONST, E_SYM,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FNEG, E_FABS, E_FROUND, E_FSQRT,
  E_S2F, E_ITOF, E_UTOF, E_FTOI, E_FTOU, E_F2S,
  E_FEQ, E_FLT, E_FLE, E_FUNO,
  E_UF, // uninterpreted; aux = function, result treated as a symbol
};

struct Expr {
  uint8_t op, w, aux;
  uint8_t tz;           // known trailing zero bits
  uint32_t id;
  const Expr *a, *b, *c;
  uint64_t val;         // constant value / symbol index / extract low bit
  uint64_t lo, hi;      // unsigned interval
  int64_t slo, shi;     // signed interval
  mutable uint64_t evalEpoch, evalVal;
  mutable void* zbv;
  mutable void* zfp;
  mutable const std::vector<uint32_t>* syms;
  const Expr* hnext;
  uint32_t hash;
};
typedef const Expr* X;

// A run-time value: concrete when e is null.
struct Value {
  X e; uint64_t v;
  Value() : e(nullptr), v(0) {}
  Value(uint64_t v) : e(nullptr), v(v) {}
  Value(X e, uint64_t v) : e(e), v(v) {}
  bool sym() const { return e != nullptr; }
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sxt(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
inline double asd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline uint64_t asu(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

struct SymInfo {
  std::string name; uint8_t w; uint64_t lo, hi; int64_t slo, shi;
  int kind;   // 0 int/byte, 1 double bits, 2 uninterpreted-function value
  X expr;
};
extern std::vector<SymInfo> g_syms;

X x_const(uint64_t v, unsigned w);
X x_sym(const std::string& name, unsigned w, int64_t slo, int64_t shi, int kind = 0); // range given as signed 64-bit
Value v_bin(Op op, unsigned w, Value a, Value b);         // arithmetic, width w
Value v_cmp(Op op, unsigned w, Value a, Value b);         // comparison on width w, result width 1
Value v_not(Value a);                                     // width 1
Value v_and(Value a, Value b);                            // width 1
Value v_or(Value a, Value b);                             // width 1
Value v_ite(Value c, unsigned w, Value a, Value b);
Value v_zext(Value a, unsigned from, unsigned to);
Value v_sext(Value a, unsigned from, unsigned to);
Value v_extract(Value a, unsigned from, unsigned lo, unsigned w);
Value v_concat(Value hi, unsigned wh, Value lo, unsigned wl);
Value v_fbin(Op op, Value a, Value b);
Value v_fun(Op op, Value a, unsigned aux = 0);            // FNEG FABS FROUND FSQRT
Value v_fcmp(Op op, Value a, Value b);
Value v_itof(Value a, unsigned w, bool isSigned);
Value v_ftoi(Value a, unsigned w, bool isSigned);         // no range check
Value v_f2s(Value a);
Value v_s2f(Value a);
Value v_uf(unsigned fn, unsigned w, Value a, Value b, Value c, int64_t slo, int64_t shi, int kind);
inline X ex(Value v, unsigned w) { return v.e ? v.e : x_const(v.v, w); }

// models: value per symbol index
struct Model { std::vector<uint64_t> v; };
uint64_t x_eval(X e, const Model& m);       // new epoch per call
void x_eval_begin(const Model& m);
uint64_t x_eval_in(X e);

std::string x_str(X e, int depth = 6);
uint64_t host_ufx(X e);
double host_uf(unsigned fn, double a, double b);
const std::vector<uint32_t>& x_syms(X e);

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, sampled = 0, finite = 0;
  double secs = 0, maxsecs = 0;
};
extern SolverStats g_ss;
extern unsigned g_solver_timeout_ms;
extern bool g_force_smt;
// Is pc /\ q satisfiable? 1 yes (model filled), 0 no, -1 unknown.
int solve(const std::vector<X>& pc, X q, const Model* hint, Model& out);
// Do the path conditions of the finished paths cover the whole domain?  1 yes (Z3: unsat), 0 no, -1 no answer.
int solve_cover(const std::vector<std::vector<X>>& leaves, const std::vector<X>& base, unsigned ms);
bool unique_value(const std::vector<X>& pc, X e, uint64_t& out);
bool small_set(X e);
bool tabulate(X e, X e2, unsigned w, const std::function<uint64_t(uint64_t, uint64_t)>& f, Value& out);
