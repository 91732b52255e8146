#include "expr.h"
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <cmath>
#include <chrono>
#include <cstdio>
#include <cstdlib>

std::vector<SymInfo> g_syms;
SolverStats g_ss;
unsigned g_solver_timeout_ms = 20000;

// ---------------------------------------------------------------- hash-consing
static std::vector<const Expr*> g_tab(1 << 16, nullptr);
static uint32_t g_n = 0;
static char* g_arena = nullptr; static size_t g_left = 0;

static Expr* alloc_expr() {
  if (g_left < sizeof(Expr)) { g_arena = (char*)malloc(1 << 20); g_left = 1 << 20; }
  Expr* e = (Expr*)g_arena; g_arena += sizeof(Expr); g_left -= sizeof(Expr);
  memset(e, 0, sizeof *e); return e;
}

static inline uint32_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return (uint32_t)h; }

static void rehash() {
  std::vector<const Expr*> t(g_tab.size() * 2, nullptr);
  for (auto p : g_tab) while (p) { auto n = p->hnext; uint32_t i = p->hash & (t.size() - 1); const_cast<Expr*>(p)->hnext = t[i]; t[i] = p; p = n; }
  g_tab.swap(t);
}

static void set_full(Expr* e) {
  e->lo = 0; e->hi = maskw(e->w);
  e->slo = e->w >= 64 ? INT64_MIN : -(1ll << (e->w - 1)); e->shi = e->w >= 64 ? INT64_MAX : (1ll << (e->w - 1)) - 1;
}
// make the two intervals consistent
static void reconcile(Expr* e) {
  int64_t half = e->w >= 64 ? INT64_MAX : (1ll << (e->w - 1)) - 1;
  if (e->hi <= (uint64_t)half) { // nonnegative
    e->slo = std::max<int64_t>(e->slo, (int64_t)e->lo); e->shi = std::min<int64_t>(e->shi, (int64_t)e->hi);
  }
  if (e->slo >= 0) { e->lo = std::max<uint64_t>(e->lo, e->slo); e->hi = std::min<uint64_t>(e->hi, e->shi); }
  if (e->shi < 0) { uint64_t l = (uint64_t)e->slo & maskw(e->w), h = (uint64_t)e->shi & maskw(e->w); e->lo = std::max(e->lo, l); e->hi = std::min(e->hi, h); }
}

static bool chain_range(X e, double& lo, double& hi);
static void set_range(Expr* e) {
  set_full(e);
  uint64_t m = maskw(e->w);
  X a = e->a, b = e->b, c = e->c;
  switch (e->op) {
    case E_CONST: e->lo = e->hi = e->val; e->slo = e->shi = sxt(e->val, e->w); break;
    case E_SYM: e->lo = g_syms[e->val].lo; e->hi = g_syms[e->val].hi; e->slo = g_syms[e->val].slo; e->shi = g_syms[e->val].shi; break;
    case E_UF: e->lo = g_syms[e->val].lo; e->hi = g_syms[e->val].hi; e->slo = g_syms[e->val].slo; e->shi = g_syms[e->val].shi; break;
    case E_ADD: {
      __int128 l = (__int128)a->slo + b->slo, h = (__int128)a->shi + b->shi;
      if (l >= e->slo && h <= e->shi) { e->slo = (int64_t)l; e->shi = (int64_t)h; }
      unsigned __int128 ul = (unsigned __int128)a->lo + b->lo, uh = (unsigned __int128)a->hi + b->hi;
      if (uh <= m) { e->lo = (uint64_t)ul; e->hi = (uint64_t)uh; }
      else if (ul > m && uh <= 2 * (unsigned __int128)m + 1) { e->lo = (uint64_t)ul & m; e->hi = (uint64_t)uh & m; }
      break; }
    case E_SUB: {
      __int128 l = (__int128)a->slo - b->shi, h = (__int128)a->shi - b->slo;
      if (l >= e->slo && h <= e->shi) { e->slo = (int64_t)l; e->shi = (int64_t)h; }
      if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
      break; }
    case E_MUL: {
      __int128 p[4] = { (__int128)a->slo * b->slo, (__int128)a->slo * b->shi, (__int128)a->shi * b->slo, (__int128)a->shi * b->shi };
      __int128 l = *std::min_element(p, p + 4), h = *std::max_element(p, p + 4);
      if (l >= e->slo && h <= e->shi) { e->slo = (int64_t)l; e->shi = (int64_t)h; }
      unsigned __int128 uh = (unsigned __int128)a->hi * b->hi;
      if (uh <= m) { e->lo = a->lo * b->lo; e->hi = (uint64_t)uh; }
      break; }
    case E_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case E_UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); e->lo = 0; if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } } break;
    case E_SDIV: if (a->slo >= 0 && b->slo > 0) { e->slo = a->slo / b->shi; e->shi = a->shi / b->slo; } break;
    case E_SREM: if (b->slo > 0) { int64_t k = b->shi - 1; e->slo = a->slo >= 0 ? 0 : std::max(-k, a->slo); e->shi = a->shi <= 0 ? 0 : std::min(k, a->shi); } break;
    case E_SHL: if (b->op == E_CONST && b->val < e->w) {
        unsigned __int128 uh = (unsigned __int128)a->hi << b->val; if (uh <= m) { e->lo = a->lo << b->val; e->hi = (uint64_t)uh; }
        __int128 l = (__int128)a->slo << b->val, h = (__int128)a->shi << b->val; if (l >= e->slo && h <= e->shi) { e->slo = (int64_t)l; e->shi = (int64_t)h; }
      } break;
    case E_LSHR: if (b->op == E_CONST && b->val < e->w) { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; } else e->hi = a->hi; break;
    case E_ASHR: if (b->op == E_CONST && b->val < e->w) { e->slo = a->slo >> b->val; e->shi = a->shi >> b->val; } break;
    case E_AND: e->hi = std::min(a->hi, b->hi); break;
    case E_OR: { e->lo = std::max(a->lo, b->lo); uint64_t h = a->hi | b->hi; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; e->hi = std::min(m, h); break; }
    case E_XOR: { uint64_t h = a->hi | b->hi; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; e->hi = std::min(m, h); break; }
    case E_ITE: e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); e->slo = std::min(b->slo, c->slo); e->shi = std::max(b->shi, c->shi); break;
    case E_ZEXT: e->lo = a->lo; e->hi = a->hi; e->slo = (int64_t)a->lo; e->shi = (int64_t)a->hi; if (e->w == a->w) { e->slo = a->slo; e->shi = a->shi; } break;
    case E_SEXT: e->slo = a->slo; e->shi = a->shi; break;
    case E_EXTRACT:
      if (e->val == 0) {
        if (a->hi <= m) { e->lo = a->lo; e->hi = a->hi; }
        if (a->slo >= e->slo && a->shi <= e->shi) { e->slo = a->slo; e->shi = a->shi; }
      } else if (e->val + e->w == a->w) { e->lo = a->lo >> e->val; e->hi = a->hi >> e->val; }
      break;
    case E_FTOI: case E_FTOU: {
      double l, h; if (chain_range(a, l, h)) { l = trunc(l); h = trunc(h); double lim = ldexp(1.0, e->w - 1);
        if (l >= 0 && h < lim) { e->lo = e->slo = (int64_t)l; e->hi = e->shi = (int64_t)h; }
        else if (e->op == E_FTOI && l >= -lim && h < lim) { e->slo = (int64_t)l; e->shi = (int64_t)h; } }
      break; }
    case E_CONCAT: e->lo = a->lo << b->w | b->lo; e->hi = a->hi << b->w | b->hi; if (a->lo != a->hi) { e->lo = a->lo << b->w; e->hi = a->hi << b->w | maskw(b->w); } break;
    default: break;
  }
  reconcile(e);
  // trailing zeros
  switch (e->op) {
    case E_CONST: e->tz = e->val ? __builtin_ctzll(e->val) : e->w; break;
    case E_ADD: case E_SUB: case E_OR: case E_XOR: e->tz = std::min(a->tz, b->tz); break;
    case E_AND: e->tz = std::max(a->tz, b->tz); break;
    case E_MUL: e->tz = std::min<int>(e->w, a->tz + b->tz); break;
    case E_SHL: e->tz = b->op == E_CONST ? std::min<int>(e->w, a->tz + (int)std::min<uint64_t>(b->val, 64)) : a->tz; break;
    case E_ZEXT: case E_SEXT: e->tz = a->tz >= a->w ? e->w : a->tz; break;
    case E_ITE: e->tz = std::min(b->tz, c->tz); break;
    case E_EXTRACT: e->tz = e->val == 0 ? std::min<int>(a->tz, e->w) : 0; break;
    default: e->tz = 0;
  }
}

static X mk(uint8_t op, uint8_t w, uint8_t aux, X a, X b, X c, uint64_t val) {
  uint64_t h = op * 0x9E3779B97F4A7C15ull ^ ((uint64_t)w << 8 | aux);
  h = h * 31 + (a ? a->id + 1 : 0); h = h * 0x100000001b3ull + (b ? b->id + 1 : 0); h = h * 0x100000001b3ull + (c ? c->id + 1 : 0); h ^= val * 0xD6E8FEB86659FD93ull;
  uint32_t hh = mix(h);
  uint32_t i = hh & (g_tab.size() - 1);
  for (X p = g_tab[i]; p; p = p->hnext)
    if (p->hash == hh && p->op == op && p->w == w && p->aux == aux && p->a == a && p->b == b && p->c == c && p->val == val) return p;
  if (g_n > g_tab.size()) { rehash(); i = hh & (g_tab.size() - 1); }
  Expr* e = alloc_expr();
  e->op = op; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = val; e->hash = hh; e->id = g_n++;
  e->hnext = g_tab[i]; g_tab[i] = e;
  set_range(e);
  return e;
}

X x_const(uint64_t v, unsigned w) { return mk(E_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
static inline bool isc(X e) { return e->op == E_CONST; }
static inline Value val(X e) { return e->op == E_CONST ? Value(e->val) : Value(e, 0); }
// a result whose interval is a single point is that constant
static inline Value res(X e) { if (e->lo == e->hi) return Value(e->lo); return val(e); }

X x_sym(const std::string& name, unsigned w, int64_t slo, int64_t shi, int kind) {
  SymInfo s; s.name = name; s.w = w; s.kind = kind;
  Expr t; t.w = w; set_full(&t);
  if (kind == 0) { // range is given signed; translate
    if (slo >= 0) { t.lo = slo; t.hi = shi; if ((uint64_t)shi <= maskw(w) >> 1) { t.slo = slo; t.shi = shi; } }
    else { t.slo = slo; t.shi = shi; }
    reconcile(&t);
  }
  s.lo = t.lo; s.hi = t.hi; s.slo = t.slo; s.shi = t.shi;
  g_syms.push_back(s);
  X e = mk(E_SYM, w, 0, nullptr, nullptr, nullptr, g_syms.size() - 1);
  g_syms.back().expr = e;
  return e;
}

// ---------------------------------------------------------------- constant folding
static uint64_t fold(Op op, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { int64_t x = sxt(a, w), y = sxt(b, w); if (y == 0) return (x < 0 ? 1 : m); if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case E_SREM: { int64_t x = sxt(a, w), y = sxt(b, w); if (y == 0) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return (uint64_t)(sxt(a, w) >> (b >= w ? w - 1 : b)) & m;
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sxt(a, w) < sxt(b, w); case E_SLE: return sxt(a, w) <= sxt(b, w);
    default: abort();
  }
}
static double froundm(double d, unsigned mode) {
  switch (mode) { case 0: return floor(d); case 1: return ceil(d); case 2: return trunc(d); case 3: return round(d); default: return nearbyint(d); }
}
static uint64_t foldf(Op op, uint64_t a, uint64_t b) {
  double x = asd(a), y = asd(b);
  switch (op) {
    case E_FADD: return asu(x + y); case E_FSUB: return asu(x - y); case E_FMUL: return asu(x * y); case E_FDIV: return asu(x / y);
    case E_FEQ: return x == y; case E_FLT: return x < y; case E_FLE: return x <= y; case E_FUNO: return std::isnan(x) || std::isnan(y);
    default: abort();
  }
}
static uint64_t fold_f2s(uint64_t a) { float f = (float)asd(a); uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t fold_s2f(uint64_t a) { uint32_t u = (uint32_t)a; float f; memcpy(&f, &u, 4); return asu((double)f); }
static uint64_t foldfu(Op op, uint64_t a, unsigned aux) {
  switch (op) {
    case E_FNEG: return a ^ (1ull << 63); case E_FABS: return a & ~(1ull << 63);
    case E_FROUND: return asu(froundm(asd(a), aux)); case E_FSQRT: return asu(sqrt(asd(a)));
    default: abort();
  }
}
static uint64_t fold_ftoi(uint64_t a, unsigned w, bool sg) {
  double d = trunc(asd(a));
  if (sg) { double lim = ldexp(1.0, w - 1); if (!(d >= -lim && d < lim)) return 1ull << (w - 1); return (uint64_t)(int64_t)d & maskw(w); }
  double lim = ldexp(1.0, w); if (!(d >= 0 && d < lim)) { // x86 behaviour: via 64-bit signed
    if (w < 64 && d >= -9.2e18 && d < 9.2e18) return (uint64_t)(int64_t)d & maskw(w); return 0; }
  return (uint64_t)d & maskw(w);
}

// ---------------------------------------------------------------- bit-vector constructors
static inline bool ite_consts(X e) { return e->op == E_ITE && (isc(e->b) || isc(e->c)); }
static int ite_depth(X e) { int d = 0; while (e->op == E_ITE && d < 40) { if (!(isc(e->b) || isc(e->c))) return 99; e = isc(e->b) ? e->c : e->b; d++; } return isc(e) ? d : 99; }

Value v_not(Value a) {
  if (!a.e) return Value(a.v ^ 1);
  X e = a.e;
  if (e->op == E_XOR && isc(e->b) && e->b->val == 1) return val(e->a);
  if (e->op == E_ULT) return val(mk(E_ULE, 1, 0, e->b, e->a, nullptr, 0));
  if (e->op == E_ULE) return val(mk(E_ULT, 1, 0, e->b, e->a, nullptr, 0));
  if (e->op == E_SLT) return val(mk(E_SLE, 1, 0, e->b, e->a, nullptr, 0));
  if (e->op == E_SLE) return val(mk(E_SLT, 1, 0, e->b, e->a, nullptr, 0));
  return val(mk(E_XOR, 1, 0, e, x_const(1, 1), nullptr, 0));
}
Value v_and(Value a, Value b) {
  if (!a.e) return a.v ? b : Value(0); if (!b.e) return b.v ? a : Value(0);
  return v_bin(E_AND, 1, a, b);
}
Value v_or(Value a, Value b) {
  if (!a.e) return a.v ? Value(1) : b; if (!b.e) return b.v ? Value(1) : a;
  return v_bin(E_OR, 1, a, b);
}

Value v_bin(Op op, unsigned w, Value va, Value vb) {
  if (!va.e && !vb.e) return Value(fold(op, w, va.v, vb.v));
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR;
  if (comm && !va.e) std::swap(va, vb);
  uint64_t m = maskw(w);
  if (!vb.e) {
    uint64_t k = vb.v & m;
    switch (op) {
      case E_ADD: if (k == 0) return va; break;
      case E_SUB: if (k == 0) return va; return v_bin(E_ADD, w, va, Value((0 - k) & m));
      case E_MUL: if (k == 0) return Value(0); if (k == 1) return va; break;
      case E_AND: if (k == 0) return Value(0); if (k == m) return va; if (va.e->hi <= k && ((k + 1) & k) == 0) return va; break;
      case E_OR: if (k == 0) return va; if (k == m) return Value(m); break;
      case E_XOR: if (k == 0) return va; if (w == 1 && k == 1) return v_not(va); break;
      case E_SHL: case E_LSHR: if (k == 0) return va; if (k >= w) return Value(0); break;
      case E_ASHR: if (k == 0) return va; break;
      case E_UDIV: if (k == 1) return va; if (k && (k & (k - 1)) == 0) return v_bin(E_LSHR, w, va, Value(__builtin_ctzll(k))); break;
      case E_UREM: if (k == 1) return Value(0); if (k && (k & (k - 1)) == 0) return v_bin(E_AND, w, va, Value(k - 1)); if (va.e->hi < k) return va; break;
      case E_SDIV: if (k == 1) return va; if (va.e->slo >= 0 && sxt(k, w) > 0) return v_bin(E_UDIV, w, va, vb); break;
      case E_SREM: if (va.e->slo >= 0 && sxt(k, w) > 0) return v_bin(E_UREM, w, va, vb); break;
      default: break;
    }
    X a = va.e;
    if (op == E_ADD && a->op == E_ADD && isc(a->b)) return v_bin(E_ADD, w, val(a->a), Value((a->b->val + k) & m));
    if (op == E_AND && a->op == E_AND && isc(a->b)) return v_bin(E_AND, w, val(a->a), Value(a->b->val & k));
    if (op == E_MUL && a->op == E_MUL && isc(a->b)) return v_bin(E_MUL, w, val(a->a), Value((a->b->val * k) & m));
    if (op == E_AND && (a->op == E_ZEXT) && k <= maskw(a->a->w)) return v_zext(v_bin(E_AND, a->a->w, val(a->a), Value(k)), a->a->w, w);
    if (op == E_AND && ((k + 1) & k) == 0 && k != 0) { unsigned nb = __builtin_popcountll(k); if (nb < w) return v_zext(v_extract(va, w, 0, nb), nb, w); }
    if (op == E_LSHR && k < w) return v_zext(v_extract(va, w, k, w - k), w - k, w);
    if (ite_depth(a) <= 16) return v_ite(val(a->a), w, v_bin(op, w, val(a->b), vb), v_bin(op, w, val(a->c), vb));
  } else if (!va.e) {
    uint64_t k = va.v & m;
    if (op == E_SHL || op == E_LSHR) if (k == 0) return Value(0);
    if ((op == E_UDIV || op == E_UREM) && k == 0) return Value(0);
    if (ite_depth(vb.e) <= 16) return v_ite(val(vb.e->a), w, v_bin(op, w, va, val(vb.e->b)), v_bin(op, w, va, val(vb.e->c)));
  } else {
    X a = va.e, b = vb.e;
    if (a == b) {
      if (op == E_SUB || op == E_XOR) return Value(0);
      if (op == E_AND || op == E_OR) return va;
    }
    if (w == 1 && op == E_AND) { if (a->op == E_XOR && a->a == b && isc(a->b)) return Value(0); if (b->op == E_XOR && b->a == a && isc(b->b)) return Value(0); }
    if (w == 1 && op == E_OR) { if (a->op == E_XOR && a->a == b && isc(a->b)) return Value(1); if (b->op == E_XOR && b->a == a && isc(b->b)) return Value(1); }
    if (op == E_SUB) { // (x + c) - x, x - (x + c)
      if (a->op == E_ADD && a->a == b) return val(a->b);
      if (b->op == E_ADD && b->a == a) return v_bin(E_SUB, w, Value(0), val(b->b));
      if (a->op == E_ADD && a->b == b) return val(a->a);
      if (a->op == E_ADD && b->op == E_ADD && a->a == b->a) return v_bin(E_SUB, w, val(a->b), val(b->b));
    }
    if (op == E_ADD) {
      if (a->op == E_ADD && isc(a->b)) return v_bin(E_ADD, w, v_bin(E_ADD, w, val(a->a), vb), val(a->b));
      if (b->op == E_ADD && isc(b->b)) return v_bin(E_ADD, w, v_bin(E_ADD, w, va, val(b->a)), val(b->b));
    }
    if (op == E_UREM && a->hi < b->lo) return va;
    if (op == E_OR && w > 8) { // OR of disjoint zext / shl parts: leave to solver
    }
    if (comm && a->id > b->id) std::swap(va, vb);
  }
  return res(mk(op, w, 0, ex(va, w), ex(vb, w), nullptr, 0));
}

Value v_cmp(Op op, unsigned w, Value va, Value vb) {
  if (!va.e && !vb.e) return Value(fold(op, w, va.v, vb.v));
  X a = ex(va, w), b = ex(vb, w);
  if (a == b) return Value(op == E_EQ || op == E_ULE || op == E_SLE);
  switch (op) {
    case E_EQ: if (a->hi < b->lo || b->hi < a->lo || a->shi < b->slo || b->shi < a->slo) return Value(0); break;
    case E_ULT: if (a->hi < b->lo) return Value(1); if (a->lo >= b->hi) return Value(0); break;
    case E_ULE: if (a->hi <= b->lo) return Value(1); if (a->lo > b->hi) return Value(0); break;
    case E_SLT: if (a->shi < b->slo) return Value(1); if (a->slo >= b->shi) return Value(0); break;
    case E_SLE: if (a->shi <= b->slo) return Value(1); if (a->slo > b->shi) return Value(0); break;
    default: break;
  }
  if (op == E_EQ && isc(a)) { std::swap(a, b); std::swap(va, vb); }
  if (op == E_EQ && isc(b)) {
    uint64_t k = b->val;
    if (w == 1) return k ? va : v_not(va);
    if (a->op == E_ZEXT) return k <= maskw(a->a->w) ? v_cmp(E_EQ, a->a->w, val(a->a), Value(k)) : Value(0);
    if (a->op == E_SEXT) { uint64_t t = k & maskw(a->a->w); return (uint64_t)(sxt(t, a->a->w)) == (uint64_t)sxt(k, w) ? v_cmp(E_EQ, a->a->w, val(a->a), Value(t)) : Value(0); }
    if (a->op == E_ADD && isc(a->b)) return v_cmp(E_EQ, w, val(a->a), Value((k - a->b->val) & maskw(w)));
    if (a->op == E_SUB && k == 0) return v_cmp(E_EQ, w, val(a->a), val(a->b));
    if (a->op == E_XOR && isc(a->b)) return v_cmp(E_EQ, w, val(a->a), Value(k ^ a->b->val));
    if (a->op == E_CONCAT) return v_and(v_cmp(E_EQ, a->a->w, val(a->a), Value(k >> a->b->w)), v_cmp(E_EQ, a->b->w, val(a->b), Value(k & maskw(a->b->w))));
  }
  if (isc(b) && ite_depth(a) <= 32) return v_ite(val(a->a), 1, v_cmp(op, w, val(a->b), val(b)), v_cmp(op, w, val(a->c), val(b)));
  if (isc(a) && ite_depth(b) <= 32) return v_ite(val(b->a), 1, v_cmp(op, w, val(a), val(b->b)), v_cmp(op, w, val(a), val(b->c)));
  if (op == E_EQ && a->op == E_ADD && b->op == E_ADD && a->b == b->b) return v_cmp(E_EQ, w, val(a->a), val(b->a));
  if (op == E_EQ && a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) return v_and(v_cmp(E_EQ, a->a->w, val(a->a), val(b->a)), v_cmp(E_EQ, a->b->w, val(a->b), val(b->b)));
  // narrowing
  auto narrowable = [&](X e, bool z, unsigned sw) { return (e->op == (z ? E_ZEXT : E_SEXT) && e->a->w == sw); };
  if (a->op == E_ZEXT || b->op == E_ZEXT) {
    unsigned sw = a->op == E_ZEXT ? a->a->w : b->a->w; // source width of one of them
    if (a->op == E_ZEXT && b->op == E_ZEXT) sw = std::max(a->a->w, b->a->w);
    auto low = [&](X e, Value& out) { if (isc(e)) { if (e->val > maskw(sw)) return false; out = Value(e->val); return true; } if (e->op == E_ZEXT && e->a->w <= sw) { out = v_zext(val(e->a), e->a->w, sw); return true; } return false; };
    Value l, r; if (sw < w && low(a, l) && low(b, r)) {
      Op o2 = op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op; return v_cmp(o2, sw, l, r);
    }
  }
  if ((a->op == E_SEXT || b->op == E_SEXT) && (op == E_EQ || op == E_SLT || op == E_SLE)) {
    unsigned sw = a->op == E_SEXT ? a->a->w : b->a->w;
    auto low = [&](X e, Value& out) { if (isc(e)) { int64_t s = sxt(e->val, w); if (s != sxt((uint64_t)s & maskw(sw), sw)) return false; out = Value((uint64_t)s & maskw(sw)); return true; } if (narrowable(e, false, sw)) { out = val(e->a); return true; } return false; };
    Value l, r; if (sw < w && low(a, l) && low(b, r)) return v_cmp(op, sw, l, r);
  }
  // signed comparison of nonnegatives is unsigned
  if (a->slo >= 0 && b->slo >= 0) { if (op == E_SLT) op = E_ULT; else if (op == E_SLE) op = E_ULE; }
  // x + c <s k without overflow
  if ((op == E_SLT || op == E_SLE) && isc(b) && a->op == E_ADD && isc(a->b)) {
    __int128 l = (__int128)a->a->slo + sxt(a->b->val, w), h = (__int128)a->a->shi + sxt(a->b->val, w);
    __int128 k2 = (__int128)sxt(b->val, w) - sxt(a->b->val, w); int64_t mn = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), mx = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    if (l >= mn && h <= mx && k2 >= mn && k2 <= mx) return v_cmp(op, w, val(a->a), Value((uint64_t)(int64_t)k2 & maskw(w)));
  }
  if (op == E_EQ && a->id > b->id && !isc(b)) std::swap(a, b);
  return res(mk(op, 1, 0, a, b, nullptr, 0));
}

Value v_ite(Value c, unsigned w, Value a, Value b) {
  if (!c.e) return c.v ? a : b;
  if (!a.e && !b.e && a.v == b.v) return a;
  if (a.e && a.e == b.e) return a;
  if (c.e->op == E_XOR && isc(c.e->b)) return v_ite(val(c.e->a), w, b, a); // negated condition
  if (w == 1) {
    if (!a.e) return a.v ? v_or(c, b) : v_and(v_not(c), b);
    if (!b.e) return b.v ? v_or(v_not(c), a) : v_and(c, a);
  }
  if (a.e && a.e->op == E_ITE && a.e->a == c.e) a = val(a.e->b);
  if (b.e && b.e->op == E_ITE && b.e->a == c.e) b = val(b.e->c);
  if (!a.e && !b.e && a.v == b.v) return a;
  if (a.e && a.e == b.e) return a;
  return res(mk(E_ITE, w, 0, c.e, ex(a, w), ex(b, w), 0));
}

Value v_zext(Value a, unsigned f, unsigned t) {
  if (f == t) return a; if (!a.e) return a;
  if (a.e->op == E_ZEXT) return val(mk(E_ZEXT, t, 0, a.e->a, nullptr, nullptr, 0));
  if (ite_depth(a.e) <= 16) return v_ite(val(a.e->a), t, v_zext(val(a.e->b), f, t), v_zext(val(a.e->c), f, t));
  return res(mk(E_ZEXT, t, 0, a.e, nullptr, nullptr, 0));
}
Value v_sext(Value a, unsigned f, unsigned t) {
  if (f == t) return a; if (!a.e) return Value((uint64_t)sxt(a.v, f) & maskw(t));
  if (a.e->slo >= 0) return v_zext(a, f, t);
  if (a.e->op == E_SEXT) return val(mk(E_SEXT, t, 0, a.e->a, nullptr, nullptr, 0));
  if (ite_depth(a.e) <= 16) return v_ite(val(a.e->a), t, v_sext(val(a.e->b), f, t), v_sext(val(a.e->c), f, t));
  return res(mk(E_SEXT, t, 0, a.e, nullptr, nullptr, 0));
}
Value v_extract(Value v, unsigned f, unsigned lo, unsigned w) {
  if (lo == 0 && w == f) return v;
  if (!v.e) return Value(v.v >> lo & maskw(w));
  X a = v.e;
  switch (a->op) {
    case E_EXTRACT: return v_extract(val(a->a), a->a->w, lo + a->val, w);
    case E_ZEXT: {
      unsigned sw = a->a->w;
      if (lo >= sw) return Value(0);
      if (lo + w <= sw) return v_extract(val(a->a), sw, lo, w);
      return v_zext(v_extract(val(a->a), sw, lo, sw - lo), sw - lo, w); }
    case E_SEXT: {
      unsigned sw = a->a->w;
      if (lo + w <= sw) return v_extract(val(a->a), sw, lo, w);
      if (lo < sw) return v_sext(v_extract(val(a->a), sw, lo, sw - lo), sw - lo, w);
      break; }
    case E_CONCAT: {
      unsigned bw = a->b->w;
      if (lo + w <= bw) return v_extract(val(a->b), bw, lo, w);
      if (lo >= bw) return v_extract(val(a->a), a->a->w, lo - bw, w);
      return v_concat(v_extract(val(a->a), a->a->w, 0, lo + w - bw), lo + w - bw, v_extract(val(a->b), bw, lo, bw - lo), bw - lo); }
    case E_AND: case E_OR: case E_XOR:
      return v_bin((Op)a->op, w, v_extract(val(a->a), f, lo, w), v_extract(val(a->b), f, lo, w));
    case E_ADD: case E_SUB: case E_MUL:
      if (lo == 0) return v_bin((Op)a->op, w, v_extract(val(a->a), f, 0, w), v_extract(val(a->b), f, 0, w));
      break;
    case E_ITE:
      if (ite_depth(a) <= 16 || f <= 32) return v_ite(val(a->a), w, v_extract(val(a->b), f, lo, w), v_extract(val(a->c), f, lo, w));
      break;
    default: break;
  }
  return res(mk(E_EXTRACT, w, 0, a, nullptr, nullptr, lo));
}
Value v_concat(Value h, unsigned wh, Value l, unsigned wl) {
  if (!h.e && !l.e) return Value(h.v << wl | l.v);
  if (!h.e && h.v == 0) return v_zext(l, wl, wh + wl);
  X a = ex(h, wh), b = ex(l, wl);
  if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->a == b->a && a->val == b->val + wl) return v_extract(val(a->a), a->a->w, b->val, wh + wl);
  if (a->op == E_EXTRACT && a->a == b && a->val == wl && b->w == wl) { } // cannot happen
  // high part extracted from the same value whose whole low part is b (extract at 0 folded)
  if (b->op == E_CONCAT && a->op == E_EXTRACT && b->a->op == E_EXTRACT && b->a->a == a->a && a->val == b->a->val + b->a->w)
    return v_concat(v_extract(val(a->a), a->a->w, b->a->val, wh + b->a->w), wh + b->a->w, val(b->b), b->b->w);
  return res(mk(E_CONCAT, wh + wl, 0, a, b, nullptr, 0));
}

// ---------------------------------------------------------------- floating point
// integer view of a double: returns true and a 64-bit signed integer value with |.| <= 2^53
static bool int_view(Value d, Value& out) {
  if (!d.e) {
    double x = asd(d.v);
    if (!(fabs(x) <= 9007199254740992.0) || x != trunc(x) || (x == 0 && std::signbit(x))) return false;
    out = Value((uint64_t)(int64_t)x); return true;
  }
  if (d.e->op == E_ITOF) { // operand is 64-bit
    if (d.e->a->slo >= -(1ll << 53) && d.e->a->shi <= (1ll << 53)) { out = val(d.e->a); return true; }
  }
  return false;
}
static bool intlike(X e, int depth = 4) {
  Value t; if (int_view(val(e), t)) return true;
  if (isc(e)) return true;
  if (e->op == E_ITE && depth) return intlike(e->b, depth - 1) && intlike(e->c, depth - 1);
  return false;
}
static const uint64_t NEG0 = 1ull << 63;
static void irange(Value v, int64_t& lo, int64_t& hi) { if (v.e) { lo = v.e->slo; hi = v.e->shi; } else lo = hi = (int64_t)v.v; }

Value v_itof(Value a, unsigned w, bool sg) {
  if (!a.e) return Value(asu(sg ? (double)sxt(a.v, w) : (double)a.v));
  if (sg || w < 64) { Value b = sg ? v_sext(a, w, 64) : v_zext(a, w, 64); if (!b.e) return Value(asu((double)(int64_t)b.v));
    if (b.e->op == E_ITE && ite_depth(b.e) <= 16) return v_ite(val(b.e->a), 64, v_itof(val(b.e->b), 64, true), v_itof(val(b.e->c), 64, true));
    return val(mk(E_ITOF, 64, 0, b.e, nullptr, nullptr, 0)); }
  if (a.e->slo >= 0) return val(mk(E_ITOF, 64, 0, a.e, nullptr, nullptr, 0));
  return val(mk(E_UTOF, 64, 0, a.e, nullptr, nullptr, 0));
}

Value v_fbin(Op op, Value va, Value vb) {
  if (!va.e && !vb.e) return Value(foldf(op, va.v, vb.v));
  Value ia, ib;
  if (op != E_FDIV && int_view(va, ia) && int_view(vb, ib)) {
    int64_t al, ah, bl, bh; irange(ia, al, ah); irange(ib, bl, bh);
    const __int128 L = 1ll << 53;
    if (op == E_FADD || op == E_FSUB) {
      __int128 lo = op == E_FADD ? (__int128)al + bl : (__int128)al - bh, hi = op == E_FADD ? (__int128)ah + bh : (__int128)ah - bl;
      if (lo >= -L && hi <= L) return v_itof(v_bin(op == E_FADD ? E_ADD : E_SUB, 64, ia, ib), 64, true);
    } else if (op == E_FMUL) {
      __int128 p[4] = { (__int128)al * bl, (__int128)al * bh, (__int128)ah * bl, (__int128)ah * bh };
      if (*std::min_element(p, p + 4) >= -L && *std::max_element(p, p + 4) <= L) {
        Value prod = v_itof(v_bin(E_MUL, 64, ia, ib), 64, true);
        bool noneg = al >= 0 && bl >= 0, nozero = (al > 0 || ah < 0) && (bl > 0 || bh < 0);
        if (noneg || nozero) return prod;
        Value z = v_or(v_cmp(E_EQ, 64, ia, Value(0)), v_cmp(E_EQ, 64, ib, Value(0)));
        Value sg = v_bin(E_XOR, 1, v_cmp(E_SLT, 64, ia, Value(0)), v_cmp(E_SLT, 64, ib, Value(0)));
        return v_ite(v_and(z, sg), 64, Value(NEG0), prod);
      }
    }
  }
  // -0 handling: -0 + x
  if (op == E_FADD && !vb.e && vb.v == NEG0) return va;
  if (op == E_FADD && !va.e && va.v == NEG0) return vb;
  if (op == E_FSUB && !vb.e && vb.v == 0) return va;
  if (op == E_FMUL && !vb.e && vb.v == asu(1.0)) return va;
  if (op == E_FMUL && !va.e && va.v == asu(1.0)) return vb;
  if (op == E_FDIV && !vb.e && vb.v == asu(1.0)) return va;
  if ((op == E_FMUL || op == E_FDIV) && !vb.e && vb.v == asu(-1.0)) return v_fun(E_FNEG, va); // signs of NaN are not modelled
  if (op == E_FMUL && !va.e && va.v == asu(-1.0)) return v_fun(E_FNEG, vb);
  if (op == E_FDIV && !vb.e && (vb.v << 12) == 0 && fabs(asd(vb.v)) > 1e-300 && fabs(asd(vb.v)) < 1e300) { op = E_FMUL; vb = Value(asu(1 / asd(vb.v))); } // by a power of two: exact
  if (op == E_FADD && va.e && va.e == vb.e) { op = E_FMUL; va = Value(asu(2.0)); }
  if (va.e && va.e->op == E_ITE && intlike(va.e) && intlike(ex(vb, 64))) return v_ite(val(va.e->a), 64, v_fbin(op, val(va.e->b), vb), v_fbin(op, val(va.e->c), vb));
  if (vb.e && vb.e->op == E_ITE && intlike(vb.e) && intlike(ex(va, 64))) return v_ite(val(vb.e->a), 64, v_fbin(op, va, val(vb.e->b)), v_fbin(op, va, val(vb.e->c)));
  if ((op == E_FMUL || op == E_FDIV) && va.e && va.e->op == E_FNEG) return v_fun(E_FNEG, v_fbin(op, val(va.e->a), vb));
  if ((op == E_FMUL || op == E_FDIV) && vb.e && vb.e->op == E_FNEG) return v_fun(E_FNEG, v_fbin(op, va, val(vb.e->a)));
  X a = ex(va, 64), b = ex(vb, 64);
  if (op == E_FSUB) { op = E_FADD; Value nb = v_fun(E_FNEG, vb); b = ex(nb, 64); } // x - y == x + (-y) in IEEE
  if ((op == E_FADD || op == E_FMUL) && a->id > b->id) std::swap(a, b); // commutative up to NaN payload
  return val(mk(op, 64, 0, a, b, nullptr, 0));
}

static int chain(X e, X& leaf, int depth = 8);
static bool chain_cmp(Op op, Value va, Value vb, Value& out);
static double chain_at(X e, int64_t x);
// A rounded chain with few values as a decision list of constants.
static bool chain_round(X e, unsigned aux, Value& out) {
  X leaf; if (!chain(e, leaf) || leaf->slo == leaf->shi) return false;
  auto f = [&](int64_t x) { return asu(froundm(chain_at(e, x), aux)); };
  uint64_t first = f(leaf->slo), last = f(leaf->shi); double d = fabs(asd(last) - asd(first));
  if (!(d <= 16) || fabs(asd(first)) > 1e9) return false;
  int64_t at = leaf->slo; std::vector<std::pair<int64_t, uint64_t>> seg; // last x of the segment, value
  while (true) {
    uint64_t v = f(at); if (v == last) { seg.push_back({ leaf->shi, v }); break; }
    int64_t lo = at, hi = leaf->shi;
    while ((uint64_t)hi - (uint64_t)lo > 1) { int64_t m = lo + (int64_t)(((uint64_t)hi - (uint64_t)lo) / 2); if (f(m) == v) lo = m; else hi = m; }
    seg.push_back({ lo, v }); at = lo + 1; if (seg.size() > 18) return false;
  }
  out = Value(seg.back().second);
  for (size_t i = seg.size() - 1; i-- > 0;) out = v_ite(v_cmp(E_SLE, 64, val(leaf), Value((uint64_t)seg[i].first)), 64, Value(seg[i].second), out);
  return true;
}

Value v_fun(Op op, Value a, unsigned aux) {
  if (!a.e) return Value(foldfu(op, a.v, aux));
  if (op == E_FROUND) { Value out; if (chain_round(a.e, aux, out)) return out; }
  Value ia;
  if (int_view(a, ia)) {
    if (op == E_FROUND) return a;
    if (op == E_FABS) { if (ia.e->slo >= 0) return a; return v_itof(v_ite(v_cmp(E_SLT, 64, ia, Value(0)), 64, v_bin(E_SUB, 64, Value(0), ia), ia), 64, true); }
    if (op == E_FNEG) {
      Value n = v_itof(v_bin(E_SUB, 64, Value(0), ia), 64, true);
      if (ia.e->slo > 0 || ia.e->shi < 0) return n;
      return v_ite(v_cmp(E_EQ, 64, ia, Value(0)), 64, Value(NEG0), n);
    }
  }
  if (a.e->op == E_ITE && intlike(a.e)) return v_ite(val(a.e->a), 64, v_fun(op, val(a.e->b), aux), v_fun(op, val(a.e->c), aux));
  if (op == E_FNEG && a.e->op == E_FNEG) return val(a.e->a);
  if (op == E_FABS && (a.e->op == E_FNEG || a.e->op == E_FABS)) return v_fun(E_FABS, val(a.e->a), 0);
  if (op == E_FROUND && a.e->op == E_FROUND) return a;
  return val(mk(op, 64, aux, a.e, nullptr, nullptr, 0));
}

// A monotone chain: a function of one integer built from int-to-double conversion and +,*,/ by finite constants, negation and rounding.
static int chain(X e, X& leaf, int depth) { // 1 nondecreasing, -1 nonincreasing, 0 not a chain
  if (e->op == E_ITOF) { leaf = e->a; return 1; }
  if (!depth) return 0;
  if (e->op == E_FNEG) return -chain(e->a, leaf, depth - 1);
  if (e->op == E_FROUND) return chain(e->a, leaf, depth - 1);
  if (e->op == E_FADD || e->op == E_FMUL || e->op == E_FDIV) {
    X c = e->b, o = e->a; if (!isc(c)) { if (e->op == E_FDIV) return 0; std::swap(c, o); } if (!isc(c)) return 0;
    double k = asd(c->val); if (!std::isfinite(k) || (k == 0 && e->op != E_FADD)) return 0;
    int d = chain(o, leaf, depth - 1); return e->op != E_FADD && k < 0 ? -d : d;
  }
  return 0;
}
static double chain_at(X e, int64_t x) {
  switch (e->op) {
    case E_ITOF: return (double)x;
    case E_FNEG: return -chain_at(e->a, x);
    case E_FROUND: return asd(foldfu(E_FROUND, asu(chain_at(e->a, x)), e->aux));
    default: return asd(foldf((Op)e->op, isc(e->a) ? e->a->val : asu(chain_at(e->a, x)), isc(e->b) ? e->b->val : asu(chain_at(e->b, x))));
  }
}
static bool chain_range(X e, double& lo, double& hi) {
  X leaf; if (!chain(e, leaf)) return false;
  lo = chain_at(e, leaf->slo); hi = chain_at(e, leaf->shi); if (lo > hi) std::swap(lo, hi); return true;
}
static bool chain_cmp(Op op, Value va, Value vb, Value& out) {
  if (!va.e == !vb.e) return false;
  X e = va.e ? va.e : vb.e, leaf; double k = asd(va.e ? vb.v : va.v);
  if (std::isnan(k) || !chain(e, leaf)) return false;
  if (op == E_FUNO) { out = Value(0); return true; }
  if (op == E_FEQ) { Value l, r; chain_cmp(E_FLE, va, vb, l); chain_cmp(E_FLE, vb, va, r); out = v_and(l, r); return true; }
  auto p = [&](int64_t x) { double f = chain_at(e, x); return op == E_FLT ? (va.e ? f < k : k < f) : (va.e ? f <= k : k <= f); };
  int64_t lo = leaf->slo, hi = leaf->shi; bool pl = p(lo), ph = p(hi);
  if (pl == ph) { out = Value(pl); return true; }
  while ((uint64_t)hi - (uint64_t)lo > 1) { int64_t m = lo + (int64_t)(((uint64_t)hi - (uint64_t)lo) / 2); if (p(m) == pl) lo = m; else hi = m; }
  Value c = v_cmp(E_SLE, 64, val(leaf), Value((uint64_t)lo)); out = pl ? c : v_not(c); return true;
}

Value v_fcmp(Op op, Value va, Value vb) {
  if (!va.e && !vb.e) return Value(foldf(op, va.v, vb.v));
  Value ia, ib;
  bool av = int_view(va, ia), bv = int_view(vb, ib);
  // treat -0 constant as 0 in comparisons
  if (!av && !va.e && va.v == NEG0) { av = true; ia = Value(0); }
  if (!bv && !vb.e && vb.v == NEG0) { bv = true; ib = Value(0); }
  if (av && bv) {
    switch (op) { case E_FEQ: return v_cmp(E_EQ, 64, ia, ib); case E_FLT: return v_cmp(E_SLT, 64, ia, ib); case E_FLE: return v_cmp(E_SLE, 64, ia, ib); default: return Value(0); }
  }
  if (op == E_FUNO) {
    if (av) { if (vb.e && (vb.e->op == E_ITOF || vb.e->op == E_UTOF)) return Value(0); va = Value(0); }
    if (bv) { if (va.e && (va.e->op == E_ITOF || va.e->op == E_UTOF)) return Value(0); vb = Value(0); }
    if (!vb.e && !std::isnan(asd(vb.v))) vb = Value(0);
    if (!va.e && !std::isnan(asd(va.v))) va = Value(0);
    if (!va.e && !vb.e) return Value(foldf(op, va.v, vb.v));
  }
  // integer against a non-integral constant
  auto vsconst = [&](Value i, double k, bool constRight, Op o, Value& out) {
    if (std::isnan(k)) { out = Value(0); return true; }
    if (o == E_FUNO) { out = Value(0); return true; }
    if (o == E_FEQ && (std::isinf(k) || k != floor(k))) { out = Value(0); return true; }
    if (k > 9007199254740992.0) { out = Value(o == E_FEQ ? 0 : constRight); return true; }
    if (k < -9007199254740992.0) { out = Value(o == E_FEQ ? 0 : !constRight); return true; }
    if (k == floor(k)) return false;
    // i < k <=> i <= floor(k);  i <= k <=> i <= floor(k); k < i <=> i > floor(k)
    Value f((uint64_t)(int64_t)floor(k));
    out = constRight ? v_cmp(E_SLE, 64, i, f) : v_cmp(E_SLT, 64, f, i); return true;
  };
  Value out;
  if (av && ia.e && !vb.e && vsconst(ia, asd(vb.v), true, op, out)) return out;
  if (bv && ib.e && !va.e && vsconst(ib, asd(va.v), false, op, out)) return out;
  if (chain_cmp(op, va, vb, out)) return out;
  if (va.e && va.e == vb.e) {
    if (op == E_FLT) return Value(0);
    if (op == E_FEQ || op == E_FLE) return v_not(v_fcmp(E_FUNO, va, va));
  }
  if (va.e && va.e->op == E_ITE && intlike(va.e) && (intlike(ex(vb, 64)))) return v_ite(val(va.e->a), 1, v_fcmp(op, val(va.e->b), vb), v_fcmp(op, val(va.e->c), vb));
  if (vb.e && vb.e->op == E_ITE && intlike(vb.e) && (intlike(ex(va, 64)))) return v_ite(val(vb.e->a), 1, v_fcmp(op, va, val(vb.e->b)), v_fcmp(op, va, val(vb.e->c)));
  X a = ex(va, 64), b = ex(vb, 64);
  if (op == E_FUNO) { // reduce to is-nan tests
    if (isc(a)) std::swap(a, b);
    if (!isc(b) && a != b) return v_or(v_fcmp(E_FUNO, val(a), Value(0)), v_fcmp(E_FUNO, val(b), Value(0)));
    b = x_const(0, 64);
    if (a->op == E_FNEG || a->op == E_FABS || a->op == E_FROUND) return v_fcmp(E_FUNO, val(a->a), Value(0));
    if (a->op == E_ITOF || a->op == E_UTOF) return Value(0);
  }
  if (op == E_FEQ && a->id > b->id) std::swap(a, b);
  return val(mk(op, 1, 0, a, b, nullptr, 0));
}

Value v_ftoi(Value a, unsigned w, bool sg) {
  if (!a.e) return Value(fold_ftoi(a.v, w, sg));
  Value ia;
  if (int_view(a, ia)) return v_extract(ia, 64, 0, w);
  if (a.e->op == E_ITE && intlike(a.e)) return v_ite(val(a.e->a), w, v_ftoi(val(a.e->b), w, sg), v_ftoi(val(a.e->c), w, sg));
  if (!sg && w < 64) return v_extract(v_ftoi(a, 64, true), 64, 0, w); // as the machine does it; out of range is undefined behaviour and reported by the caller
  return val(mk(sg ? E_FTOI : E_FTOU, w, 0, a.e, nullptr, nullptr, 0));
}

// single precision is kept as its 32 bits; arithmetic is done in double and rounded (innocuous for + - * / sqrt)
Value v_f2s(Value a) {
  if (!a.e) return Value(fold_f2s(a.v));
  if (a.e->op == E_S2F) return val(a.e->a);
  if (a.e->op == E_ITE && ite_depth(a.e) <= 16) return v_ite(val(a.e->a), 32, v_f2s(val(a.e->b)), v_f2s(val(a.e->c)));
  return val(mk(E_F2S, 32, 0, a.e, nullptr, nullptr, 0));
}
Value v_s2f(Value a) {
  if (!a.e) return Value(fold_s2f(a.v));
  if (a.e->op == E_F2S) { Value i; if (int_view(val(a.e->a), i)) { int64_t lo, hi; irange(i, lo, hi); if (lo >= -(1 << 24) && hi <= 1 << 24) return val(a.e->a); } }
  if (a.e->op == E_ITE && ite_depth(a.e) <= 16) return v_ite(val(a.e->a), 64, v_s2f(val(a.e->b)), v_s2f(val(a.e->c)));
  return val(mk(E_S2F, 64, 0, a.e, nullptr, nullptr, 0));
}

static std::vector<X> g_ufs;
Value v_uf(unsigned fn, unsigned w, Value a, Value b, Value c, int64_t slo, int64_t shi, int kind) {
  X xa = ex(a, 64), xb = ex(b, 64), xc = ex(c, 64);
  if (fn < 40 && w == 64) { Value r; if (tabulate(xa, xb, 64, [fn](uint64_t x, uint64_t y) { return asu(host_uf(fn, asd(x), asd(y))); }, r)) return r; }
  if (fn == 7) { // exact cases of pow
    if (!b.e) { double y = asd(b.v); if (y == 0) return Value(asu(1.0)); if (y == 1) return a; }
    else if (!a.e) { if (asd(a.v) == 1) return Value(asu(1.0)); }
  }
  static std::map<std::tuple<unsigned, X, X, X>, X> memo;
  auto key = std::make_tuple(fn, xa, xb, xc);
  auto it = memo.find(key); if (it != memo.end()) return val(it->second);
  char nm[40]; snprintf(nm, sizeof nm, "uf%u_%zu", fn, g_ufs.size());
  X s = x_sym(nm, w, slo, shi, kind);
  g_syms.back().kind = kind | 2;
  X e = mk(E_UF, w, fn, xa, xb, xc, s->val);
  g_syms[s->val].expr = e;
  g_ufs.push_back(e); memo[key] = e;
  return val(e);
}
double host_uf(unsigned fn, double a, double b) {
  switch (fn) { case 1: return sin(a); case 2: return cos(a); case 3: return tan(a); case 4: return atan(a); case 5: return exp(a); case 6: return log(a); case 7: return pow(a, b); case 8: return fmod(a, b); case 9: return asin(a); case 10: return acos(a); case 11: return log10(a); case 12: return atan2(a, b); }
  return 0;
}

// ---------------------------------------------------------------- evaluation
static uint64_t g_epoch = 0; static const Model* g_model;
void x_eval_begin(const Model& m) { g_epoch++; g_model = &m; }
uint64_t x_eval_in(X e) {
  if (e->op == E_CONST) return e->val;
  if (e->evalEpoch == g_epoch) return e->evalVal;
  uint64_t r = 0, m = maskw(e->w);
  switch (e->op) {
    case E_SYM: case E_UF: r = e->val < g_model->v.size() ? g_model->v[e->val] : g_syms[e->val].lo; break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = fold((Op)e->op, e->a->w, x_eval_in(e->a), x_eval_in(e->b)); break;
    case E_ITE: r = x_eval_in(e->a) ? x_eval_in(e->b) : x_eval_in(e->c); break;
    case E_ZEXT: r = x_eval_in(e->a); break;
    case E_SEXT: r = (uint64_t)sxt(x_eval_in(e->a), e->a->w) & m; break;
    case E_EXTRACT: r = x_eval_in(e->a) >> e->val & m; break;
    case E_CONCAT: r = x_eval_in(e->a) << e->b->w | x_eval_in(e->b); break;
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FEQ: case E_FLT: case E_FLE: case E_FUNO: r = foldf((Op)e->op, x_eval_in(e->a), x_eval_in(e->b)); break;
    case E_FNEG: case E_FABS: case E_FROUND: case E_FSQRT: r = foldfu((Op)e->op, x_eval_in(e->a), e->aux); break;
    case E_S2F: r = fold_s2f(x_eval_in(e->a)); break;
    case E_F2S: r = fold_f2s(x_eval_in(e->a)); break;
    case E_ITOF: r = asu((double)(int64_t)x_eval_in(e->a)); break;
    case E_UTOF: r = asu((double)x_eval_in(e->a)); break;
    case E_FTOI: r = fold_ftoi(x_eval_in(e->a), e->w, true); break;
    case E_FTOU: r = fold_ftoi(x_eval_in(e->a), e->w, false); break;
    default: r = fold((Op)e->op, e->w, x_eval_in(e->a), x_eval_in(e->b)); break;
  }
  e->evalEpoch = g_epoch; e->evalVal = r;
  return r;
}
// the real value of an uninterpreted application under the current model (40: length, 41: character of a printed number)
uint64_t host_ufx(X e) {
  uint64_t a = x_eval_in(e->a), b = e->b ? x_eval_in(e->b) : 0, c = e->c ? x_eval_in(e->c) : 0;
  if (e->aux == 40 || e->aux == 41) { char f[16], t[512]; int prec = e->aux == 40 ? (int)b : (int)(c % 1000); snprintf(f, sizeof f, "%%.%d%c", prec, e->aux == 40 ? (char)c : 'g'); int n = snprintf(t, sizeof t, f, asd(a)); return e->aux == 40 ? (uint64_t)n : b < (uint64_t)n ? (uint64_t)(unsigned char)t[b] : '0'; }
  return asu(host_uf(e->aux, asd(a), asd(b)));
}
uint64_t x_eval(X e, const Model& m) { x_eval_begin(m); return x_eval_in(e); }

static const char* opn[] = { "const","sym","+","-","*","u/","s/","u%","s%","<<","u>>","s>>","&","|","^","==","u<","u<=","s<","s<=","ite","zext","sext","extract","concat","f+","f-","f*","f/","fneg","fabs","fround","fsqrt","s2f","itof","utof","ftoi","ftou","f2s","f==","f<","f<=","funo","uf" };
std::string x_str(X e, int d) {
  if (e->op == E_CONST) return std::to_string(sxt(e->val, e->w));
  if (e->op == E_SYM) return g_syms[e->val].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op] + std::to_string(e->w);
  if (e->op == E_EXTRACT) s += "@" + std::to_string(e->val);
  for (X c : { e->a, e->b, e->c }) if (c) s += " " + x_str(c, d - 1);
  return s + ")";
}

const std::vector<uint32_t>& x_syms(X e) {
  if (e->syms) return *e->syms;
  std::vector<uint32_t> r;
  if (e->op == E_SYM || e->op == E_UF) r.push_back((uint32_t)e->val);
  for (X c : { e->a, e->b, e->c }) if (c) { auto& s = x_syms(c); if (!s.empty()) { std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t)); r.swap(t); } }
  static std::map<std::vector<uint32_t>, const std::vector<uint32_t>*> pool;
  auto it = pool.find(r);
  if (it == pool.end()) it = pool.emplace(r, new std::vector<uint32_t>(r)).first;
  e->syms = it->second;
  return *e->syms;
}

// ---------------------------------------------------------------- Z3
static Z3_context Z; static Z3_sort FP64; static Z3_ast RNE;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); fflush(stderr); abort(); }
static void zinit() {
  if (Z) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr);
  FP64 = Z3_mk_fpa_sort_double(Z); RNE = Z3_mk_fpa_rne(Z);
  Z3_inc_ref(Z, Z3_sort_to_ast(Z, FP64)); Z3_inc_ref(Z, RNE);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z, w); }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int(Z, 1, bvs(1)), Z3_mk_unsigned_int(Z, 0, bvs(1))); }
static Z3_ast tbv(X e); static Z3_ast tfp(X e); static Z3_ast tb(X e);
static inline bool isfpop(X e) { return e->op >= E_FADD && e->op <= E_UTOF; }
static Z3_ast zrm(unsigned aux) { switch (aux) { case 0: return Z3_mk_fpa_rtn(Z); case 1: return Z3_mk_fpa_rtp(Z); case 2: return Z3_mk_fpa_rtz(Z); case 3: return Z3_mk_fpa_rna(Z); default: return RNE; } }

static Z3_ast tfp(X e) {
  if (e->zfp) return (Z3_ast)e->zfp;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = Z3_mk_fpa_numeral_double(Z, asd(e->val), FP64); break;
    case E_FADD: r = Z3_mk_fpa_add(Z, RNE, tfp(e->a), tfp(e->b)); break;
    case E_FMUL: r = Z3_mk_fpa_mul(Z, RNE, tfp(e->a), tfp(e->b)); break;
    case E_FDIV: r = Z3_mk_fpa_div(Z, RNE, tfp(e->a), tfp(e->b)); break;
    case E_FSUB: r = Z3_mk_fpa_sub(Z, RNE, tfp(e->a), tfp(e->b)); break;
    case E_FNEG: r = Z3_mk_fpa_neg(Z, tfp(e->a)); break;
    case E_FABS: r = Z3_mk_fpa_abs(Z, tfp(e->a)); break;
    case E_FROUND: r = Z3_mk_fpa_round_to_integral(Z, zrm(e->aux), tfp(e->a)); break;
    case E_FSQRT: r = Z3_mk_fpa_sqrt(Z, RNE, tfp(e->a)); break;
    case E_S2F: r = Z3_mk_fpa_to_fp_float(Z, RNE, e->a->op == E_F2S ? Z3_mk_fpa_to_fp_float(Z, RNE, tfp(e->a->a), Z3_mk_fpa_sort_32(Z)) : Z3_mk_fpa_to_fp_bv(Z, tbv(e->a), Z3_mk_fpa_sort_32(Z)), FP64); break;
    case E_ITOF: {
      // narrow the operand when its range allows: cheaper conversion
      unsigned nb = 64; while (nb > 2 && e->a->slo >= -(1ll << (nb - 2)) && e->a->shi <= (1ll << (nb - 2)) - 1) nb--;
      Z3_ast t = tbv(e->a); if (nb < 64) t = Z3_mk_extract(Z, nb - 1, 0, t);
      r = Z3_mk_fpa_to_fp_signed(Z, RNE, t, FP64); break; }
    case E_UTOF: r = Z3_mk_fpa_to_fp_unsigned(Z, RNE, tbv(e->a), FP64); break;
    case E_ITE: r = Z3_mk_ite(Z, tb(e->a), tfp(e->b), tfp(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(Z, tbv(e), FP64); break;
  }
  Z3_inc_ref(Z, r); e->zfp = r; return r;
}
// as a boolean (width-1 expressions)
static std::unordered_map<X, Z3_ast> g_bools;
static Z3_ast tb(X e) {
  auto it = g_bools.find(e); if (it != g_bools.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = e->val ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case E_EQ: r = e->a->w == 1 ? Z3_mk_iff(Z, tb(e->a), tb(e->b)) : Z3_mk_eq(Z, tbv(e->a), tbv(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(Z, tbv(e->a), tbv(e->b)); break;
    case E_ULE: r = Z3_mk_bvule(Z, tbv(e->a), tbv(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(Z, tbv(e->a), tbv(e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(Z, tbv(e->a), tbv(e->b)); break;
    case E_FEQ: r = Z3_mk_fpa_eq(Z, tfp(e->a), tfp(e->b)); break;
    case E_FLT: r = Z3_mk_fpa_lt(Z, tfp(e->a), tfp(e->b)); break;
    case E_FLE: r = Z3_mk_fpa_leq(Z, tfp(e->a), tfp(e->b)); break;
    case E_FUNO: r = Z3_mk_fpa_is_nan(Z, tfp(e->a)); break;
    case E_AND: { Z3_ast k[2] = { tb(e->a), tb(e->b) }; r = Z3_mk_and(Z, 2, k); break; }
    case E_OR: { Z3_ast k[2] = { tb(e->a), tb(e->b) }; r = Z3_mk_or(Z, 2, k); break; }
    case E_XOR: r = isc(e->b) && e->b->val == 1 ? Z3_mk_not(Z, tb(e->a)) : Z3_mk_xor(Z, tb(e->a), tb(e->b)); break;
    case E_ITE: r = Z3_mk_ite(Z, tb(e->a), tb(e->b), tb(e->c)); break;
    default: r = Z3_mk_eq(Z, tbv(e), Z3_mk_unsigned_int(Z, 1, bvs(1))); break;
  }
  Z3_inc_ref(Z, r); g_bools[e] = r; return r;
}
static Z3_ast tbv(X e) {
  if (e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = Z3_mk_unsigned_int64(Z, e->val, bvs(e->w)); break;
    case E_SYM: case E_UF: { char nm[24]; snprintf(nm, sizeof nm, "s%llu", (unsigned long long)e->val); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvs(e->w)); break; }
    case E_ADD: r = Z3_mk_bvadd(Z, tbv(e->a), tbv(e->b)); break;
    case E_SUB: r = Z3_mk_bvsub(Z, tbv(e->a), tbv(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(Z, tbv(e->a), tbv(e->b)); break;
    case E_UDIV: case E_UREM: {
      // divide in the narrowest width the ranges allow
      unsigned nb = e->w; while (nb > 1 && e->a->hi <= maskw(nb - 1) && e->b->hi <= maskw(nb - 1)) nb--;
      Z3_ast a = tbv(e->a), b = tbv(e->b);
      if (nb < e->w) { a = Z3_mk_extract(Z, nb - 1, 0, a); b = Z3_mk_extract(Z, nb - 1, 0, b); }
      r = e->op == E_UDIV ? Z3_mk_bvudiv(Z, a, b) : Z3_mk_bvurem(Z, a, b);
      if (nb < e->w) r = Z3_mk_zero_ext(Z, e->w - nb, r);
      break; }
    case E_SDIV: r = Z3_mk_bvsdiv(Z, tbv(e->a), tbv(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(Z, tbv(e->a), tbv(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(Z, tbv(e->a), tbv(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(Z, tbv(e->a), tbv(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(Z, tbv(e->a), tbv(e->b)); break;
    case E_AND: if (e->w == 1) goto boolean; r = Z3_mk_bvand(Z, tbv(e->a), tbv(e->b)); break;
    case E_OR: if (e->w == 1) goto boolean; r = Z3_mk_bvor(Z, tbv(e->a), tbv(e->b)); break;
    case E_XOR: if (e->w == 1) goto boolean; r = Z3_mk_bvxor(Z, tbv(e->a), tbv(e->b)); break;
    case E_ITE: if (e->w == 1) goto boolean; r = Z3_mk_ite(Z, tb(e->a), tbv(e->b), tbv(e->c)); break;
    case E_ZEXT: r = e->a->w == e->w ? tbv(e->a) : Z3_mk_zero_ext(Z, e->w - e->a->w, tbv(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, tbv(e->a)); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, e->val + e->w - 1, e->val, tbv(e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(Z, tbv(e->a), tbv(e->b)); break;
    case E_FTOI: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), tfp(e->a), e->w); break;
    case E_FTOU: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), tfp(e->a), e->w); break;
    case E_F2S: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, RNE, tfp(e->a), Z3_mk_fpa_sort_32(Z))); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FEQ: case E_FLT: case E_FLE: case E_FUNO:
    boolean: r = b2v(tb(e)); break;
    default: r = Z3_mk_fpa_to_ieee_bv(Z, tfp(e)); break;
  }
  Z3_inc_ref(Z, r); e->zbv = r; return r;
}

static void sym_domain(uint32_t s, std::vector<Z3_ast>& out) {
  SymInfo& i = g_syms[s];
  X e = i.expr; uint64_t m = maskw(i.w);
  int64_t smin = i.w >= 64 ? INT64_MIN : -(1ll << (i.w - 1)), smax = i.w >= 64 ? INT64_MAX : (1ll << (i.w - 1)) - 1;
  if (i.lo > 0) out.push_back(Z3_mk_bvuge(Z, tbv(e), Z3_mk_unsigned_int64(Z, i.lo, bvs(i.w))));
  if (i.hi < m) out.push_back(Z3_mk_bvule(Z, tbv(e), Z3_mk_unsigned_int64(Z, i.hi, bvs(i.w))));
  if (i.slo > smin && i.slo < 0) out.push_back(Z3_mk_bvsge(Z, tbv(e), Z3_mk_int64(Z, i.slo, bvs(i.w))));
  if (i.shi < smax && i.slo < 0) out.push_back(Z3_mk_bvsle(Z, tbv(e), Z3_mk_int64(Z, i.shi, bvs(i.w))));
}

struct CacheKey { std::vector<uint32_t> k; bool operator==(const CacheKey& o) const { return k == o.k; } };
struct CKH { size_t operator()(const CacheKey& c) const { size_t h = 1469598103934665603ull; for (auto x : c.k) { h ^= x; h *= 1099511628211ull; } return h; } };
struct CacheVal { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<CacheKey, CacheVal, CKH> g_cache;

// Finite-domain decisions: the truth table of a formula over one symbol with at most 256 values.
// Used for the feasibility of branches only; with g_force_smt set every query goes to Z3.
bool g_force_smt = false;
struct Tab { uint64_t w[4]; bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); } };
static std::unordered_map<X, Tab> g_tabs;
static inline bool small_sym(uint32_t s) { auto& i = g_syms[s]; return i.expr && i.expr->op == E_SYM && i.kind == 0 && (uint64_t)i.shi - (uint64_t)i.slo < 256; }
static const Tab& tab_of(X e, uint32_t s) {
  auto it = g_tabs.find(e); if (it != g_tabs.end()) return it->second;
  static Model m; m.v.assign(g_syms.size(), 0);
  Tab t; memset(&t, 0, sizeof t); auto& si = g_syms[s]; unsigned n = (unsigned)((uint64_t)si.shi - (uint64_t)si.slo) + 1;
  for (unsigned k = 0; k < n; k++) { m.v[s] = (uint64_t)(si.slo + (int64_t)k) & maskw(si.w); if (m.v[s] < si.lo || m.v[s] > si.hi) continue; x_eval_begin(m); if (x_eval_in(e)) t.w[k >> 6] |= 1ull << (k & 63); }
  return g_tabs.emplace(e, t).first->second;
}

// Sets of small symbols with at most 256 combinations: combination k of the set, and the truth table of a formula over it.
struct SetDom { std::vector<uint32_t> ss; std::vector<unsigned> n; unsigned prod; Tab valid; std::unordered_map<X, Tab> tabs; };
static SetDom* set_dom(const std::vector<uint32_t>& ss) {
  static std::map<std::vector<uint32_t>, SetDom*> pool;
  auto it = pool.find(ss); if (it != pool.end()) return it->second;
  SetDom* d = nullptr; uint64_t prod = 1; bool ok = !ss.empty() && ss.size() <= 4;
  for (uint32_t s : ss) { if (!ok || !small_sym(s)) { ok = false; break; } prod *= (uint64_t)g_syms[s].shi - (uint64_t)g_syms[s].slo + 1; if (prod > 256) { ok = false; break; } }
  if (ok) { d = new SetDom; d->ss = ss; d->prod = (unsigned)prod; memset(&d->valid, 0, sizeof d->valid); for (uint32_t s : ss) d->n.push_back((unsigned)((uint64_t)g_syms[s].shi - (uint64_t)g_syms[s].slo) + 1);
    for (unsigned k = 0; k < prod; k++) { unsigned r = k; bool in = true; for (size_t i = 0; i < ss.size(); i++) { auto& si = g_syms[ss[i]]; uint64_t v = (uint64_t)(si.slo + (int64_t)(r % d->n[i])) & maskw(si.w); if (v < si.lo || v > si.hi) in = false; r /= d->n[i]; } if (in) d->valid.w[k >> 6] |= 1ull << (k & 63); } }
  return pool[ss] = d;
}
static Model g_setm;
static void set_assign(SetDom* d, unsigned k) { if (g_setm.v.size() < g_syms.size()) g_setm.v.resize(g_syms.size(), 0); for (size_t i = 0; i < d->ss.size(); i++) { auto& si = g_syms[d->ss[i]]; g_setm.v[d->ss[i]] = (uint64_t)(si.slo + (int64_t)(k % d->n[i])) & maskw(si.w); k /= d->n[i]; } }
static const Tab& set_tab(SetDom* d, X e) {
  auto it = d->tabs.find(e); if (it != d->tabs.end()) return it->second;
  Tab t; memset(&t, 0, sizeof t);
  for (unsigned k = 0; k < d->prod; k++) if (d->valid.w[k >> 6] >> (k & 63) & 1) { set_assign(d, k); x_eval_begin(g_setm); if (x_eval_in(e)) t.w[k >> 6] |= 1ull << (k & 63); }
  return d->tabs.emplace(e, t).first->second;
}
static bool subset(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
// The only value e can take under pc, when e depends on few values of few symbols.
bool unique_value(const std::vector<X>& pc, X e, uint64_t& out) {
  SetDom* d = set_dom(x_syms(e)); if (!d) return false;
  Tab t = d->valid;
  for (X c : pc) { auto& es = x_syms(c); if (es.empty() || !subset(es, d->ss)) continue; const Tab& u = set_tab(d, c); for (int i = 0; i < 4; i++) t.w[i] &= u.w[i]; }
  int cnt = 0; for (int i = 0; i < 4; i++) cnt += __builtin_popcountll(t.w[i]);
  if (!cnt || cnt > 64) return false;
  bool first = true;
  for (unsigned k = 0; k < d->prod; k++) if (t.w[k >> 6] >> (k & 63) & 1) { set_assign(d, k); x_eval_begin(g_setm); uint64_t v = x_eval_in(e); if (first) out = v; else if (v != out) return false; first = false; }
  return true;
}
bool small_set(X e) { return set_dom(x_syms(e)) != nullptr; }
// f of the value of e, as a choice over the values of the symbols e depends on; false when those are too many
bool tabulate(X e, X e2, unsigned w, const std::function<uint64_t(uint64_t, uint64_t)>& f, Value& out) {
  std::vector<uint32_t> ss; auto &s1 = x_syms(e), &s2 = x_syms(e2); std::set_union(s1.begin(), s1.end(), s2.begin(), s2.end(), std::back_inserter(ss));
  SetDom* d = set_dom(ss); if (!d) return false;
  if (d->prod > 64 && d->ss.size() > 1) return false;
  std::map<uint64_t, std::vector<unsigned>> by;
  for (unsigned k = 0; k < d->prod; k++) if (d->valid.w[k >> 6] >> (k & 63) & 1) { set_assign(d, k); x_eval_begin(g_setm); uint64_t a = x_eval_in(e), b = x_eval_in(e2); by[f(a, b) & maskw(w)].push_back(k); }
  if (by.size() > 64) return false;
  uint64_t dflt = 0; size_t best = 0; for (auto& p : by) if (p.second.size() > best) { best = p.second.size(); dflt = p.first; }
  Value r(dflt);
  for (auto& p : by) if (p.first != dflt) { Value any(0);
    for (unsigned k : p.second) { Value all(1); unsigned q = k; for (size_t i = 0; i < d->ss.size(); i++) { auto& si = g_syms[d->ss[i]]; all = v_and(all, v_cmp(E_EQ, si.w, Value(si.expr, 0), Value((uint64_t)(si.slo + (int64_t)(q % d->n[i])) & maskw(si.w)))); q /= d->n[i]; } any = v_or(any, all); }
    r = v_ite(any, w, Value(p.first), r); }
  out = r; return true;
}
static int solve1(const std::vector<X>& pc, X q, const Model* hint, Model& out, unsigned ms, bool* slow);
int solve(const std::vector<X>& pc, X q, const Model* hint, Model& out) {
  if (!g_force_smt) return solve1(pc, q, hint, out, g_solver_timeout_ms, nullptr);
  bool slow = false; int r = solve1(pc, q, hint, out, g_solver_timeout_ms, &slow);
  if (slow) { g_force_smt = false; r = solve1(pc, q, hint, out, g_solver_timeout_ms, nullptr); g_force_smt = true; } // Z3 gave up quickly on a small finite domain: truth table
  return r;
}
static int solve1(const std::vector<X>& pc, X q, const Model* hint, Model& out, unsigned ms, bool* slow_finite) {
  if (isc(q)) { if (!q->val) return 0; if (hint) { out = *hint; return 1; } }
  if (!g_force_smt) {
    auto& qs = x_syms(q);
    if (qs.size() == 1 && small_sym(qs[0])) {
      uint32_t s = qs[0]; Tab t = tab_of(q, s); bool alone = true;
      for (X e : pc) { auto& es = x_syms(e);
        if (es.size() == 1) { if (es[0] != s) continue; const Tab& u = tab_of(e, s); for (int i = 0; i < 4; i++) t.w[i] &= u.w[i]; if (t.empty()) break; }
        else if (alone && std::binary_search(es.begin(), es.end(), s)) alone = false; }
      if (t.empty()) { g_ss.finite++; return 0; }
      if (alone && hint) {
        auto& si = g_syms[s]; out = *hint; if (out.v.size() < g_syms.size()) { size_t o = out.v.size(); out.v.resize(g_syms.size()); for (size_t i = o; i < g_syms.size(); i++) out.v[i] = g_syms[i].lo; }
        for (int i = 0; i < 4; i++) if (t.w[i]) { out.v[s] = (uint64_t)(si.slo + i * 64 + __builtin_ctzll(t.w[i])) & maskw(si.w); break; }
        g_ss.finite++; return 1;
      }
    }
  }
  zinit();
  // independence slicing
  std::vector<char> in(pc.size(), 0);
  std::vector<X> rel; rel.push_back(q);
  std::vector<char> symin(g_syms.size(), 0);
  std::vector<uint32_t> work;
  auto addsyms = [&](X e) { for (auto s : x_syms(e)) if (!symin[s]) { symin[s] = 1; work.push_back(s); } };
  addsyms(q);
  // index constraints by symbol
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
      for (auto s : x_syms(pc[i])) if (symin[s]) { in[i] = 1; rel.push_back(pc[i]); addsyms(pc[i]); changed = true; break; }
    }
  }
  CacheKey key; for (X e : rel) key.k.push_back(e->id);
  std::sort(key.k.begin(), key.k.end()); key.k.erase(std::unique(key.k.begin(), key.k.end()), key.k.end());
  auto fill = [&](const std::vector<std::pair<uint32_t, uint64_t>>& m) {
    if (hint) out = *hint; if (out.v.size() < g_syms.size()) { size_t o = out.v.size(); out.v.resize(g_syms.size()); for (size_t i = o; i < g_syms.size(); i++) out.v[i] = g_syms[i].lo; }
    for (auto& p : m) out.v[p.first] = p.second;
  };
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { g_ss.cacheHits++; if (it->second.r == 1) fill(it->second.m); return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  if (!g_force_smt) {
    std::vector<uint32_t> ws(work.begin(), work.end()); std::sort(ws.begin(), ws.end()); ws.erase(std::unique(ws.begin(), ws.end()), ws.end());
    bool ok = true; for (auto x : ws) if (!small_sym(x)) { ok = false; break; }
    if (SetDom* d = ok ? set_dom(ws) : nullptr) {
      Tab t = d->valid; for (X e : rel) { const Tab& u = set_tab(d, e); for (int i = 0; i < 4; i++) t.w[i] &= u.w[i]; if (t.empty()) break; }
      CacheVal cv; cv.r = 0;
      for (int i = 0; i < 4 && !cv.r; i++) if (t.w[i]) { cv.r = 1; set_assign(d, i * 64 + __builtin_ctzll(t.w[i])); for (auto x : ws) cv.m.push_back({ x, g_setm.v[x] }); }
      g_ss.finite++; g_cache[key] = cv; if (cv.r == 1) fill(cv.m); return cv.r;
    }
    if (ok) {
      std::vector<std::vector<uint64_t>> dom(ws.size()); std::vector<X> multi; uint64_t prod = 1;
      std::vector<Tab> ts(ws.size()); for (auto& t : ts) memset(&t, 0xff, sizeof t);
      for (X e : rel) { auto& es = x_syms(e); if (es.size() != 1) { multi.push_back(e); continue; }
        size_t k = std::lower_bound(ws.begin(), ws.end(), es[0]) - ws.begin(); const Tab& u = tab_of(e, es[0]); for (int i = 0; i < 4; i++) ts[k].w[i] &= u.w[i]; }
      for (size_t k = 0; k < ws.size() && prod; k++) { auto& si = g_syms[ws[k]]; unsigned n = (unsigned)((uint64_t)si.shi - (uint64_t)si.slo) + 1;
        for (unsigned v = 0; v < n; v++) if (ts[k].w[v >> 6] >> (v & 63) & 1) { uint64_t u = (uint64_t)(si.slo + (int64_t)v) & maskw(si.w); if (u >= si.lo && u <= si.hi) dom[k].push_back(u); }
        prod = prod > 4096 && !dom[k].empty() ? prod : prod * dom[k].size(); }
      if (prod <= 4096) {
        CacheVal cv; cv.r = 0;
        if (prod) {
          Model m; if (hint) m = *hint; { size_t o = m.v.size(); m.v.resize(g_syms.size()); for (size_t i = o; i < g_syms.size(); i++) m.v[i] = g_syms[i].lo; }
          std::vector<size_t> ix(ws.size(), 0);
          for (uint64_t t = 0; t < prod; t++) {
            uint64_t r = t; for (size_t k = 0; k < ws.size(); k++) { m.v[ws[k]] = dom[k][r % dom[k].size()]; r /= dom[k].size(); }
            x_eval_begin(m); bool good = true; for (X e : multi) if (!x_eval_in(e)) { good = false; break; }
            if (good) { cv.r = 1; for (auto x : ws) cv.m.push_back({ x, m.v[x] }); break; }
          }
        }
        g_ss.finite++; g_cache[key] = cv; if (cv.r == 1) fill(cv.m); return cv.r;
      }
    }
  }
  bool fp = false, bv = true; (void)bv; bool hasuf = false;
  for (auto x : work) { X e = g_syms[x].expr; if (e && e->op == E_UF && e->aux < 50) hasuf = true; }
  {
    std::unordered_set<X> seen; std::vector<X> st(rel.begin(), rel.end());
    while (!st.empty() && !fp) { X e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op >= E_FADD && e->op <= E_FUNO) fp = true; for (X c : { e->a, e->b, e->c }) if (c) st.push_back(c); }
  }
  // a satisfying assignment is often found by trying a few values; refutation is left to the solver
  if (fp || hasuf) {
    Model base; if (hint) base = *hint; { size_t o = base.v.size(); base.v.resize(g_syms.size()); for (size_t i = o; i < g_syms.size(); i++) base.v[i] = g_syms[i].lo; }
    std::vector<uint32_t> ws(work.begin(), work.end()); std::sort(ws.begin(), ws.end()); ws.erase(std::unique(ws.begin(), ws.end()), ws.end());
    static uint64_t rs = 0x9E3779B97F4A7C15ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    for (int t = 0; t < 160; t++) {
      Model m = base;
      for (auto x : ws) { auto& si = g_syms[x]; X e = si.expr; if (e && e->op == E_UF && e->aux < 50) continue;
        uint64_t k = rnd() % 8; if (k < 3 && t > 0) continue;
        uint64_t mask = maskw(si.w);
        bool dbl = (si.kind & 1) && si.w == 64;
        if (dbl) { double v; switch (rnd() % 5) { case 0: v = (double)(int64_t)(rnd() % 13) - 3; break; case 1: v = ((double)(int64_t)(rnd() % 41) - 20) / 2; break; case 2: v = (double)(rnd() % 100000); break; case 3: v = (double)(rnd() % 1000003) / 997.0; break; default: v = ldexp((double)(rnd() >> 12), (int)(rnd() % 60) - 70); } m.v[x] = asu(v); }
        else { int64_t lo = si.slo, hi = si.shi; uint64_t span = (uint64_t)hi - (uint64_t)lo + 1; 
          if (span && span > (1ull << 40)) { double v = (double)(int64_t)(rnd() % 64) / ((rnd() & 1) ? 1 : 2); uint64_t b = asu(v); m.v[x] = ((int64_t)b >= lo && (int64_t)b <= hi) ? b : (uint64_t)lo + rnd() % span; }
          else m.v[x] = ((uint64_t)(k == 3 ? lo : k == 4 ? hi : (int64_t)((uint64_t)lo + (span ? rnd() % span : rnd())))) & mask; } }
      for (auto x : ws) { X e = g_syms[x].expr; if (!(e && e->op == E_UF && e->aux < 50)) continue; x_eval_begin(m); m.v[x] = host_ufx(e); }
      x_eval_begin(m); bool ok = true; for (X e : rel) if (!x_eval_in(e)) { ok = false; break; }
      for (size_t i = 0; ok && i < ws.size(); i++) { X a = g_syms[ws[i]].expr; if (!a || a->op != E_UF || a->aux < 50) continue; // equal arguments, equal values
        for (size_t j = i + 1; ok && j < ws.size(); j++) { X b = g_syms[ws[j]].expr; if (!b || b->op != E_UF || b->aux != a->aux) continue;
          bool same = true; X ka[3] = { a->a, a->b, a->c }, kb[3] = { b->a, b->b, b->c }; for (int k = 0; same && k < 3; k++) same = x_eval_in(ka[k]) == x_eval_in(kb[k]);
          if (same && x_eval_in(a) != x_eval_in(b)) ok = false; } }
      if (ok) { CacheVal cv; cv.r = 1; for (auto x : ws) cv.m.push_back({ x, m.v[x] }); g_cache[key] = cv; g_ss.sampled++; g_ss.sat++; g_ss.queries++; fill(cv.m); return 1; }
    }
  }
  Z3_solver s;
  static bool simple = getenv("SYMX_SIMPLE") != nullptr;
  if (simple) s = Z3_mk_simple_solver(Z);
  else s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fp ? "QF_FPBV" : "QF_BV"));
  Z3_solver_inc_ref(Z, s);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  bool tiny = false;
  if (slow_finite) { double prod = 1; tiny = true; for (auto x : work) { if (!small_sym(x)) { tiny = false; break; } prod *= (double)((uint64_t)g_syms[x].shi - (uint64_t)g_syms[x].slo) + 1; } if (prod > 4096) tiny = false; }
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), tiny && ms > 300 ? 300 : ms);
  Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
  for (X e : rel) Z3_solver_assert(Z, s, tb(e));
  std::vector<Z3_ast> dom; for (auto x : work) sym_domain(x, dom);
  for (auto a : dom) Z3_solver_assert(Z, s, a);
  // functional consistency of uninterpreted values
  for (size_t i = 0; i < work.size(); i++) { X a = g_syms[work[i]].expr; if (a->op != E_UF) continue;
    for (size_t j = i + 1; j < work.size(); j++) { X b = g_syms[work[j]].expr; if (b->op != E_UF || b->aux != a->aux) continue;
      Z3_ast k[3] = { Z3_mk_eq(Z, tbv(a->a), tbv(b->a)), Z3_mk_eq(Z, tbv(a->b), tbv(b->b)), Z3_mk_eq(Z, tbv(a->c), tbv(b->c)) };
      Z3_solver_assert(Z, s, Z3_mk_implies(Z, Z3_mk_and(Z, 3, k), Z3_mk_eq(Z, tbv(a), tbv(b)))); } }
  Z3_lbool r = Z3_solver_check(Z, s);
  if (r == Z3_L_UNDEF && tiny) { *slow_finite = true; Z3_solver_dec_ref(Z, s); g_ss.queries++; double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.secs += dt; return -1; }
  CacheVal cv; cv.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
    for (auto x : work) { Z3_ast v; uint64_t u = g_syms[x].lo; if (Z3_model_eval(Z, m, tbv(g_syms[x].expr), true, &v)) Z3_get_numeral_uint64(Z, v, &u); cv.m.push_back({ x, u }); }
    Z3_model_dec_ref(Z, m);
    fill(cv.m);
  }
  Z3_solver_dec_ref(Z, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  static double slow = getenv("SYMX_SLOW") ? atof(getenv("SYMX_SLOW")) : 0;
  if (slow > 0 && dt > slow) { fprintf(stderr, "slow query %.2fs r=%d n=%zu: %s\n", dt, cv.r, rel.size(), x_str(q, 5).c_str()); }
  g_ss.queries++; g_ss.secs += dt; if (dt > g_ss.maxsecs) g_ss.maxsecs = dt;
  if (cv.r == 1) g_ss.sat++; else if (cv.r == 0) g_ss.unsat++; else g_ss.unknown++;
  g_cache[key] = cv;
  return cv.r;
}

// The disjunction of the path conditions, factored by common prefix, negated, over the domains of the symbols.
int solve_cover(const std::vector<std::vector<X>>& leaves, const std::vector<X>& base, unsigned ms) {
  struct Node { std::vector<std::pair<X, uint32_t>> kids; bool leaf = false; };
  std::vector<Node> t(1); size_t total = 0; bool fp = false; std::unordered_set<X> seen; std::vector<char> symin(g_syms.size(), 0); std::vector<uint32_t> work;
  auto look = [&](X c) { for (auto s : x_syms(c)) if (!symin[s]) { symin[s] = 1; work.push_back(s); }
    std::vector<X> st{ c }; while (!st.empty()) { X e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op >= E_FADD && e->op <= E_FUNO) fp = true; for (X k : { e->a, e->b, e->c }) if (k) st.push_back(k); } };
  for (X b : base) look(b);
  for (auto& l : leaves) { uint32_t n = 0;
    for (X c : l) { if (t[n].leaf) break; if (isc(c) && c->val) continue; uint32_t k = 0; for (auto& p : t[n].kids) if (p.first == c) { k = p.second; break; }
      if (!k) { k = (uint32_t)t.size(); t[n].kids.push_back({ c, k }); t.emplace_back(); look(c); if (++total > 300000) return -1; } n = k; }
    t[n].leaf = true; }
  if (t[0].leaf) return 1;
  zinit(); auto t0 = std::chrono::steady_clock::now();
  std::vector<Z3_ast> f(t.size(), nullptr); // children have larger numbers than their parents
  for (size_t i = t.size(); i-- > 0;) { Z3_ast r;
    if (t[i].leaf) r = Z3_mk_true(Z);
    else { std::vector<Z3_ast> o; for (auto& p : t[i].kids) { Z3_ast a[2] = { tb(p.first), f[p.second] }; Z3_ast q = t[p.second].leaf ? a[0] : Z3_mk_and(Z, 2, a); Z3_inc_ref(Z, q); o.push_back(q); } r = o.size() == 1 ? o[0] : Z3_mk_or(Z, (unsigned)o.size(), o.data()); }
    Z3_inc_ref(Z, r); f[i] = r; }
  Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(Z, s);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
  for (X b : base) Z3_solver_assert(Z, s, tb(b));
  std::vector<Z3_ast> dom; for (auto x : work) sym_domain(x, dom); for (auto a : dom) Z3_solver_assert(Z, s, a);
  for (size_t i = 0; i < work.size(); i++) { X a = g_syms[work[i]].expr; if (a->op != E_UF) continue;
    for (size_t j = i + 1; j < work.size(); j++) { X b = g_syms[work[j]].expr; if (b->op != E_UF || b->aux != a->aux) continue;
      Z3_ast k[3] = { Z3_mk_eq(Z, tbv(a->a), tbv(b->a)), Z3_mk_eq(Z, tbv(a->b), tbv(b->b)), Z3_mk_eq(Z, tbv(a->c), tbv(b->c)) };
      Z3_solver_assert(Z, s, Z3_mk_implies(Z, Z3_mk_and(Z, 3, k), Z3_mk_eq(Z, tbv(a), tbv(b)))); } }
  Z3_solver_assert(Z, s, Z3_mk_not(Z, f[0]));
  Z3_lbool r = Z3_solver_check(Z, s); Z3_solver_dec_ref(Z, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.queries++; g_ss.secs += dt; if (dt > g_ss.maxsecs) g_ss.maxsecs = dt;
  if (r == Z3_L_TRUE) g_ss.sat++; else if (r == Z3_L_FALSE) g_ss.unsat++; else g_ss.unknown++;
  return r == Z3_L_FALSE ? 1 : r == Z3_L_TRUE ? 0 : -1;
}
