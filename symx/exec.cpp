// symx: symbolic executor over the lowered program.
#include "exec.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <chrono>
#include <list>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <signal.h>

static Program P;
static uint32_t g_nglob;
static bool g_ub = true;

// ------------------------------------------------------------------ session
struct Hole { char type; int id; double lo, hi; std::string extra; X sym = nullptr; Value val; };
struct Blob { std::string name; std::vector<std::pair<int, int>> b; }; // (0,byte) or (1,hole id)
struct Session { std::string id; std::map<std::string, long> opt; std::vector<Hole> holes; std::map<std::string, Blob> blobs; std::vector<std::string> args; };
static Session* g_s;

struct Cand { std::string kind, where, detail; std::string model; };
struct Stats { uint64_t paths = 0, done = 0, errors = 0, unknown = 0, killedAssume = 0, limit = 0, unsupported = 0, forks = 0, steps = 0, compares = 0; std::vector<std::string> notes; } g_st;
static std::vector<Cand> g_cands; static std::map<std::string, int> g_candSeen;
static std::list<State*> g_work;
static std::map<std::string, long> g_reach;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

struct Kill { int why; };   // 0 normal end, 1 infeasible, 2 error, 3 limit, 4 unsupported
struct Refork {};

static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }

static std::string where(State& S) {
  std::string r; int n = 0;
  for (int i = S.fr.size() - 1; i >= 0 && n < 4; i--) {
    Func* f = S.fr[i].f; uint32_t p = S.fr[i].pc ? S.fr[i].pc - 1 : 0; if (f->file.empty()) continue;
    std::string b = f->file.substr(f->file.rfind('/') + 1);
    if (n) r += " < "; r += f->name + "@" + b + ":" + std::to_string(p < f->line.size() ? f->line[p] : 0); n++;
  }
  return r;
}
static std::string model_json(const Model& m) {
  std::string r = "{";
  bool first = true;
  x_eval_begin(m);
  for (auto& h : g_s->holes) {
    uint64_t v = x_eval_in(ex(h.val, h.type == 'b' ? 8 : 64));
    char buf[64]; if (h.type == 'b') snprintf(buf, sizeof buf, "%s\"%d\": %d", first ? "" : ", ", h.id, (int)v); else snprintf(buf, sizeof buf, "%s\"%d\": \"%016llx\"", first ? "" : ", ", h.id, (unsigned long long)v);
    r += buf; first = false;
  }
  // random draws and clock
  std::string rn, tm; 
  for (auto& si : g_syms) { X e = si.expr; if (!e || e->op != E_UF) continue;
    if (e->aux == 50) { char b[80]; snprintf(b, sizeof b, "%s[%llu,%llu,%llu]", rn.empty() ? "" : ",", (unsigned long long)x_eval_in(e->a), (unsigned long long)x_eval_in(e->b), (unsigned long long)x_eval_in(e)); rn += b; }
    if (e->aux == 51) { char b[80]; snprintf(b, sizeof b, "%s[%llu,%llu]", tm.empty() ? "" : ",", (unsigned long long)x_eval_in(e->a), (unsigned long long)x_eval_in(e)); tm += b; } }
  if (!rn.empty()) r += std::string(first ? "" : ", ") + "\"rand\": [" + rn + "]", first = false;
  if (!tm.empty()) r += std::string(first ? "" : ", ") + "\"time\": [" + tm + "]", first = false;
  for (auto& si : g_syms) if (si.name == "int_at" || si.name == "int_d") { char b[64]; snprintf(b, sizeof b, "%s\"%s\": %llu", first ? "" : ", ", si.name.c_str(), (unsigned long long)x_eval_in(si.expr)); r += b; first = false; }
  return r + "}";
}
// Give the uninterpreted library functions their real values where the path condition allows it.
static void host_model(State& S) {
  Model m = *S.model; bool any = false; m.v.resize(g_syms.size());
  for (size_t x = 0; x < g_syms.size(); x++) { X e = g_syms[x].expr; if (!(e && e->op == E_UF && e->aux < 50)) continue; any = true; x_eval_begin(m); m.v[x] = host_ufx(e); }
  if (!any) return;
  x_eval_begin(m); for (X c : S.pc) if (!(x_eval_in(c) & 1)) return;
  S.model = std::make_shared<Model>(m);
}
static void report(State& S, const std::string& kind, const std::string& detail, const Model* m = nullptr) {
  std::string w = where(S);
  std::string key = kind + "|" + w.substr(0, w.find(" <"));
  int& n = g_candSeen[key];
  long mx = g_s->opt.count("maxcand") ? g_s->opt["maxcand"] : 4;
  n++;
  if (n > mx) return;
  static bool dbg = getenv("SYMX_DBG") != nullptr;
  if (dbg) { const Model& M = m ? *m : *S.model; fprintf(stderr, "CAND %s\n", detail.c_str()); for (X c : S.pc) fprintf(stderr, "  pc %d %s\n", (int)x_eval(c, M), x_str(c, 9).c_str()); for (X c : S.known) fprintf(stderr, "  kn %d %s\n", (int)x_eval(c, M), x_str(c, 9).c_str()); }
  g_cands.push_back({ kind, w, detail, model_json(m ? *m : *S.model) });
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& detail) { report(S, kind, detail); g_st.errors++; throw Kill{2}; }
[[noreturn]] static void unsupported(State& S, const std::string& what) { if (g_st.notes.size() < 20) g_st.notes.push_back("unsupported: " + what + " at " + where(S)); throw Kill{4}; }

// ------------------------------------------------------------------ path condition
static void ensure_model(State& S) {
  if (S.model->v.size() < g_syms.size()) {
    auto m = std::make_shared<Model>(*S.model); size_t o = m->v.size(); m->v.resize(g_syms.size());
    for (size_t i = o; i < g_syms.size(); i++) m->v[i] = g_syms[i].lo;
    S.model = m;
  }
}
static uint64_t meval(State& S, Value v) { if (!v.e) return v.v; ensure_model(S); return x_eval(v.e, *S.model); }
static bool in_pc(State& S, X c) { for (size_t i = S.pc.size(); i-- > 0;) if (S.pc[i] == c) return true; for (size_t i = S.known.size(); i-- > 0;) if (S.known[i] == c) return true; return false; }

// Is c satisfiable here?  1/0/-1
static int feasible(State& S, X c, Model& m) {
  ensure_model(S);
  if (x_eval(c, *S.model)) { m = *S.model; g_ss.modelHits++; return 1; }
  return solve(S.pc, c, S.model.get(), m);
}
static State* cloneAt(State& S) { State* T = new State(S); T->fr.back().pc--; T->forks++; g_st.forks++; return T; }

// Branch on c; forks a copy that re-executes the current instruction with the opposite decision.
// Must be called before the instruction has any effect.
static bool decide(State& S, Value c) {
  if (!c.e) return c.v & 1;
  Value nc = v_not(c);
  if (in_pc(S, c.e)) return true;
  if (nc.e && in_pc(S, nc.e)) return false;
  bool b = meval(S, c) & 1;
  X other = b ? ex(nc, 1) : c.e, self = b ? c.e : ex(nc, 1);
  Model m; int r = solve(S.pc, other, S.model.get(), m);
  if (r == -1) g_st.unknown++;
  if (r != 0) {
    State* T = cloneAt(S); T->pc.push_back(other);
    if (r == 1) { T->model = std::make_shared<Model>(m); g_work.push_back(T); }
    else { // unknown: no model, drop the copy and say so
      delete T; if (g_st.notes.size() < 20) g_st.notes.push_back("solver unknown: " + x_str(other, 4)); }
    S.pc.push_back(self);
  } else { S.known.push_back(self); }
  return b;
}
static void assume(State& S, Value c) {
  if (!c.e) { if (!(c.v & 1)) throw Kill{1}; return; }
  if (in_pc(S, c.e)) return;
  Model m; int r = feasible(S, c.e, m);
  if (r == 0) throw Kill{1};
  if (r == -1) { g_st.unknown++; throw Kill{4}; }
  S.model = std::make_shared<Model>(m); S.pc.push_back(c.e);
}
static uint64_t concretize(State& S, Value v, unsigned w) {
  if (!v.e) return v.v;
  for (;;) { uint64_t k = meval(S, v); if (decide(S, v_cmp(E_EQ, w, v, Value(k)))) return k; }
}

// ------------------------------------------------------------------ memory
static Obj* wobj(State& S, uint32_t id) { // writable
  Obj* o = S.objs[id];
  if (o->ref == 1) return o;
  Obj* n = new Obj; n->size = o->size; n->cap = o->cap; n->ssize = o->ssize; n->freed = o->freed; n->ro = o->ro; n->heap = o->heap; n->stack = o->stack; n->watched = o->watched; n->world = o->world; n->fill = o->fill;
  if (o->bytes) { n->bytes = (uint8_t*)malloc(o->size + 8); memcpy(n->bytes, o->bytes, o->size); }
  if (o->cells) { n->cells = (Cell*)malloc(sizeof(Cell) * (o->size + 1)); memcpy(n->cells, o->cells, sizeof(Cell) * o->size); }
  if (o->log) n->log = new std::vector<LogW>(*o->log);
  o->ref--; S.objs[id] = n; return n;
}
static bool g_uninit = false; // session option: memory that has not been written has other contents in the second run
static uint32_t newobj(State& S, uint64_t size, uint8_t fill, bool reuse) {
  if (S.world == 1 && g_uninit) fill = 0;
  Obj* o = new Obj; o->size = size; o->fill = fill; o->bytes = (uint8_t*)malloc(size + 8); memset(o->bytes, fill, size);
  if (reuse && !S.freeIds.empty()) { uint32_t id = S.freeIds.back(); S.freeIds.pop_back(); S.objs[id] = o; return id; }
  S.objs.push_back(o); return S.objs.size() - 1;
}
static void need_cells(Obj* o) { if (!o->cells) { o->cells = (Cell*)calloc(o->size + 1, sizeof(Cell)); } }

static void store_conc(Obj* o, uint64_t off, unsigned n, unsigned w, Value v) {
  if (!v.e) { if (o->cells) memset(o->cells + off, 0, n * sizeof(Cell)); memcpy(o->bytes + off, &v.v, n); }
  else { need_cells(o); for (unsigned i = 0; i < n; i++) { o->cells[off + i].e = v.e; o->cells[off + i].idx = i; } }
}
static Value load_conc(State& S, Obj* o, uint64_t off, unsigned n, unsigned w) {
  if (o->cells) {
    const Cell* c = o->cells + off; bool any = false;
    for (unsigned i = 0; i < n; i++) if (c[i].e) { any = true; break; }
    if (any) {
      bool whole = c[0].e && c[0].idx == 0 && c[0].e->w <= n * 8 && (unsigned)(c[0].e->w + 7) / 8 == n;
      for (unsigned i = 1; whole && i < n; i++) if (c[i].e != c[0].e || c[i].idx != i) whole = false;
      if (whole) { Value v(c[0].e, 0); if (w < c[0].e->w) v = v_extract(v, c[0].e->w, 0, w); else if (w > c[0].e->w) v = v_zext(v, c[0].e->w, w); return v; }
      Value r; unsigned rw = 0;
      for (unsigned i = 0; i < n; i++) {
        Value b = c[i].e ? v_extract(Value(c[i].e, 0), c[i].e->w, c[i].idx * 8, std::min<unsigned>(8, c[i].e->w - c[i].idx * 8)) : Value((uint64_t)o->bytes[off + i]);
        unsigned bw = c[i].e ? std::min<unsigned>(8, c[i].e->w - c[i].idx * 8) : 8;
        if (bw < 8) b = v_zext(b, bw, 8);
        if (i == 0) r = b; else r = v_concat(b, 8, r, rw);
        rw += 8;
      }
      if (w < rw) r = v_extract(r, rw, 0, w);
      return r;
    }
  }
  uint64_t v = 0; memcpy(&v, o->bytes + off, n); return Value(v & maskw(w));
}
static Value load_log(State& S, Obj* o, Value off, unsigned n, unsigned w);
// Decide the symbolic indexes of the writes to an object one by one and carry the writes out.
static void flatten(State& S, uint32_t id, const char* what) {
  Obj* o = S.objs[id]; if (!o->log) return;
  std::vector<LogW> log = *o->log; std::vector<uint64_t> at;
  for (auto& l : log) { if (l.off.e && !small_set(l.off.e)) unsupported(S, what); at.push_back(concretize(S, l.off, 64)); }
  o = wobj(S, id); delete o->log; o->log = nullptr;
  for (size_t i = 0; i < log.size(); i++) store_conc(o, at[i], log[i].n, log[i].n * 8, log[i].val);
}
static Value load_at(State& S, Obj* o, Value off, unsigned n, unsigned w) {
  if (o->log) return load_log(S, o, off, n, w);
  return load_conc(S, o, off.v, n, w);
}
static Value load_log(State& S, Obj* o, Value off, unsigned n, unsigned w) {
  // newest first
  std::vector<std::pair<Value, Value>> chain; Value base; bool haveBase = false;
  for (size_t i = o->log->size(); i-- > 0;) {
    LogW& l = (*o->log)[i];
    if (l.n != n) { // mixed sizes: give up unless provably disjoint
      if (!l.off.e && !off.e && (l.off.v + l.n <= off.v || off.v + n <= l.off.v)) continue;
      if (off.e && !small_set(off.e)) unsupported(S, "mixed-size access to symbolically indexed object");
      uint64_t k = concretize(S, off, 64); uint32_t id = 0; while (id < S.objs.size() && S.objs[id] != o) id++;
      flatten(S, id, "mixed-size access to symbolically indexed object"); return load_conc(S, S.objs[id], k, n, w);
    }
    Value eq = v_cmp(E_EQ, 64, l.off, off);
    if (!eq.e) { if (eq.v) { base = l.val; haveBase = true; break; } continue; }
    if (in_pc(S, eq.e)) { base = l.val; haveBase = true; break; }
    Value ne = v_not(eq); if (ne.e && in_pc(S, ne.e)) continue;
    chain.push_back({ eq, l.val });
  }
  if (!haveBase) {
    if (!off.e) base = load_conc(S, o, off.v, n, w);
    else {
      bool uni = true; uint64_t pat = 0; memcpy(&pat, o->bytes, std::min<uint64_t>(n, o->size));
      if (o->cells) uni = false;
      for (uint64_t i = 0; uni && i + n <= o->size; i += n) if (memcmp(o->bytes + i, &pat, n)) uni = false;
      if (!uni) { if (!small_set(off.e)) unsupported(S, "symbolic index into large non-uniform object"); uint64_t k = concretize(S, off, 64); return load_log(S, o, Value(k), n, w); }
      base = Value(pat & maskw(w));
    }
  }
  for (size_t i = chain.size(); i-- > 0;) base = v_ite(chain[i].first, w, chain[i].second, base);
  return base;
}

struct Loc { uint32_t id; Value off; };
// Resolve an address to an object and an in-bounds offset.
static Loc resolve(State& S, Value a, uint64_t n, bool write) {
  if (a.e && (a.e->lo >> OBJ_SHIFT) != (a.e->hi >> OBJ_SHIFT)) {
    // same region for every value on this path?
    uint64_t v = meval(S, a); uint64_t reg = v >> OBJ_SHIFT << OBJ_SHIFT;
    Value in = v_cmp(E_EQ, 64 - OBJ_SHIFT, v_extract(a, 64, OBJ_SHIFT, 64 - OBJ_SHIFT), Value(reg >> OBJ_SHIFT));
    decide(S, in); // true under the model
  }
  uint64_t av = a.e ? meval(S, a) : a.v;
  uint32_t id = addr_obj(av);
  if ((av >> OBJ_SHIFT) < 16) fail(S, "memory", av < 4096 ? "null pointer access" : "wild pointer access");
  if (av >= FN_BASE || id >= S.objs.size() || !S.objs[id]) fail(S, "memory", "wild or dangling pointer access");
  Obj* o = S.objs[id];
  if (o->freed) fail(S, "memory", "access to freed memory");
  if (write && o->ro) fail(S, "memory", "write to constant");
  Value off = v_bin(E_SUB, 64, a, Value(obj_addr(id)));
  if (!off.e && !o->ssize) {
    if (off.v + n > o->size || off.v > o->size) fail(S, "memory", "out-of-bounds access");
    return { id, off };
  }
  // in bounds?
  Value lim = o->ssize ? Value(o->ssize, 0) : Value(o->size);
  Value ok = v_and(v_cmp(E_ULE, 64, Value(n), lim), v_cmp(E_ULE, 64, off, v_bin(E_SUB, 64, lim, Value(n))));
  if (ok.e || !ok.v) { if (!decide(S, ok)) fail(S, "memory", "out-of-bounds access"); }
  return { id, off };
}
static const uint64_t MAXCAND = 600;
static void cand_range(Value off, uint64_t size, uint64_t n, uint64_t& lo, uint64_t& hi, uint64_t& step) {
  lo = off.e->lo; hi = std::min<uint64_t>(off.e->hi, size - n); step = 1ull << std::min<unsigned>(off.e->tz, 12);
  lo = (lo + step - 1) / step * step;
}
static Value mem_load(State& S, Value a, unsigned n, unsigned w) {
  Loc l = resolve(S, a, n, false); Obj* o = S.objs[l.id];
  if (o->log) return load_log(S, o, l.off, n, w);
  if (!l.off.e) return load_conc(S, o, l.off.v, n, w);
  uint64_t one; if (unique_value(S.pc, l.off.e, one) && one + n <= o->size) return load_conc(S, o, one, n, w);
  uint64_t lo, hi, step; cand_range(l.off, o->size, n, lo, hi, step);
  if (hi < lo) throw Kill{1};
  if ((hi - lo) / step > MAXCAND) {
    if (!o->cells) return load_log(S, [&] { Obj* q = wobj(S, l.id); q->log = new std::vector<LogW>(); return q; }(), l.off, n, w);
    uint64_t k = concretize(S, l.off, 64); return load_conc(S, o, k, n, w);
  }
  // balanced choice over candidates; merge equal neighbours
  std::vector<std::pair<uint64_t, Value>> c; // (first offset, value)
  for (uint64_t k = lo; k <= hi; k += step) { Value v = load_conc(S, o, k, n, w); if (!c.empty() && c.back().second.e == v.e && (v.e || c.back().second.v == v.v)) continue; c.push_back({ k, v }); }
  std::function<Value(size_t, size_t)> build = [&](size_t i, size_t j) -> Value { if (j - i == 1) return c[i].second; size_t m = (i + j) / 2; return v_ite(v_cmp(E_ULT, 64, l.off, Value(c[m].first)), w, build(i, m), build(m, j)); };
  return build(0, c.size());
}
static void mem_store(State& S, Value a, unsigned n, unsigned w, Value v) {
  Loc l = resolve(S, a, n, true); Obj* o = S.objs[l.id];
  if (v.e && w < n * 8) v = v_zext(v, w, n * 8);
  if (!l.off.e && !o->log) { store_conc(wobj(S, l.id), l.off.v, n, w, v); return; }
  if (!o->log) {
    uint64_t lo, hi, step; cand_range(l.off, o->size, n, lo, hi, step);
    if (hi < lo) throw Kill{1};
    if ((hi - lo) / step <= MAXCAND) {
      o = wobj(S, l.id);
      for (uint64_t k = lo; k <= hi; k += step) { Value old = load_conc(S, o, k, n, n * 8); store_conc(o, k, n, n * 8, v_ite(v_cmp(E_EQ, 64, l.off, Value(k)), n * 8, v, old)); }
      return;
    }
    if (o->cells) { uint64_t k = concretize(S, l.off, 64); store_conc(wobj(S, l.id), k, n, w, v); return; }
  }
  o = wobj(S, l.id); if (!o->log) o->log = new std::vector<LogW>();
  o->log->push_back({ l.off, v, (uint8_t)n });
}
static std::string rdstr(State& S, uint64_t a) { // concrete C string
  std::string r; for (int i = 0; i < 100000; i++) { Value b = mem_load(S, Value(a + i), 1, 8); uint64_t c = concretize(S, b, 8); if (!c) break; r += (char)c; } return r;
}

// ------------------------------------------------------------------ calls
static inline Value opnd(State& S, const Frame& f, Opnd o) { return o >= 0 ? S.R[f.base + o] : Value(f.f->consts[~o]); }
static void push_frame(State& S, Func* f, const std::vector<Value>& args, int retdst, const CallInfo* ci) {
  if (S.fr.size() > 8000) fail(S, "memory", "call stack too deep");
  if (!f->lowered) unsupported(S, "call to " + f->name);
  Frame n; n.f = f; n.pc = 0; n.base = S.R.size(); n.retdst = retdst; n.call = ci; n.uid = S.uidNext++;
  S.R.resize(n.base + f->nregs);
  for (uint32_t i = 0; i < f->nargs && i < args.size(); i++) S.R[n.base + i] = args[i];
  for (uint32_t i = f->nargs; i < args.size(); i++) n.va.push_back(args[i]);
  S.fr.push_back(std::move(n));
}
static void pop_frame(State& S) {
  Frame& f = S.fr.back();
  for (uint32_t id : f.allocas) { Obj* o = S.objs[id]; if (o && --o->ref == 0) delete o; S.objs[id] = nullptr; S.freeIds.push_back(id); }
  S.R.resize(f.base); S.fr.pop_back();
}
static void do_return(State& S, const std::vector<Value>& rv) {
  int dst = S.fr.back().retdst; const CallInfo* ci = S.fr.back().call; bool h = S.fr.back().handler;
  pop_frame(S);
  if (S.fr.empty()) throw Kill{0};
  if (h) { S.inHandler = false; return; }
  if (dst >= 0 && ci && ci->nret) for (size_t k = 0; k < rv.size() && k < (size_t)ci->nret; k++) S.R[S.fr.back().base + dst + k] = rv[k];
}

typedef std::vector<Value> Args;
typedef std::function<Value(State&, Args&)> Ext;
static std::map<std::string, Ext> g_ext; static std::vector<Ext*> g_extByFn;

static void fork_out(State& S, int stream, OutEl e) { S.out[S.world][stream].push_back(e); if (S.out[S.world][stream].size() > 400000) { report(S, "output", "unbounded output"); g_st.limit++; throw Kill{3}; } }

// ---- %g of symbolic values
struct GRun { Value x; int prec, conv, L, idx; bool neg; };
static std::map<X, std::vector<GRun>> g_digits;  // text characters produced from symbolic numbers
static bool as_int(Value d, Value& out) { // integer view
  if (!d.e) { double x = asd(d.v); if (x == trunc(x) && fabs(x) < 9e15 && !(x == 0 && std::signbit(x))) { out = Value((uint64_t)(int64_t)x); return true; } return false; }
  if (d.e->op == E_ITOF && d.e->a->slo >= -(1ll << 53) && d.e->a->shi <= (1ll << 53)) { out = Value(d.e->a, 0); return true; }
  return false;
}
static std::string host_g(double d, int prec, char conv) { char f[16], b[512]; snprintf(f, sizeof f, "%%.%d%c", prec, conv); snprintf(b, sizeof b, f, d); return b; }
static int64_t p10(int k) { int64_t r = 1; while (k--) r *= 10; return r; }
static Value int_len(Value i, int prec) { // exact length of the decimal text of a 64-bit integer |i| < 10^prec
  Value neg = v_cmp(E_SLT, 64, i, Value(0)); Value a = v_ite(neg, 64, v_bin(E_SUB, 64, Value(0), i), i);
  Value r(1); for (int k = 1; k < prec; k++) r = v_ite(v_cmp(E_SLE, 64, Value(p10(k)), a), 32, Value(k + 1), r);
  return v_bin(E_ADD, 32, r, v_zext(neg, 1, 32));
}
static bool g_int_ok(Value d, int prec, char conv, Value& i) {
  if (conv != 'g' || !as_int(d, i) || !i.e) return false; int64_t lim = p10(std::min(prec ? prec : 1, 15));
  return i.e->slo > -lim && i.e->shi < lim;
}
static Value g_len(State& S, Value d, int prec, char conv) {
  if (!d.e) return Value(host_g(asd(d.v), prec, conv).size());
  Value i; if (g_int_ok(d, prec, conv, i)) return int_len(i, std::min(prec ? prec : 1, 15));
  if (d.e->op == E_ITE) { Value t = g_len(S, d.e->b->op == E_CONST ? Value(d.e->b->val) : Value(d.e->b, 0), prec, conv), f = g_len(S, d.e->c->op == E_CONST ? Value(d.e->c->val) : Value(d.e->c, 0), prec, conv); return v_ite(Value(d.e->a, 0), 32, t, f); }
  auto& ys = x_syms(d.e);
  if (ys.size() == 1 && g_syms[ys[0]].kind == 0 && g_syms[ys[0]].expr->op == E_SYM && g_syms[ys[0]].shi - g_syms[ys[0]].slo < 400) { // few values: the exact length as a function of the symbol
    auto& si = g_syms[ys[0]]; Model m; m.v.assign(g_syms.size(), 0); Value r; int last = -1;
    for (int64_t v = si.slo; v <= si.shi; v++) { m.v[ys[0]] = (uint64_t)v & maskw(si.w); if (m.v[ys[0]] < si.lo || m.v[ys[0]] > si.hi) continue; int n = (int)host_g(asd(x_eval(d.e, m)), prec, conv).size();
      if (last < 0) r = Value((uint64_t)n); else if (n != last) r = v_ite(v_cmp(E_SLE, si.w, Value((uint64_t)v & maskw(si.w)), Value(si.expr, 0)), 32, Value((uint64_t)n), r);
      last = n; }
    return r;
  }
  { Value r; if (tabulate(d.e, ex(Value(0), 64), 32, [&](uint64_t x, uint64_t) { return (uint64_t)host_g(asd(x), prec, conv).size(); }, r)) return r; }
  return v_uf(40, 32, d, Value(prec), Value(conv), 1, conv == 'g' ? prec + 7 : 320, 0);
}
// interval of doubles printing as text t; false when none
static bool text_interval(const std::string& t, int prec, char conv, double& lo, double& hi) {
  char* e; double v = strtod(t.c_str(), &e); if (*e || t.empty() || std::isnan(v)) return false;
  if (host_g(v, prec, conv) != t) return false;
  auto step = [&](bool up) { // furthest double from v still printing as t
    auto ord = [](double d) { int64_t b = (int64_t)asu(d); return b < 0 ? INT64_MIN - b : b; };
    auto un = [](int64_t o) { return asd((uint64_t)(o < 0 ? INT64_MIN - o : o)); };
    int64_t a = ord(v), b = up ? ord(INFINITY) : ord(-INFINITY);
    if (v == 0) { if ((std::signbit(v) && up) || (!std::signbit(v) && !up)) return v; }
    if (host_g(un(b), prec, conv) == t) return un(b);
    while (up ? b - a > 1 : a - b > 1) { int64_t m = a + (b - a) / 2; if (host_g(un(m), prec, conv) == t) a = m; else b = m; }
    return un(a);
  };
  lo = step(false); hi = step(true); return true;
}
static Value prints_as(Value d, const std::string& t, int prec, char conv) {
  if (!d.e) return Value(host_g(asd(d.v), prec, conv) == t);
  double lo, hi; if (!text_interval(t, prec, conv, lo, hi)) return Value(0);
  Value i; if (as_int(d, i)) { if (t == "-0") return Value(0); return v_and(v_fcmp(E_FLE, Value(asu(lo)), d), v_fcmp(E_FLE, d, Value(asu(hi)))); }
  Value r = v_and(v_fcmp(E_FLE, Value(asu(lo)), d), v_fcmp(E_FLE, d, Value(asu(hi))));
  if (lo <= 0 && hi >= 0) r = v_and(r, v_cmp(E_EQ, 1, v_extract(d, 64, 63, 1), Value(t[0] == '-')));
  return r;
}
// characters of the text of d (forks on its length)
static std::vector<Value> g_chars(State& S, Value d, int prec, char conv) {
  std::vector<Value> r;
  if (!d.e) { for (unsigned char c : host_g(asd(d.v), prec, conv)) r.push_back(Value((uint64_t)c)); return r; }
  Value i;
  if (d.e->op == E_ITE) { bool b = decide(S, Value(d.e->a, 0)); X k = b ? d.e->b : d.e->c; return g_chars(S, k->op == E_CONST ? Value(k->val) : Value(k, 0), prec, conv); }
  if (g_int_ok(d, prec, conv, i)) {
    bool neg = decide(S, v_cmp(E_SLT, 64, i, Value(0)));
    Value a = neg ? v_bin(E_SUB, 64, Value(0), i) : i;
    int L = 1; while (L < 15 && decide(S, v_cmp(E_SLE, 64, Value(p10(L)), a))) L++;
    Value a32 = a; unsigned w = 64; int64_t top = p10(L) - 1; while (w > 8 && (int64_t)maskw(w - 1) >= top) w--; a32 = v_extract(a, 64, 0, w);
    int tot = L + neg;
    if (neg) r.push_back(Value('-'));
    for (int k = L - 1; k >= 0; k--) {
      Value q = v_bin(E_UREM, w, v_bin(E_UDIV, w, a32, Value(p10(k))), Value(10));
      Value c = v_bin(E_ADD, 8, w > 8 ? v_extract(q, w, 0, 8) : q, Value('0'));
      if (c.e) g_digits[c.e].push_back({ d, prec, conv, tot, (int)r.size(), neg });
      r.push_back(c);
    }
    return r;
  }
  { // few possible values: decide them one by one
    double dom = 1; for (uint32_t y : x_syms(d.e)) { auto& si = g_syms[y]; dom *= si.kind == 0 && si.shi - si.slo < 400 ? (double)(si.shi - si.slo + 1) : 1e9; }
    if (dom <= 400) { for (uint32_t y : x_syms(d.e)) concretize(S, Value(g_syms[y].expr, 0), g_syms[y].w); uint64_t k = meval(S, d); for (unsigned char c : host_g(asd(k), prec, conv)) r.push_back(Value((uint64_t)c)); return r; }
  }
  Value len = g_len(S, d, prec, conv); uint64_t L = concretize(S, len, 32);
  for (uint64_t k = 0; k < L; k++) { Value c = v_uf(41, 8, d, Value(k), Value(L * 1000 + prec), '+', 'e', 0); g_digits[c.e].push_back({ d, prec, conv, (int)L, (int)k, false }); r.push_back(c); }
  return r;
}
static std::vector<OutEl> normalise(const std::vector<OutEl>& in) {
  std::vector<OutEl> r;
  for (size_t i = 0; i < in.size();) {
    if (in[i].kind == 0 && (in[i].e || in[i].v == '-')) {
      size_t st = i, s2 = in[i].e ? i : i + 1; bool done = false;
      if (s2 < in.size() && in[s2].kind == 0 && in[s2].e) {
        auto it = g_digits.find(in[s2].e);
        if (it != g_digits.end()) for (auto& g : it->second) {
          if (g.idx != (int)(s2 - st) || g.neg != (s2 != st)) continue; bool ok = true;
          for (int k = g.idx; ok && k < g.L; k++) { if (st + k >= in.size() || in[st + k].kind || !in[st + k].e) { ok = false; break; }
            auto j = g_digits.find(in[st + k].e); ok = false; if (j != g_digits.end()) for (auto& h : j->second) if (h.x.e == g.x.e && h.idx == k && h.L == g.L && h.prec == g.prec && h.conv == g.conv) ok = true; }
          if (ok) { OutEl m; m.kind = 1; m.e = nullptr; m.v = 0; m.d = g.x; m.prec = g.prec; m.conv = g.conv; r.push_back(m); i = st + g.L; done = true; break; }
        }
      }
      if (done) continue;
    }
    r.push_back(in[i++]);
  }
  return r;
}
static std::map<X, Value> g_strong; // for an equality of two printed numbers: a clear difference
// conjuncts under which the two logs are equal; false when they differ structurally
static Value match_logs(const std::vector<OutEl>& A, const std::vector<OutEl>& B, size_t i, size_t j, std::vector<Value>& conj, int depth = 0) {
  for (;;) {
    if (i == A.size() || j == B.size()) return Value(i == A.size() && j == B.size());
    const OutEl &a = A[i], &b = B[j];
    if (a.kind == 0 && b.kind == 0) {
      Value eq = v_cmp(E_EQ, 8, a.e ? Value(a.e, 0) : Value((uint64_t)a.v), b.e ? Value(b.e, 0) : Value((uint64_t)b.v));
      if (!eq.e && !eq.v) return Value(0); if (eq.e) conj.push_back(eq); i++; j++; continue;
    }
    if (a.kind == 1 && b.kind == 1) {
      if (a.prec != b.prec || a.conv != b.conv) {
        // different formats: equal only if same printed text; decide at a few concrete points by leaving it to replay
        return Value(0);
      }
      Value eq;
      if (!a.d.e && !b.d.e) eq = Value(host_g(asd(a.d.v), a.prec, a.conv) == host_g(asd(b.d.v), b.prec, b.conv));
      else if (!a.d.e) eq = prints_as(b.d, host_g(asd(a.d.v), a.prec, a.conv), b.prec, b.conv);
      else if (!b.d.e) eq = prints_as(a.d, host_g(asd(b.d.v), a.prec, a.conv), a.prec, a.conv);
      else { Value ai, bi; if (as_int(a.d, ai) && as_int(b.d, bi)) eq = v_cmp(E_EQ, 64, ai, bi);
        else { Value bits = v_cmp(E_EQ, 64, a.d, b.d); eq = bits; if (bits.e) { eq = v_or(bits, v_and(v_fcmp(E_FUNO, a.d, Value(0)), v_fcmp(E_FUNO, b.d, Value(0)))); if (eq.e) { Value df = v_fun(E_FABS, v_fbin(E_FSUB, a.d, b.d)), t = v_fbin(E_FMUL, v_fun(E_FABS, a.d), Value(asu(1e-4))); g_strong[eq.e] = v_fcmp(E_FLT, t, df); } } } }
      if (!eq.e && !eq.v) return Value(0); if (eq.e) conj.push_back(eq); i++; j++; continue;
    }
    // one marker, one byte
    const std::vector<OutEl>& T = a.kind == 1 ? B : A; size_t k = a.kind == 1 ? j : i; const OutEl& m = a.kind == 1 ? a : b;
    Value any(0); std::string t; 
    if (depth > 6) return Value(0);
    for (size_t n = 0; n < 24 && k + n < T.size(); n++) {
      const OutEl& c = T[k + n]; if (c.kind || c.e || !strchr("0123456789+-.einfa", c.v) || !c.v) break;
      t += (char)c.v; 
      bool more = k + n + 1 < T.size() && !T[k + n + 1].kind && !T[k + n + 1].e && T[k + n + 1].v && strchr("0123456789.", T[k + n + 1].v);
      if (more && t.size() < 22) continue; // take maximal digit runs
      Value p = prints_as(m.d, t, m.prec, m.conv); if (!p.e && !p.v) continue;
      std::vector<Value> sub; Value rest = match_logs(A, B, a.kind == 1 ? i + 1 : i + n + 1, a.kind == 1 ? j + n + 1 : j + 1, sub, depth + 1);
      for (auto& s : sub) rest = v_and(rest, s);
      any = v_or(any, v_and(p, rest));
    }
    return any;
  }
}
static std::string render(State& S, const std::vector<OutEl>& L, const Model& m) {
  std::string r; x_eval_begin(m);
  for (auto& e : L) { if (e.kind == 0) r += (char)(e.e ? x_eval_in(e.e) : e.v); else r += host_g(asd(x_eval_in(ex(e.d, 64))), e.prec, e.conv); }
  return r;
}
static bool check_true(State& S, Value c, const std::string& kind, const std::string& what) {
  if (!c.e) { if (c.v) return true; report(S, kind, what); return false; }
  g_force_smt = true; Value nc = v_not(c); Model m; int r = feasible(S, ex(nc, 1), m); g_force_smt = false;
  if (r == 0) return true;
  if (r < 0) { g_st.unknown++; if (g_st.notes.size() < 20) g_st.notes.push_back("solver unknown on assertion: " + x_str(c.e, 4)); return true; }
  report(S, kind, what, &m); return false;
}
// diagnostics are compared by class and by the source line they point at, not by wording
static std::vector<OutEl> norm_err(const std::vector<OutEl>& in) {
  struct L { size_t b, e; std::string t; bool conc; };
  std::vector<L> ls; std::vector<OutEl> r;
  for (size_t i = 0; i < in.size();) {
    size_t e = i; while (e < in.size() && !(in[e].kind == 0 && !in[e].e && in[e].v == '\n')) e++;
    L l{ i, e, "", true }; for (size_t k = i; k < e; k++) { if (in[k].kind || in[k].e) { l.conc = false; break; } l.t += (char)in[k].v; }
    ls.push_back(l); i = e + 1;
  }
  auto put = [&](const char* c) { for (; *c; c++) { OutEl o; o.kind = 0; o.e = nullptr; o.v = *c; o.prec = 0; o.conv = 0; r.push_back(o); } };
  auto copy = [&](const L& l) { for (size_t k = l.b; k < l.e; k++) r.push_back(in[k]); put("\n"); };
  for (size_t i = 0; i < ls.size(); i++) {
    const std::string& t = ls[i].t;
    if (t.compare(0, 14, "Runtime error:") == 0) { put("R "); if (i + 1 < ls.size() && !ls[i + 1].t.empty() && isdigit((unsigned char)ls[i + 1].t[0])) copy(ls[++i]); else put("\n"); }
    else if (ls[i].conc && t.find('^') != std::string::npos && t.find_first_not_of(" \t^") == std::string::npos && i > 0) { put("E "); copy(ls[i - 1]); }
    else if (t.compare(0, 11, "Cannot open") == 0 || t.compare(0, 13, "cannot create") == 0) put("F\n");
    else if (t.find("): ") != std::string::npos && (t.find("ource line ") != std::string::npos || t.find("line number") != std::string::npos)) put("F\n");
  }
  return r;
}
static X g_intAt = nullptr, g_intD = nullptr;
// Position of a concrete text in an output log, or npos.
static size_t find_text(const std::vector<OutEl>& in, const char* t, size_t from = 0) {
  size_t n = strlen(t);
  for (size_t i = from; i + n <= in.size(); i++) { size_t k = 0; while (k < n && !in[i + k].kind && !in[i + k].e && in[i + k].v == (uint64_t)(unsigned char)t[k]) k++; if (k == n) return i; }
  return std::string::npos;
}
// --report-memory: only whether the two counts agree matters.
static void norm_mem(std::vector<OutEl>& in) {
  for (size_t p = 0; (p = find_text(in, "\nmalloc: ", p)) != std::string::npos; p++) {
    size_t q = find_text(in, "\nfree: ", p + 1); if (q == std::string::npos) return;
    auto num = [&](size_t i) { long v = 0; bool any = false; for (; i < in.size() && !in[i].kind && !in[i].e; i++) { if (in[i].v == ' ' && !any) continue; if (!isdigit((int)in[i].v)) break; v = v * 10 + in[i].v - '0'; any = true; } return std::make_pair(v, i); };
    auto a = num(p + 9), b = num(q + 7); std::vector<OutEl> r; const char* c = a.first == b.first ? "\nMEM balanced" : "\nMEM unbalanced"; for (; *c; c++) { OutEl o; o.kind = 0; o.e = nullptr; o.v = *c; o.prec = 0; o.conv = 0; r.push_back(o); }
    in.erase(in.begin() + p, in.begin() + b.second); in.insert(in.begin() + p, r.begin(), r.end());
  }
}
// Sessions "RUN, CONT, CONT ..." with interrupts: each Break uses up one CONT, and the uninterrupted run refuses as many more.
static void norm_int(std::vector<OutEl>& A, std::vector<OutEl>& B) {
  if (g_s->opt.count("int_np")) for (auto* L : { &A, &B }) { size_t p = 0; while ((p = find_text(*L, "> ", p)) != std::string::npos) L->erase(L->begin() + p, L->begin() + p + 2); }
  size_t p = 0; int k = 0; const char* br = g_s->opt.count("int_np") ? "Break\n" : "Break\n> "; size_t bl = strlen(br); while ((p = find_text(A, br, p)) != std::string::npos) { A.erase(A.begin() + p, A.begin() + p + bl); k++; }
  const char* cc = g_s->opt.count("int_np") ? "Cannot continue\n" : "> Cannot continue\n";
  for (; k > 0; k--) { size_t q = find_text(B, cc); if (q == std::string::npos) return; B.erase(B.begin() + q, B.begin() + q + strlen(cc)); }
}
static void compare_stream(State& S, int stream, const char* name) {
  auto A = normalise(S.out[0][stream]), B = normalise(S.out[1][stream]);
  if (stream == 0) { norm_mem(A); norm_mem(B); if (g_intAt) norm_int(A, B); }
  if (stream == 1) { // bytes that this path determines are constants to the classification below
    for (auto* L : { &A, &B }) for (auto& e : *L) if (e.kind == 0 && e.e) { ensure_model(S); uint64_t v = x_eval(e.e, *S.model); Model m; Value ne = v_not(v_cmp(E_EQ, 8, Value(e.e, 0), Value(v))); if (!ne.e ? !ne.v : feasible(S, ex(ne, 1), m) == 0) { e.e = nullptr; e.v = v; } }
    A = norm_err(A); B = norm_err(B); }
  g_strong.clear();
  std::vector<Value> conj; Value top = match_logs(A, B, 0, 0, conj); g_st.compares++;
  auto show = [&](const Model& m) { std::string a = render(S, A, m), b = render(S, B, m); return std::string(name) + " differs: real=" + a.substr(0, 6000) + " expected=" + b.substr(0, 6000); };
  if (!top.e && !top.v) { // different shapes: replace what this path determines by constants and look again
    std::vector<OutEl> C[2]; int k = 0;
    for (auto* L : { &A, &B }) { for (auto e : *L) {
        if (e.kind == 0 && e.e) { ensure_model(S); uint64_t v = x_eval(e.e, *S.model); Model m; Value ne = v_not(v_cmp(E_EQ, 8, Value(e.e, 0), Value(v))); if (!ne.e ? !ne.v : feasible(S, ex(ne, 1), m) == 0) { e.e = nullptr; e.v = v; } }
        if (e.kind == 1 && e.d.e) { ensure_model(S); uint64_t v = x_eval(e.d.e, *S.model); Model m; Value ne = v_not(v_cmp(E_EQ, 64, e.d, Value(v))); if (!ne.e ? !ne.v : feasible(S, ex(ne, 1), m) == 0) e.d = Value(v); }
        if (e.kind == 1 && !e.d.e) { for (unsigned char c : host_g(asd(e.d.v), e.prec, e.conv)) { OutEl o; o.kind = 0; o.e = nullptr; o.v = c; o.prec = 0; o.conv = 0; C[k].push_back(o); } }
        else C[k].push_back(e); }
      k++; }
    A = C[0]; B = C[1]; conj.clear(); top = match_logs(A, B, 0, 0, conj);
    if (!top.e && !top.v) { ensure_model(S); if (render(S, A, *S.model) == render(S, B, *S.model)) {
      bool did = false; static int depth = 0; // few values: decide the printed numbers one by one
      if (depth < 8) for (auto* L : { &A, &B }) for (auto& e : *L) if (e.kind == 1 && e.d.e && small_set(e.d.e)) { concretize(S, e.d, 64); did = true; }
      if (did) { depth++; struct Down { ~Down() { depth--; } } down; compare_stream(S, stream, name); return; }
      unsupported(S, "comparison of differently structured output"); } }
  }
  if (!top.e && !top.v) { conj.clear(); ensure_model(S); report(S, "mismatch", show(*S.model)); g_st.errors++; throw Kill{2}; }
  if (top.e) conj.push_back(top);
  struct Force { Force() { g_force_smt = true; } ~Force() { g_force_smt = false; } } force; // the assertion itself is always decided by Z3
  if (conj.size() > 1) { Value any(0); for (auto& c : conj) any = v_or(any, v_not(c)); Model m; if (!any.e ? !any.v : feasible(S, ex(any, 1), m) == 0) return; }
  for (auto& c : conj) {
    Value nc = v_not(c); Model m; int r = feasible(S, ex(nc, 1), m);
    if (r == 1) {
      auto it = g_strong.find(c.e); if (it != g_strong.end()) { Model m2; if (feasible(S, ex(it->second, 1), m2) == 1) m = m2; } // prefer a difference that shows in six digits
      if (m.v.size() < g_syms.size()) m.v.resize(g_syms.size()); report(S, "mismatch", show(m), &m); g_st.errors++; throw Kill{2}; }
    if (r < 0) { g_st.unknown++; if (g_st.notes.size() < 20) g_st.notes.push_back("solver unknown on comparison: " + x_str(c.e, 4)); }
  }
}

static bool g_reuse = false; // session option: a freed block's address is given to the next block of its size class
static uint64_t size_class(uint64_t sz, uint8_t world) { return ((sz + 15) / 16) * 2 + world; }
static Value do_alloc(State& S, Value size, uint8_t fill) {
  uint64_t lim = 1ull << 26;
  uint64_t sz; X ss = nullptr;
  if (size.e) {
    if (!decide(S, v_cmp(E_ULE, 64, size, Value(lim)))) return Value(0);
    sz = std::min(size.e->hi, lim); if (sz > (4u << 20)) { sz = concretize(S, size, 64); } else ss = size.e;
  } else { if (size.v > lim) return Value(0); sz = size.v; }
  uint32_t id = newobj(S, sz, fill, false);
  if (g_reuse && !size.e) {
    auto it = S.freeHeap.find(size_class(sz, S.world));
    if (it != S.freeHeap.end() && !it->second.empty()) {
      uint32_t old = it->second.back(); it->second.pop_back();
      if (--S.objs[old]->ref == 0) delete S.objs[old];
      S.objs[old] = S.objs[id]; S.objs.pop_back(); id = old;
    }
  }
  Obj* o = S.objs[id]; o->heap = true; o->world = S.world; o->ssize = ss;
  S.heapBytes[S.world]++;
  return Value(obj_addr(id));
}
static void do_free(State& S, Value p) {
  uint64_t a = concretize(S, p, 64); if (!a) return;
  uint32_t id = addr_obj(a); if (id >= S.objs.size() || !S.objs[id] || !S.objs[id]->heap || addr_off(a) != 0) fail(S, "memory", "free of non-heap pointer");
  if (S.objs[id]->freed) fail(S, "memory", "double free");
  Obj* o = S.objs[id]; uint8_t w = o->world;
  if (g_reuse && !o->ssize) S.freeHeap[size_class(o->size, w)].push_back(id);
  Obj* n = new Obj; n->freed = true; n->heap = true; n->world = w; n->size = 0; if (--o->ref == 0) delete o; S.objs[id] = n; S.heapBytes[w]--;
}
static void copy_mem(State& S, Value d, Value s, uint64_t n) {
  if (!n) return;
  Loc ls = resolve(S, s, n, false), ld = resolve(S, d, n, true);
  uint64_t so = concretize(S, ls.off, 64), dof = concretize(S, ld.off, 64);
  flatten(S, ls.id, "copy of symbolically indexed object"); flatten(S, ld.id, "copy of symbolically indexed object"); Obj* a = S.objs[ls.id];
  std::vector<uint8_t> tmp(a->bytes + so, a->bytes + so + n); std::vector<Cell> tc; if (a->cells) tc.assign(a->cells + so, a->cells + so + n);
  Obj* b = wobj(S, ld.id); memcpy(b->bytes + dof, tmp.data(), n);
  if (!tc.empty()) { need_cells(b); memcpy(b->cells + dof, tc.data(), n * sizeof(Cell)); } else if (b->cells) memset(b->cells + dof, 0, n * sizeof(Cell));
}
static void set_mem(State& S, Value d, Value c, uint64_t n) {
  if (!n) return; Loc l = resolve(S, d, n, true); uint64_t off = concretize(S, l.off, 64);
  Obj* o = wobj(S, l.id); if (o->log) { if (off == 0 && n >= o->size && !c.e) { delete o->log; o->log = nullptr; } else { flatten(S, l.id, "memset of symbolically indexed object"); o = wobj(S, l.id); } }
  Value c8 = v_extract(c, 32, 0, 8);
  if (!c8.e) { memset(o->bytes + off, (int)c8.v, n); if (o->cells) memset(o->cells + off, 0, n * sizeof(Cell)); }
  else for (uint64_t i = 0; i < n; i++) store_conc(o, off + i, 1, 8, c8);
}

static std::map<std::string, Value> g_opts;
static void ext(const char* n, Ext f) { g_ext[n] = f; }
static Value b32(Value b) { return v_zext(b, 1, 32); }

static void init_ext() {
  ext("malloc", [](State& S, Args& a) { return do_alloc(S, a[0], 0xBE); });
  ext("calloc", [](State& S, Args& a) {
    Value n = v_bin(E_MUL, 64, a[0], a[1]);
    // overflow of the product
    if (!a[0].e && !a[1].e) { unsigned __int128 p = (unsigned __int128)a[0].v * a[1].v; if (p > (1ull << 40)) return Value(0); }
    return do_alloc(S, n, 0); });
  ext("realloc", [](State& S, Args& a) {
    uint64_t p = concretize(S, a[0], 64); Value r;
    uint64_t sz = concretize(S, a[1], 64);
    if (!p) return do_alloc(S, Value(sz), 0xBE);
    uint32_t id = addr_obj(p); if (id >= S.objs.size() || !S.objs[id] || !S.objs[id]->heap || S.objs[id]->freed || addr_off(p)) fail(S, "memory", "realloc of invalid pointer");
    r = do_alloc(S, Value(sz), 0xBE); if (!r.v) return r;
    copy_mem(S, r, Value(p), std::min<uint64_t>(sz, S.objs[id]->size)); do_free(S, Value(p)); return r; });
  ext("free", [](State& S, Args& a) { do_free(S, a[0]); return Value(0); });
  auto cp = [](State& S, Args& a) { uint64_t n = concretize(S, a[2], 64); copy_mem(S, a[0], a[1], n); return a[0]; };
  ext("memcpy", cp); ext("memmove", cp); ext("llvm.memcpy.p0.p0.i64", cp); ext("llvm.memmove.p0.p0.i64", cp);
  ext("memset", [](State& S, Args& a) { uint64_t n = concretize(S, a[2], 64); set_mem(S, a[0], a[1], n); return a[0]; });
  ext("llvm.memset.p0.i64", [](State& S, Args& a) { uint64_t n = concretize(S, a[2], 64); set_mem(S, a[0], v_zext(a[1], 8, 32), n); return a[0]; });
  ext("abort", [](State& S, Args& a) -> Value { fail(S, "abort", "abort called"); });
  ext("__assert_fail", [](State& S, Args& a) -> Value { std::string m = rdstr(S, a[0].v); fail(S, "assert", "assertion failed: " + m); });
  // floating point
  struct U { const char* n; int fn; }; 
  for (U u : { U{"sin", 1}, U{"cos", 2}, U{"tan", 3}, U{"atan", 4}, U{"exp", 5}, U{"log", 6}, U{"asin", 9}, U{"acos", 10}, U{"log10", 11} }) {
    int fn = u.fn;
    auto f = [fn](State& S, Args& a) -> Value { if (!a[0].e) return Value(asu(host_uf(fn, asd(a[0].v), 0))); return v_uf(fn, 64, a[0], Value(0), Value(0), INT64_MIN, INT64_MAX, 1); };
    ext(u.n, f); }
  for (U u : { U{"pow", 7}, U{"fmod", 8}, U{"atan2", 12} }) { int fn = u.fn; auto f = [fn](State& S, Args& a) -> Value {
      if (!a[0].e && !a[1].e) return Value(asu(host_uf(fn, asd(a[0].v), asd(a[1].v)))); return v_uf(fn, 64, a[0], a[1], Value(0), INT64_MIN, INT64_MAX, 1); };
    ext(u.n, f); if (fn == 7) ext("llvm.pow.f64", f); }
  struct R { const char* n; const char* l; unsigned m; };
  for (R r : { R{"floor", "llvm.floor.f64", 0}, R{"ceil", "llvm.ceil.f64", 1}, R{"trunc", "llvm.trunc.f64", 2}, R{"round", "llvm.round.f64", 3}, R{"rint", "llvm.rint.f64", 4}, R{"nearbyint", "llvm.nearbyint.f64", 4} }) {
    unsigned m = r.m; auto f = [m](State& S, Args& a) { return v_fun(E_FROUND, a[0], m); }; ext(r.n, f); ext(r.l, f); }
  auto fa = [](State& S, Args& a) { return v_fun(E_FABS, a[0]); }; ext("fabs", fa); ext("llvm.fabs.f64", fa);
  auto fq = [](State& S, Args& a) { return v_fun(E_FSQRT, a[0]); }; ext("sqrt", fq); ext("llvm.sqrt.f64", fq);
  for (const char* n : { "sin", "cos", "tan", "atan", "exp", "log", "asin", "acos", "log10", "pow", "fmod", "atan2", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "fabs", "sqrt" }) { // single precision
    auto g = g_ext[n]; ext((std::string(n) + "f").c_str(), [g](State& S, Args& a) -> Value { Args b; for (auto& v : a) b.push_back(v_s2f(v)); return v_f2s(g(S, b)); });
    std::string l = std::string("llvm.") + n + ".f"; if (g_ext.count(l + "64")) g_ext[l + "32"] = g_ext[std::string(n) + "f"]; }
  ext("llvm.fmuladd.f64", [](State& S, Args& a) { return v_fbin(E_FADD, v_fbin(E_FMUL, a[0], a[1]), a[2]); });
  ext("llvm.copysign.f64", [](State& S, Args& a) { return v_concat(v_extract(a[1], 64, 63, 1), 1, v_extract(a[0], 64, 0, 63), 63); });
  ext("llvm.is.fpclass.i1", [](State& S, Args& a) -> Value { unsigned m = a[1].v; Value r(0), nan = v_fcmp(E_FUNO, a[0], Value(0)); Value pi = v_fcmp(E_FEQ, a[0], Value(asu(INFINITY))), ni = v_fcmp(E_FEQ, a[0], Value(asu(-INFINITY)));
    if ((m & 3) == 3) r = v_or(r, nan); if (m & 0x200) r = v_or(r, pi); if (m & 4) r = v_or(r, ni); if ((m & 0x1f8) == 0x1f8) r = v_or(r, v_not(v_or(nan, v_or(pi, ni)))); return r; });
  for (int w : { 8, 32, 64 }) { std::string s = ".i" + std::to_string(w);
    ext(("llvm.umax" + s).c_str(), [w](State& S, Args& a) { return v_ite(v_cmp(E_ULT, w, a[0], a[1]), w, a[1], a[0]); });
    ext(("llvm.umin" + s).c_str(), [w](State& S, Args& a) { return v_ite(v_cmp(E_ULT, w, a[0], a[1]), w, a[0], a[1]); });
    ext(("llvm.smax" + s).c_str(), [w](State& S, Args& a) { return v_ite(v_cmp(E_SLT, w, a[0], a[1]), w, a[1], a[0]); });
    ext(("llvm.smin" + s).c_str(), [w](State& S, Args& a) { return v_ite(v_cmp(E_SLT, w, a[0], a[1]), w, a[0], a[1]); });
    ext(("llvm.abs" + s).c_str(), [w](State& S, Args& a) { return v_ite(v_cmp(E_SLT, w, a[0], Value(0)), w, v_bin(E_SUB, w, Value(0), a[0]), a[0]); }); }
  ext("llvm.stacksave.p0", [](State& S, Args& a) { return Value(0); }); ext("llvm.stackrestore.p0", [](State& S, Args& a) { return Value(0); }); ext("llvm.stacksave", [](State& S, Args& a) { return Value(0); }); ext("llvm.stackrestore", [](State& S, Args& a) { return Value(0); });
  ext("llvm.trap", [](State& S, Args& a) -> Value { fail(S, "abort", "trap"); });
  // setjmp / longjmp
  ext("longjmp", [](State& S, Args& a) -> Value { S.inHandler = false;
    uint64_t p = concretize(S, a[0], 64); Value k = mem_load(S, Value(p), 8, 64); Value v = a[1];
    uint64_t idx = concretize(S, k, 64); if (idx == 0 || idx > S.jmps.size()) fail(S, "memory", "longjmp through an uninitialised buffer");
    JmpEnt j = S.jmps[idx - 1];
    if (j.depth > S.fr.size() || S.fr[j.depth - 1].uid != j.uid) fail(S, "memory", "longjmp to a function that has returned");
    while (S.fr.size() > j.depth) pop_frame(S);
    S.fr.back().pc = j.pc; Value one = v_ite(v_cmp(E_EQ, 32, v, Value(0)), 32, Value(1), v);
    if (j.dst >= 0) S.R[S.fr.back().base + j.dst] = one;
    throw Refork(); });
  auto sj = [](State& S, Args& a) -> Value { // pc already past the call
    Frame& f = S.fr.back(); Inst& i = f.f->code[f.pc - 1];
    uint64_t p = concretize(S, a[0], 64); S.jmps.push_back({ f.uid, (uint32_t)S.fr.size(), f.pc, i.dst }); mem_store(S, Value(p), 8, 64, Value(S.jmps.size())); return Value(0); };
  ext("_setjmp", sj); ext("setjmp", sj); ext("__sigsetjmp", sj); ext("sigsetjmp", sj); g_ext["siglongjmp"] = g_ext["longjmp"];
  // environment
  ext("sx_signal", [](State& S, Args& a) -> Value {
    uint64_t h = concretize(S, a[1], 64); uint64_t old = S.sigHandler; S.sigHandler = h; 
    return Value(old); });
  ext("srand", [](State& S, Args& a) { S.randSeed[S.world] = a[0]; S.randIdx[S.world] = 0; return Value(0); });
  ext("rand", [](State& S, Args& a) { Value sd = S.randSeed[S.world]; Value r = v_uf(50, 32, v_zext(sd, 32, 64), Value(S.randIdx[S.world]), Value(0), 0, S.randIdx[S.world] < 2 ? 0x7fffffff : 0x7ffffffe, 0); S.randIdx[S.world]++; return r; });
  ext("sx_time", [](State& S, Args& a) { Value r = v_uf(51, 64, Value(S.timeIdx[S.world]), Value(0), Value(0), 1600000000, 2000000000, 0); S.timeIdx[S.world]++; return r; });
  // harness interface
  ext("sx_world", [](State& S, Args& a) { S.world = a[0].v; return Value(0); });
  ext("sx_out", [](State& S, Args& a) { OutEl e; e.kind = 0; Value c = v_extract(a[1], 32, 0, 8); e.e = c.e; e.v = c.v; e.prec = 0; e.conv = 0; fork_out(S, a[0].v, e); return Value(0); });
  ext("sx_out_g", [](State& S, Args& a) { // stream, double, prec, conv -> length
    Value len = g_len(S, a[1], a[2].v, a[3].v);
    if (!a[1].e) { for (unsigned char c : std::isnan(asd(a[1].v)) ? std::string("nan") : host_g(asd(a[1].v), a[2].v, a[3].v)) { OutEl e; e.kind = 0; e.e = nullptr; e.v = c; e.prec = 0; e.conv = 0; fork_out(S, a[0].v, e); } }
    else { OutEl e; e.kind = 1; e.e = nullptr; e.v = 0; e.d = a[1]; e.prec = a[2].v; e.conv = a[3].v; fork_out(S, a[0].v, e); }
    return len; });
  ext("sx_g", [](State& S, Args& a) { // double, prec, conv, buf -> length
    auto cs = g_chars(S, a[0], a[1].v, a[2].v); for (size_t i = 0; i < cs.size(); i++) mem_store(S, Value(a[3].v + i), 1, 8, cs[i]); mem_store(S, Value(a[3].v + cs.size()), 1, 8, Value(0)); return Value(cs.size()); });
  ext("sx_strtod", [](State& S, Args& a) -> Value { // s, int* used (-1: symbolic characters) -> double
    uint64_t s = concretize(S, a[0], 64); std::string t; bool sym = false; uint64_t k = 0;
    Value c0 = mem_load(S, Value(s), 1, 8);
    bool neg = false; Value c1 = c0; if (!c0.e && c0.v == '-') { neg = true; c1 = mem_load(S, Value(s + 1), 1, 8); }
    if (c1.e && g_digits.count(c1.e)) for (auto& g : g_digits[c1.e]) if (g.idx == (int)neg && g.neg == neg) {
      bool ok = true; for (int j = g.idx; ok && j < g.L; j++) { Value c = mem_load(S, Value(s + j), 1, 8); bool f = false; if (c.e && g_digits.count(c.e)) for (auto& h : g_digits[c.e]) if (h.x.e == g.x.e && h.idx == j && h.L == g.L) f = true; ok = f; }
      if (!ok) continue; Value n = mem_load(S, Value(s + g.L), 1, 8); if (n.e || (n.v && strchr("0123456789.eE", n.v))) continue;
      Value i; mem_store(S, a[1], 4, 32, Value(g.L)); if (as_int(g.x, i)) return g.x; return v_uf(42, 64, g.x, Value(g.prec), Value(0), INT64_MIN, INT64_MAX, 1);
    }
    for (k = 0; k < 400; k++) { Value c = mem_load(S, Value(s + k), 1, 8); if (c.e) { sym = true; break; } if (!c.v || !(isalnum((int)c.v) || strchr("+-. \t\n\v\f\r", c.v))) break; t += (char)c.v; }
    if (sym) { mem_store(S, a[1], 4, 32, Value(maskw(32))); return Value(0); }
    size_t p = 0; while (p < t.size() && isspace((unsigned char)t[p])) p++;
    bool ng = false; if (p < t.size() && (t[p] == '-' || t[p] == '+')) { ng = t[p] == '-'; p++; }
    if (t.compare(p, 7, "9000000") == 0 && p + 9 <= t.size() && isdigit(t[p + 7]) && isdigit(t[p + 8]) && (p + 9 == t.size() || !(isdigit(t[p + 9]) || t[p + 9] == '.' || t[p + 9] == 'e' || t[p + 9] == 'E'))) {
      int id = (t[p + 7] - '0') * 10 + (t[p + 8] - '0');
      for (auto& h : g_s->holes) if (h.type != 'b' && h.id == id) { mem_store(S, a[1], 4, 32, Value(p + 9)); return ng ? v_fun(E_FNEG, h.val) : h.val; }
    }
    char* e; double d = strtod(t.c_str(), &e); mem_store(S, a[1], 4, 32, Value(e - t.c_str())); return Value(asu(d)); });
  ext("sx_conc", [](State& S, Args& a) -> Value { // decide the symbolic characters of a numeral one by one
    uint64_t s = concretize(S, a[0], 64);
    for (uint64_t k = 0; k < 400; k++) { Value c = mem_load(S, Value(s + k), 1, 8); uint64_t v = concretize(S, c, 8); if (c.e) mem_store(S, Value(s + k), 1, 8, Value(v)); if (!v || !(isalnum((int)v) || strchr("+-. \t\n\v\f\r", (int)v))) break; }
    return Value(0); });
  ext("sx_blob", [](State& S, Args& a) -> Value { // name, long* len -> pointer or null
    std::string n = rdstr(S, a[0].v); auto it = g_s->blobs.find(n); if (it == g_s->blobs.end()) return Value(0);
    auto& b = it->second.b; uint32_t id = newobj(S, b.size() + 1, 0, false); Obj* o = S.objs[id];
    for (size_t i = 0; i < b.size(); i++) { if (b[i].first == 0) o->bytes[i] = b[i].second; else for (auto& h : g_s->holes) if (h.type == 'b' && h.id == b[i].second) store_conc(o, i, 1, 8, h.val); }
    mem_store(S, a[1], 8, 64, Value(b.size())); return Value(obj_addr(id)); });
  ext("sx_alloc", [](State& S, Args& a) -> Value { uint32_t id = newobj(S, a[0].v, 0, false); return Value(obj_addr(id)); });
  ext("sx_opt", [](State& S, Args& a) -> Value { std::string n = rdstr(S, a[0].v); auto it = g_s->opt.find(n); return Value(it == g_s->opt.end() ? 0 : (uint64_t)it->second & maskw(32)); });
  ext("sx_arg", [](State& S, Args& a) -> Value { // world, index -> char* or null
    std::vector<std::string> v; for (auto& s : g_s->args) v.push_back(s);
    if (a[0].v >= v.size()) return Value(0); std::string& t = v[a[0].v]; uint32_t id = newobj(S, t.size() + 1, 0, false); memcpy(S.objs[id]->bytes, t.data(), t.size()); return Value(obj_addr(id)); });
  ext("sx_assume", [](State& S, Args& a) { assume(S, v_not(v_cmp(E_EQ, 32, a[0], Value(0)))); return Value(0); });
  ext("sx_assert", [](State& S, Args& a) { check_true(S, v_not(v_cmp(E_EQ, 32, a[0], Value(0))), "mismatch", rdstr(S, a[1].v)); return Value(0); });
  ext("sx_reach", [](State& S, Args& a) { std::string n = rdstr(S, a[0].v); g_reach[n]++;
    if (g_intAt && n == "sut-end" && S.counters[30] && find_text(S.out[0][0], "Break\n") == std::string::npos) fail(S, "interrupt", "an interrupt while the program runs is not reported"); return Value(0); });
  ext("sx_compare", [](State& S, Args& a) { compare_stream(S, a[0].v, a[0].v ? "stderr" : "stdout"); return Value(0); });
  ext("sx_clear_out", [](State& S, Args& a) { S.out[a[0].v][a[1].v].clear(); return Value(0); });
  ext("sx_outlen", [](State& S, Args& a) { return Value(S.out[S.world][a[0].v].size()); });
  ext("sx_live", [](State& S, Args& a) { return Value(S.heapBytes[a[0].v]); });
  ext("sx_end", [](State& S, Args& a) -> Value { throw Kill{0}; });
  ext("sx_reset_globals", [](State& S, Args& a) -> Value { for (size_t i = 0; i < P.globals.size(); i++) { auto& G = P.globals[i]; if (G.constant || !P.sutGlobals.count(G.name)) continue; Obj* o = wobj(S, i); memcpy(o->bytes, G.init.data(), G.size); free(o->cells); o->cells = nullptr; } S.sigHandler = 0; return Value(0); });
  ext("sx_unsupported", [](State& S, Args& a) -> Value { unsupported(S, rdstr(S, a[0].v)); });
  ext("sx_dump", [](State& S, Args& a) { Model m = *S.model; fprintf(stderr, "%s", render(S, S.out[a[0].v][a[1].v], m).c_str()); return Value(0); });
  ext("sx_counter", [](State& S, Args& a) -> Value { S.counters[(int)a[0].v] += (int64_t)sxt(a[1].v, 32); return Value((uint64_t)S.counters[(int)a[0].v] & maskw(32)); });
  ext("sx_isconc", [](State& S, Args& a) -> Value { return Value(a[0].e ? 0 : 1); });
}

// ------------------------------------------------------------------ interrupts
static void mark_watched(State& S, uint64_t handler) {
  if (handler < FN_BASE) return; uint64_t id = (handler - FN_BASE) / 16; if (id >= P.funcs.size()) return;
  std::set<int> seen; std::vector<int> st{ (int)id };
  while (!st.empty()) { int k = st.back(); st.pop_back(); if (!seen.insert(k).second) continue; Func* f = P.funcs[k].get(); if (!f->lowered || !P.sutFuncs.count(f->name)) continue;
    for (auto& i : f->code) { if (i.op == I_STORE && i.a < 0) { uint64_t a = f->consts[~i.a]; uint32_t o = addr_obj(a); if (o < S.objs.size() && S.objs[o]) wobj(S, o)->watched = true; }
      if (i.op == I_CALL && f->calls[i.x].fn >= 0) st.push_back(f->calls[i.x].fn); } }
}

// A point at which the arrival of SIGINT can make a difference: an access to a variable that the handler writes, a change
// of the disposition, and - whatever the disposition - each evaluation of SIN, which only a running program performs
// (hard). Whether it arrives here is decided by the symbols int_at and int_d. Returns whether the handler was entered.
static bool do_poll(State& S, bool hard) {
  if (!g_intAt || S.world != 0 || S.inHandler) return false;
  bool handled = S.sigHandler >= FN_BASE; if (!handled && !hard) return false;
  if (g_s->opt.count("int_until") && S.counters[20] > g_s->opt["int_until"]) return false; // only up to this place of the input
  if (hard) S.counters[31] = 1;
  if (g_s->opt.count("int_run") && !S.counters[31]) return false; // only once a first SIN was reached
  uint32_t k = S.rePoll ? S.polls - 1 : S.polls; bool here = false;
  if (S.delivered == 0) here = decide(S, v_cmp(E_EQ, 32, Value(g_intAt, 0), Value(k)));
  else if (S.delivered == 1 && g_intD) here = decide(S, v_cmp(E_EQ, 32, v_bin(E_ADD, 32, Value(g_intAt, 0), Value(g_intD, 0)), Value(k)));
  S.polls = k + 1; S.rePoll = false;
  if (!here) {
    if (hard && S.mustBreak) { if (S.posAt != S.counters[20]) S.hardSince = 0, S.posAt = S.counters[20], S.mustBreak = false; else if (++S.hardSince >= 6) fail(S, "interrupt", "the program goes on after an interrupt"); }
    return false; }
  S.delivered++;
  if (hard) {
    if (S.sigHandler == 0) fail(S, "interrupt", "an interrupt while the program runs ends the process");
    S.mustBreak = true; S.hardSince = 0; S.posAt = S.counters[20]; S.counters[30]++; }
  if (!handled) return false;
  S.rePoll = true; S.inHandler = true; S.fr.back().pc--; 
  Func* h = P.funcs[(S.sigHandler - FN_BASE) / 16].get(); push_frame(S, h, Args{ Value(2) }, -1, nullptr); S.fr.back().handler = true; return true;
}

// ------------------------------------------------------------------ main loop
static uint64_t g_maxsteps = 20000000;

static void exec_call(State& S, Inst& i) {
  Frame& f = S.fr.back(); CallInfo& ci = f.f->calls[i.x];
  int fn = ci.fn; Args args; args.reserve(ci.args.size());
  for (auto o : ci.args) args.push_back(opnd(S, f, o));
  if (g_intAt && fn >= 0 && P.funcs[fn]->poll && do_poll(S, P.funcs[fn]->poll == 2)) return;
  if (fn < 0) {
    Value t = opnd(S, f, ci.target); uint64_t a = concretize(S, t, 64);
    if (a < FN_BASE || (a - FN_BASE) % 16 || (a - FN_BASE) / 16 >= P.funcs.size()) fail(S, "memory", a ? "call through a bad function pointer" : "call through a null function pointer");
    fn = (a - FN_BASE) / 16;
  }
  Func* g = P.funcs[fn].get();
  if (g->lowered) { push_frame(S, g, args, ci.nret ? i.dst : -1, &ci); return; }
  Ext* e = g_extByFn[fn]; if (!e) unsupported(S, "external function " + g->name);
  int dst = i.dst, nret = ci.nret; unsigned rw = nret ? ci.retw[0] : 0; 
  Value r = (*e)(S, args);
  if (nret && dst >= 0) { if (!r.e) r.v &= maskw(rw); S.R[S.fr.back().base + dst] = r; }
}

static void take_edge(State& S, Frame& f, Edge& e) {
  if (e.copies.size() == 1) { S.R[f.base + e.copies[0].first] = opnd(S, f, e.copies[0].second); }
  else if (!e.copies.empty()) { Value tmp[64]; std::vector<Value> big; size_t n = e.copies.size(); Value* t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t k = 0; k < n; k++) t[k] = opnd(S, f, e.copies[k].second); for (size_t k = 0; k < n; k++) S.R[f.base + e.copies[k].first] = t[k]; }
  f.pc = e.target;
}

static Value fcmp(unsigned p, Value a, Value b) {
  Value uno, r;
  switch (p) {
    case 0: return Value(0); case 15: return Value(1);
    case 1: return v_fcmp(E_FEQ, a, b); case 2: return v_fcmp(E_FLT, b, a); case 3: return v_fcmp(E_FLE, b, a); case 4: return v_fcmp(E_FLT, a, b); case 5: return v_fcmp(E_FLE, a, b);
    case 6: return v_or(v_fcmp(E_FLT, a, b), v_fcmp(E_FLT, b, a)); case 7: return v_not(v_fcmp(E_FUNO, a, b)); case 8: return v_fcmp(E_FUNO, a, b);
    case 9: return v_or(v_fcmp(E_FUNO, a, b), v_fcmp(E_FEQ, a, b)); case 10: return v_not(v_fcmp(E_FLE, a, b)); case 11: return v_not(v_fcmp(E_FLT, a, b));
    case 12: return v_not(v_fcmp(E_FLE, b, a)); case 13: return v_not(v_fcmp(E_FLT, b, a)); default: return v_not(v_fcmp(E_FEQ, a, b));
  }
}
static Value icmp(unsigned p, unsigned w, Value a, Value b) {
  switch (p) { case 0: return v_cmp(E_EQ, w, a, b); case 1: return v_not(v_cmp(E_EQ, w, a, b)); case 2: return v_cmp(E_ULT, w, a, b); case 3: return v_cmp(E_ULE, w, a, b); case 4: return v_cmp(E_ULT, w, b, a); case 5: return v_cmp(E_ULE, w, b, a);
    case 6: return v_cmp(E_SLT, w, a, b); case 7: return v_cmp(E_SLE, w, a, b); case 8: return v_cmp(E_SLT, w, b, a); default: return v_cmp(E_SLE, w, b, a); }
}

static void run(State& S) {
  for (;;) {
    Frame& f = S.fr.back(); Func* F = f.f; Inst& i = F->code[f.pc]; F->covered[f.pc] = 1; f.pc++;
    if (++S.steps > g_maxsteps) { report(S, "steps", "step limit reached (possible endless loop)"); g_st.limit++; throw Kill{3}; }
    if ((S.steps & 0xfffff) == 0 && elapsed() > (g_s->opt.count("timeout") ? g_s->opt["timeout"] : 60)) throw Kill{5};
    #define A opnd(S, f, i.a)
    #define B opnd(S, f, i.b)
    #define SET(x) do { Value _v = (x); S.R[S.fr.back().base + i.dst] = _v; } while (0)
    switch (i.op) {
      case I_BIN: {
        Value a = A, b = B; Op op = (Op)i.sub;
        if (op >= E_UDIV && op <= E_SREM) {
          if (b.e) { Value z = v_cmp(E_EQ, i.w, b, Value(0)); if (decide(S, z)) fail(S, "arith", "integer division by zero"); } else if (b.v == 0) fail(S, "arith", "integer division by zero");
          if (op == E_SDIV || op == E_SREM) { Value o = v_and(v_cmp(E_EQ, i.w, a, Value(1ull << (i.w - 1))), v_cmp(E_EQ, i.w, b, Value(maskw(i.w)))); if (decide(S, o)) fail(S, "arith", "integer division overflow"); }
        }
        if (op >= E_SHL && op <= E_ASHR && g_ub) { if (b.e || b.v >= i.w) if (decide(S, v_cmp(E_ULE, i.w, Value(i.w), b))) fail(S, "ub", "shift amount out of range"); }
        if ((i.flags & 1) && g_ub && op <= E_MUL && i.w >= 32) { // signed overflow
          if (a.e || b.e) {
            X xa = ex(a, i.w), xb = ex(b, i.w); __int128 lo, hi;
            if (op == E_ADD) lo = (__int128)xa->slo + xb->slo, hi = (__int128)xa->shi + xb->shi;
            else if (op == E_SUB) lo = (__int128)xa->slo - xb->shi, hi = (__int128)xa->shi - xb->slo;
            else { __int128 p[4] = { (__int128)xa->slo * xb->slo, (__int128)xa->slo * xb->shi, (__int128)xa->shi * xb->slo, (__int128)xa->shi * xb->shi }; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
            int64_t mn = i.w >= 64 ? INT64_MIN : -(1ll << (i.w - 1)), mx = i.w >= 64 ? INT64_MAX : (1ll << (i.w - 1)) - 1;
            if ((lo < mn || hi > mx) && i.w <= 32) {
              unsigned W = 2 * i.w; Value r = v_bin(op, W, v_sext(a, i.w, W), v_sext(b, i.w, W)); Value ok = v_cmp(E_EQ, W, r, v_sext(v_extract(r, W, 0, i.w), i.w, W));
              if (!decide(S, ok)) fail(S, "ub", "signed integer overflow");
            }
          } else { __int128 x = sxt(a.v, i.w), y = sxt(b.v, i.w), r = op == E_ADD ? x + y : op == E_SUB ? x - y : x * y; int64_t mn = i.w >= 64 ? INT64_MIN : -(1ll << (i.w - 1)), mx = i.w >= 64 ? INT64_MAX : (1ll << (i.w - 1)) - 1; if (r < mn || r > mx) fail(S, "ub", "signed integer overflow"); }
        }
        SET(v_bin(op, i.w, a, b)); break; }
      case I_ICMP: { Value a = A, b = B;
        if (!a.e && !b.e) { uint64_t x = a.v & maskw(i.w), y = b.v & maskw(i.w); int64_t sx = sxt(x, i.w), sy = sxt(y, i.w); bool r; switch (i.sub) { case 0: r = x == y; break; case 1: r = x != y; break; case 2: r = x < y; break; case 3: r = x <= y; break; case 4: r = x > y; break; case 5: r = x >= y; break; case 6: r = sx < sy; break; case 7: r = sx <= sy; break; case 8: r = sx > sy; break; default: r = sx >= sy; } SET(Value((uint64_t)r)); }
        else SET(icmp(i.sub, i.w, a, b)); break; }
      case I_FBIN: { Value a = A, b = B; if (i.w == 32) { static const Op m[] = { E_FADD, E_FSUB, E_FMUL, E_FDIV }; a = v_s2f(a); b = v_s2f(b); SET(v_f2s(i.sub == 4 ? (!a.e && !b.e ? Value(asu(fmod(asd(a.v), asd(b.v)))) : v_uf(8, 64, a, b, Value(0), INT64_MIN, INT64_MAX, 1)) : v_fbin(m[i.sub], a, b))); break; }
        if (i.sub == 4) { SET(!a.e && !b.e ? Value(asu(fmod(asd(a.v), asd(b.v)))) : v_uf(8, 64, a, b, Value(0), INT64_MIN, INT64_MAX, 1)); break; }
        static const Op m[] = { E_FADD, E_FSUB, E_FMUL, E_FDIV }; SET(v_fbin(m[i.sub], a, b)); break; }
      case I_FNEG: SET(i.w == 32 ? v_f2s(v_fun(E_FNEG, v_s2f(A))) : v_fun(E_FNEG, A)); break;
      case I_FPTRUNC: SET(v_f2s(A)); break;
      case I_FPEXT: SET(v_s2f(A)); break;
      case I_FCMP: if (i.flags & 8) SET(fcmp(i.sub, v_s2f(A), v_s2f(B))); else SET(fcmp(i.sub, A, B)); break;
      case I_TRUNC: SET(v_extract(A, i.sub, 0, i.w)); break;
      case I_ZEXT: SET(v_zext(A, i.sub, i.w)); break;
      case I_SEXT: SET(v_sext(A, i.sub, i.w)); break;
      case I_FPTOSI: case I_FPTOUI: {
        Value a = A; if (i.flags & 8) a = v_s2f(a); bool sg = i.op == I_FPTOSI; double lo = sg ? -ldexp(1.0, i.w - 1) : 0, hi = sg ? ldexp(1.0, i.w - 1) : ldexp(1.0, i.w);
        Value t = v_fun(E_FROUND, a, 2); Value ok = v_and(v_fcmp(E_FLE, Value(asu(lo)), t), v_fcmp(E_FLT, t, Value(asu(hi))));
        if (!decide(S, ok)) fail(S, "ub", "floating-point value outside the range of the integer type");
        SET(v_ftoi(a, i.w, sg)); break; }
      case I_SITOFP: { Value r = v_itof(A, i.sub, true); SET(i.w == 32 ? v_f2s(r) : r); break; }
      case I_UITOFP: { Value r = v_itof(A, i.sub, false); SET(i.w == 32 ? v_f2s(r) : r); break; }
      case I_COPY: SET(A); break;
      case I_LOAD: {
        Value a = A;
        if (!a.e) {
          uint32_t id = addr_obj(a.v); uint64_t off = addr_off(a.v);
          if ((a.v >> OBJ_SHIFT) >= 16 && id < S.objs.size() && S.objs[id]) {
            Obj* o = S.objs[id];
            if (o->watched && g_intAt && do_poll(S, false)) break;
            if (!o->cells && !o->log && !o->ssize && !o->freed && off + i.sub <= o->size && off <= o->size) { uint64_t v = 0; memcpy(&v, o->bytes + off, i.sub); SET(Value(v & maskw(i.w))); break; }
          }
        }
        SET(mem_load(S, a, i.sub, i.w)); break; }
      case I_STORE: {
        Value a = A, v = B;
        if (!a.e && !v.e) {
          uint32_t id = addr_obj(a.v); uint64_t off = addr_off(a.v);
          if ((a.v >> OBJ_SHIFT) >= 16 && id < S.objs.size() && S.objs[id]) {
            Obj* o = S.objs[id];
            if (o->watched && g_intAt && do_poll(S, false)) break;
            o = S.objs[id];
            if (o->ref == 1 && !o->cells && !o->log && !o->ssize && !o->freed && !o->ro && off + i.sub <= o->size && off <= o->size) { memcpy(o->bytes + off, &v.v, i.sub); break; }
          }
        }
        mem_store(S, a, i.sub, i.w, v); break; }
      case I_ALLOCA: { uint64_t n = concretize(S, A, 64); uint64_t sz = n * i.x; uint32_t id = newobj(S, sz, 0xCD, true); S.objs[id]->stack = true; S.fr.back().allocas.push_back(id); SET(Value(obj_addr(id))); break; }
      case I_GEP: { GepInfo& g = F->geps[i.x]; Value v = opnd(S, f, g.base);
        uint64_t off = g.off; Value sy; bool hasSym = false;
        for (auto& t : g.terms) { Value ix = opnd(S, f, t.idx); if (!ix.e) off += (uint64_t)(sxt(ix.v, t.w) * t.scale); else { Value p = v_bin(E_MUL, 64, v_sext(ix, t.w, 64), Value((uint64_t)t.scale)); sy = hasSym ? v_bin(E_ADD, 64, sy, p) : p; hasSym = true; } }
        if (!v.e && !hasSym) { SET(Value(v.v + off)); break; }
        v = v_bin(E_ADD, 64, v, Value(off)); if (hasSym) v = v_bin(E_ADD, 64, v, sy);
        SET(v); break; }
      case I_SELECT: { Value c = A; if (!c.e) SET(c.v & 1 ? B : opnd(S, f, i.c)); else SET(v_ite(c, i.w, B, opnd(S, f, i.c))); break; }
      case I_BR: take_edge(S, f, F->edges[i.x]); break;
      case I_CONDBR: { Value c = A; bool b = c.e ? decide(S, c) : c.v & 1; take_edge(S, S.fr.back(), F->edges[b ? i.x : i.b]); break; }
      case I_SWITCH: { SwitchInfo& sw = F->switches[i.x]; Value c = A;
        if (!c.e) { uint32_t e = sw.def; for (auto& k : sw.cases) if (k.first == (c.v & maskw(i.w))) { e = k.second; break; } take_edge(S, f, F->edges[e]); break; }
        // group by edge target under the model
        uint64_t v = meval(S, c); uint32_t e = sw.def; for (auto& k : sw.cases) if (k.first == v) { e = k.second; break; }
        Value cond(0); bool def = e == sw.def;
        if (def) { cond = Value(1); for (auto& k : sw.cases) if (k.second != sw.def) cond = v_and(cond, v_not(v_cmp(E_EQ, i.w, c, Value(k.first)))); }
        else for (auto& k : sw.cases) if (F->edges[k.second].target == F->edges[e].target && F->edges[k.second].copies == F->edges[e].copies) cond = v_or(cond, v_cmp(E_EQ, i.w, c, Value(k.first)));
        decide(S, cond); take_edge(S, S.fr.back(), F->edges[e]); break; }
      case I_RET: { std::vector<Value> rv; for (auto o : F->rets[i.x]) rv.push_back(opnd(S, f, o)); do_return(S, rv); break; }
      case I_CALL: try { exec_call(S, i); } catch (Refork&) {} break;
      case I_UNREACHABLE: fail(S, "abort", "unreachable code reached");
      case I_VASTART: {
        Value l = A; uint32_t id = newobj(S, f.va.size() * 8 + 8, 0, true); S.objs[id]->stack = true; S.fr.back().allocas.push_back(id);
        for (size_t k = 0; k < S.fr.back().va.size(); k++) store_conc(S.objs[id], k * 8, 8, 64, S.fr.back().va[k].e ? v_zext(S.fr.back().va[k], S.fr.back().va[k].e->w, 64) : S.fr.back().va[k]);
        mem_store(S, l, 4, 32, Value(48)); mem_store(S, v_bin(E_ADD, 64, l, Value(4)), 4, 32, Value(176)); mem_store(S, v_bin(E_ADD, 64, l, Value(8)), 8, 64, Value(obj_addr(id))); mem_store(S, v_bin(E_ADD, 64, l, Value(16)), 8, 64, Value(0));
        break; }
      case I_NOP: break;
    }
  }
}

static std::string unesc(const std::string& s, Blob* b) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { r += s[i]; if (b) b->b.push_back({ 0, (unsigned char)s[i] }); continue; }
    char c = s[++i];
    if (c == 'n') { r += '\n'; if (b) b->b.push_back({ 0, '\n' }); }
    else if (c == 'x') { int v = strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; r += (char)v; if (b) b->b.push_back({ 0, v }); }
    else if (c == 'b') { int v = atoi(s.substr(i + 1, 2).c_str()); i += 2; if (b) b->b.push_back({ 1, v }); }
    else { r += c; if (b) b->b.push_back({ 0, (unsigned char)c }); }
  }
  return r;
}
static void make_holes(State& S) {
  for (auto& h : g_s->holes) {
    char nm[32]; snprintf(nm, sizeof nm, "%c%02d", h.type, h.id);
    switch (h.type) {
      case 'b': { h.sym = x_sym(nm, 8, (int64_t)h.lo, (int64_t)h.hi); h.val = Value(h.sym, 0); for (unsigned char c : unesc(h.extra, nullptr)) { Value ne = v_not(v_cmp(E_EQ, 8, h.val, Value((uint64_t)c))); if (ne.e) S.pc.push_back(ne.e); } break; }
      case 'i': h.sym = x_sym(nm, 64, (int64_t)h.lo, (int64_t)h.hi); h.val = v_itof(Value(h.sym, 0), 64, true); break;
      case 'h': { h.sym = x_sym(nm, 64, (int64_t)(h.lo * 2), (int64_t)(h.hi * 2)); h.val = v_fbin(E_FMUL, v_itof(Value(h.sym, 0), 64, true), Value(asu(0.5))); break; }
      case 'd': { // non-negative double: 0 or [1e-4, hi]; bits are monotone
        h.sym = x_sym(nm, 64, (int64_t)asu(h.lo), (int64_t)asu(h.hi)); h.val = Value(h.sym, 0);
        if (h.lo < 1e-4) S.pc.push_back(ex(v_or(v_cmp(E_EQ, 64, h.val, Value(0)), v_cmp(E_ULE, 64, Value(asu(1e-4)), h.val)), 1)); break; }
      case 's': { // signed double, magnitude 0 or [1e-4, hi], not -0
        h.sym = x_sym(nm, 64, INT64_MIN, INT64_MAX, 1); h.val = Value(h.sym, 0); Value mag = v_fun(E_FABS, h.val);
        Value in = v_and(v_cmp(E_ULE, 64, Value(asu(1e-4)), mag), v_cmp(E_ULE, 64, mag, Value(asu(h.hi))));
        S.pc.push_back(ex(v_or(v_cmp(E_EQ, 64, h.val, Value(0)), in), 1)); break; }
    }
  }
}

static std::vector<std::string> g_wit; static size_t g_nwit = 0, g_nextwit = 1;
static bool g_dump = false, g_emit = false; static std::string g_emitted[2][2];
static void run_session(FILE* out) {
  g_t0 = std::chrono::steady_clock::now();
  g_reuse = g_s->opt.count("reuse") && g_s->opt["reuse"];
  g_uninit = g_s->opt.count("uninit") && g_s->opt["uninit"];
  g_maxsteps = g_s->opt.count("maxsteps") ? g_s->opt["maxsteps"] : 20000000;
  if (g_s->opt.count("ub")) g_ub = g_s->opt["ub"];
  g_solver_timeout_ms = g_s->opt.count("smt_ms") ? g_s->opt["smt_ms"] : 10000;
  State* S0 = new State; S0->model = std::make_shared<Model>();
  for (auto& G : P.globals) { Obj* o = new Obj; o->size = G.size; o->bytes = (uint8_t*)malloc(G.size + 8); memcpy(o->bytes, G.init.data(), G.size); o->ro = G.constant; S0->objs.push_back(o); }
  make_holes(*S0);
  if (g_s->opt.count("interrupt") && g_s->opt["interrupt"]) { g_intAt = x_sym("int_at", 32, 0, g_s->opt["interrupt"]);
    if (g_s->opt.count("int2")) g_intD = x_sym("int_d", 32, 0, g_s->opt["int2"]);
    auto it = P.globByName.begin(); (void)it; }
  ensure_model(*S0);
  { Model m; int r = solve(S0->pc, x_const(1, 1), nullptr, m); (void)r; std::vector<X> pcs = S0->pc; S0->pc.clear(); for (X c : pcs) assume(*S0, Value(c, 0)); }
  std::vector<X> base = S0->pc; std::vector<std::vector<X>> leaves; size_t nleaf = 0;
  auto it = P.fnByName.find("sx_main"); if (it == P.fnByName.end()) { fprintf(stderr, "no sx_main\n"); exit(3); }
  push_frame(*S0, P.funcs[it->second].get(), {}, -1, nullptr);
  g_work.push_back(S0);
  double tmo = g_s->opt.count("timeout") ? g_s->opt["timeout"] : 60; long maxpaths = g_s->opt.count("maxpaths") ? g_s->opt["maxpaths"] : 100000;
  bool complete = true; uint64_t lastSig = 0; (void)lastSig;
  while (!g_work.empty()) {
    if (elapsed() > tmo || (long)g_st.paths >= maxpaths || g_work.size() > 20000) { complete = false; break; }
    State* S = g_work.back(); g_work.pop_back();
    uint64_t s0 = S->steps;
    try { run(*S); } catch (Kill& k) {
      if (k.why == 5) { complete = false; report(*S, "timeout", "time limit on one path"); }
      else if (k.why == 1) g_st.killedAssume++;
      else { g_st.paths++; if (k.why == 0) g_st.done++; if (k.why == 4) g_st.unsupported++; }
    }
    g_st.steps += S->steps - s0;
    if ((nleaf += S->pc.size()) < 2000000) leaves.push_back(S->pc);
    if (g_wit.size() < g_nwit && g_st.paths >= g_nextwit) { g_nextwit = g_nwit > 20 ? g_nextwit + 1 : g_nextwit * 2 + 1; ensure_model(*S); host_model(*S); std::string w = "{\"model\": " + model_json(*S->model) + ", \"out\": \"" + jesc(render(*S, S->out[0][0], *S->model)) + "\", \"err\": \"" + jesc(render(*S, S->out[0][1], *S->model)) + "\"}"; g_wit.push_back(w); }
    if (g_emit && g_st.paths <= 1) { ensure_model(*S); for (int w = 0; w < 2; w++) for (int s = 0; s < 2; s++) g_emitted[w][s] = render(*S, S->out[w][s], *S->model); }
    if (g_dump && g_st.paths <= 50) { fprintf(stderr, "---- path %lu model %s\n", (unsigned long)g_st.paths, model_json(*S->model).c_str()); ensure_model(*S); for (int w = 0; w < 2; w++) for (int s = 0; s < 2; s++) fprintf(stderr, "[w%d s%d] %s\n", w, s, render(*S, S->out[w][s], *S->model).c_str()); }
    delete S;
  }
  size_t left = g_work.size();
  // all paths explored: ask Z3 whether any value of the holes was left out
  int cover = -2; if (complete && !left && !g_st.unknown && nleaf < 2000000) { bool open = false; for (auto& l : leaves) if (l.size() > base.size()) open = true;
    if (open) { double room = tmo - elapsed(); cover = room > 1 ? solve_cover(leaves, base, (unsigned)std::min(g_solver_timeout_ms * 0.5, room * 500)) : -1; } else cover = leaves.empty() ? 0 : 2;
    if (cover == 0) { complete = false; g_st.notes.push_back("paths do not cover the domain"); } }
  fprintf(out, "{\"id\": \"%s\", \"complete\": %s, \"paths\": %lu, \"done\": %lu, \"errors\": %lu, \"limit\": %lu, \"unsupported\": %lu, \"unknown\": %lu, \"forks\": %lu, \"steps\": %lu, \"left\": %zu, \"compares\": %lu, \"queries\": %lu, \"sat\": %lu, \"unsat\": %lu, \"cachehits\": %lu, \"modelhits\": %lu, \"finite\": %lu, \"cover\": %d, \"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f",
    jesc(g_s->id).c_str(), complete && !left ? "true" : "false", g_st.paths, g_st.done, g_st.errors, g_st.limit, g_st.unsupported, g_st.unknown, g_st.forks, g_st.steps, left, g_st.compares, g_ss.queries, g_ss.sat, g_ss.unsat, g_ss.cacheHits, g_ss.modelHits, g_ss.finite, cover, g_ss.secs, g_ss.maxsecs, elapsed());
  fprintf(out, ", \"cands\": [");
  for (size_t i = 0; i < g_cands.size(); i++) fprintf(out, "%s{\"kind\": \"%s\", \"where\": \"%s\", \"detail\": \"%s\", \"model\": %s}", i ? ", " : "", jesc(g_cands[i].kind).c_str(), jesc(g_cands[i].where).c_str(), jesc(g_cands[i].detail).c_str(), g_cands[i].model.c_str());
  fprintf(out, "], \"wit\": ["); for (size_t i = 0; i < g_wit.size(); i++) fprintf(out, "%s%s", i ? ", " : "", g_wit[i].c_str());
  fprintf(out, "], \"notes\": ["); for (size_t i = 0; i < g_st.notes.size(); i++) fprintf(out, "%s\"%s\"", i ? ", " : "", jesc(g_st.notes[i]).c_str());
  fprintf(out, "], \"reach\": {"); bool first = true; for (auto& r : g_reach) { fprintf(out, "%s\"%s\": %ld", first ? "" : ", ", jesc(r.first).c_str(), r.second); first = false; }
  if (g_emit) { fprintf(out, "}, \"outs\": ["); for (int k = 0; k < 4; k++) fprintf(out, "%s\"%s\"", k ? ", " : "", jesc(g_emitted[k / 2][k % 2]).c_str()); fprintf(out, "], \"x\": {"); }
  fprintf(out, "}, \"funcs\": {"); first = true;
  for (auto& f : P.funcs) if (f->lowered && P.sutFuncs.count(f->name)) { size_t c = 0; for (auto b : f->covered) c += b; if (c) { fprintf(out, "%s\"%s\": [%zu, %zu]", first ? "" : ", ", f->name.c_str(), c, f->code.size()); first = false; } }
  fprintf(out, "}}\n"); fflush(out);
}

int main(int argc, char** argv) {
  int jobs = 1; const char* sess = nullptr; const char* outf = nullptr; std::vector<std::string> bc; std::string only;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-s") sess = argv[++i]; else if (a == "-o") outf = argv[++i]; else if (a == "-dump") g_dump = true; else if (a == "-emit") g_emit = true; else if (a == "-wit") g_nwit = atoi(argv[++i]); else if (a == "-only") only = argv[++i]; else bc.push_back(a); }
  init_ext();
  uint32_t next = 0; load_program(bc, P, next); g_nglob = next;
  g_extByFn.assign(P.funcs.size(), nullptr);
  for (auto& f : P.funcs) if (!f->lowered) { auto it = g_ext.find(f->name); if (it != g_ext.end()) g_extByFn[f->id] = &it->second; }
  // mark objects written by signal handlers lazily: wrap sx_signal
  { Ext old = g_ext["sx_signal"]; g_ext["sx_signal"] = [old](State& S, Args& a) { Value r = old(S, a); if (g_intAt) mark_watched(S, S.sigHandler); return r; }; for (auto& f : P.funcs) { if (f->name == "sx_signal") { g_extByFn[f->id] = &g_ext["sx_signal"]; f->poll = 1; } if (f->name == "sin") f->poll = 2; } }
  std::vector<Session> ss;
  { FILE* f = fopen(sess, "r"); if (!f) { perror(sess); return 3; } char* line = nullptr; size_t cap = 0; ssize_t n; Session cur; bool in = false;
    while ((n = getline(&line, &cap, f)) > 0) { std::string l(line, n); while (!l.empty() && l.back() == '\n') l.pop_back(); if (l.empty()) continue;
      size_t sp = l.find(' '); std::string k = l.substr(0, sp), r = sp == std::string::npos ? "" : l.substr(sp + 1);
      if (k == "session") { cur = Session(); cur.id = r; in = true; }
      else if (k == "opt") { size_t e = r.find('='); cur.opt[r.substr(0, e)] = atol(r.substr(e + 1).c_str()); }
      else if (k == "hole") { Hole h; char ty; int id; double lo = 0, hi = 0; int used = 0; sscanf(r.c_str(), "%c %d %lf %lf%n", &ty, &id, &lo, &hi, &used); h.type = ty; h.id = id; h.lo = lo; h.hi = hi; if (used && (size_t)used + 1 < r.size()) h.extra = r.substr(used + 1); cur.holes.push_back(h); }
      else if (k == "blob") { size_t e = r.find(' '); Blob b; b.name = r.substr(0, e); unesc(e == std::string::npos ? "" : r.substr(e + 1), &b); cur.blobs[b.name] = b; }
      else if (k == "arg") cur.args.push_back(unesc(r, nullptr));
      else if (k == "end") { if (in && (only.empty() || only == cur.id)) ss.push_back(cur); in = false; } }
    free(line); fclose(f); }
  FILE* out = outf ? fopen(outf, "w") : stdout;
  if (ss.size() == 1 && jobs == 1) { g_s = &ss[0]; run_session(out); return 0; }
  std::map<pid_t, std::pair<FILE*, size_t>> kids; size_t nx = 0; fflush(out);
  auto reap = [&] { int st; pid_t p = wait(&st); auto it = kids.find(p); if (it == kids.end()) return; FILE* t = it->second.first; rewind(t); char buf[65536]; size_t n, tot = 0; while ((n = fread(buf, 1, sizeof buf, t)) > 0) { fwrite(buf, 1, n, out); tot += n; } if (!tot) fprintf(out, "{\"id\": \"%s\", \"complete\": false, \"crashed\": true}\n", jesc(ss[it->second.second].id).c_str()); fclose(t); kids.erase(it); fflush(out); };
  while (nx < ss.size() || !kids.empty()) {
    if (nx < ss.size() && (int)kids.size() < jobs) {
      FILE* t = tmpfile(); pid_t p = fork();
      if (p == 0) { struct rlimit rl = { 6ull << 30, 6ull << 30 }; setrlimit(RLIMIT_AS, &rl); g_s = &ss[nx]; alarm((g_s->opt.count("timeout") ? g_s->opt["timeout"] : 60) + 15); run_session(t); fflush(t); _exit(0); }
      kids[p] = { t, nx++ };
    } else reap();
  }
  fclose(out); return 0;
}
