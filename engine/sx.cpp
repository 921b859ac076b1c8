// sx: bounded symbolic executor for LLVM IR (clang 18), Z3 back end.
// Every feasible path of the harness' vp_main() within the harness' own bounds is
// executed; branch feasibility, assertion validity and memory-safety of symbolic
// accesses are decided by domain reasoning over single bytes or by Z3.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <atomic>
using namespace llvm;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_t0, g_deadline = 1e18;
static bool g_verbose = false;
static u64 g_maxInstr = 200000000ull;     // instructions per path
static unsigned g_z3ms = 20000;
static std::string g_out = "sx.out";
static int g_jobs = 8; static unsigned g_frontier = 300; static unsigned g_seed = 1;
static unsigned g_maxViolPerKey = 3;

// ---------------------------------------------------------------- memory
struct Page { u32 rc; u32 n; Expr **sym; u8 d[]; };
static const u32 PS = 256;
struct Obj { u32 rc; u32 size; u32 np; u8 ro; u8 kind; Page *pg[]; };
static Obj FREEDOBJ; static Obj *const FREED = &FREEDOBJ;
static Page *pageNew(u32 n) { Page *p = (Page *)malloc(sizeof(Page) + n); p->rc = 1; p->n = n; p->sym = nullptr; memset(p->d, 0, n); return p; }
static void pageUnref(Page *p) { if (p && --p->rc == 0) { free(p->sym); free(p); } }
static Page *pageDup(Page *p) { Page *q = (Page *)malloc(sizeof(Page) + p->n); q->rc = 1; q->n = p->n; memcpy(q->d, p->d, p->n); q->sym = nullptr;
  if (p->sym) { q->sym = (Expr **)malloc(sizeof(Expr *) * p->n); memcpy(q->sym, p->sym, sizeof(Expr *) * p->n); } return q; }
static Obj *objNew(u32 size, int fill) { u32 np = (size + PS - 1) / PS; Obj *o = (Obj *)malloc(sizeof(Obj) + np * sizeof(Page *));
  o->rc = 1; o->size = size; o->np = np; o->ro = 0; o->kind = 0;
  for (u32 i = 0; i < np; i++) { if (!fill) o->pg[i] = nullptr; else { u32 n = std::min(PS, size - i * PS); o->pg[i] = pageNew(n); memset(o->pg[i]->d, fill, n); } } return o; }
static void objUnref(Obj *o) { if (!o || o == FREED) return; if (--o->rc == 0) { for (u32 i = 0; i < o->np; i++) pageUnref(o->pg[i]); free(o); } }
static Obj *objDup(Obj *o) { Obj *q = (Obj *)malloc(sizeof(Obj) + o->np * sizeof(Page *)); memcpy(q, o, sizeof(Obj) + o->np * sizeof(Page *)); q->rc = 1;
  for (u32 i = 0; i < o->np; i++) if (q->pg[i]) q->pg[i]->rc++; return q; }
static const u32 CH = 128;
struct Chunk { u32 rc; Obj *o[CH]; };
static void chunkUnref(Chunk *c) { if (--c->rc == 0) { for (u32 i = 0; i < CH; i++) objUnref(c->o[i]); delete c; } }
struct Table {
  std::vector<Chunk *> c;
  Table() {}
  Table(const Table &t) : c(t.c) { for (auto *x : c) x->rc++; }
  Table &operator=(const Table &) = delete;
  ~Table() { for (auto *x : c) chunkUnref(x); }
  Obj *get(u32 i) const { return i / CH < c.size() ? c[i / CH]->o[i % CH] : nullptr; }
  Chunk *wr(u32 ci) { while (ci >= c.size()) { Chunk *n = new Chunk; n->rc = 1; memset(n->o, 0, sizeof n->o); c.push_back(n); }
    Chunk *k = c[ci]; if (k->rc > 1) { Chunk *n = new Chunk; n->rc = 1; for (u32 i = 0; i < CH; i++) { n->o[i] = k->o[i]; if (n->o[i] && n->o[i] != FREED) n->o[i]->rc++; } k->rc--; c[ci] = k = n; } return k; }
  void set(u32 i, Obj *o) { Chunk *k = wr(i / CH); objUnref(k->o[i % CH]); k->o[i % CH] = o; }
  Obj *getW(u32 i) { Chunk *k = wr(i / CH); Obj *&o = k->o[i % CH]; if (o->rc > 1) { Obj *n = objDup(o); o->rc--; o = n; } return o; }
};
static const u32 STKBASE = 0x40000000u, FNBASE = 0x60000000u;
static const u64 OFF0 = 0x1000;
static inline u64 mkaddr(u32 id, u64 off = 0) { return ((u64)id << 32) | (OFF0 + off); }

// ---------------------------------------------------------------- decoded code
struct DFunc;
enum DOp : u16 { D_BIN, D_ICMP, D_FCMP, D_FBIN, D_FCVT, D_COPY, D_TRUNC, D_ZEXT, D_SEXT, D_SELECT, D_GEP, D_LOAD, D_STORE, D_ALLOCA,
  D_CALL, D_RET, D_BR, D_CBR, D_SWITCH, D_UNREACH, D_MOVES, D_NOP, D_UNSUP };
struct Edge { u32 pc; std::vector<std::pair<i32, i32>> mv; };
struct DI {
  DOp op; u8 w = 0, w2 = 0; u16 sub = 0; i32 dst = -1, a = 0, b = 0, c = 0; u64 imm = 0;
  std::vector<i32> args;                       // call args / gep idx / leaf list
  std::vector<u64> aux;                        // gep scales / leaf offsets / widths / switch values
  std::vector<Edge> edges; DFunc *callee = nullptr; const Instruction *I = nullptr;
};
struct State;
typedef Val (*Builtin)(State &, DI &, std::vector<Val> &);
struct DFunc {
  const Function *F; std::string name; bool decoded = false; Builtin bi = nullptr; bool checkedBi = false;
  u32 nregs = 0; std::vector<DI> code; std::vector<Val> K; std::vector<u32> argw; u32 nargs = 0;
  u64 calls = 0; std::vector<u8> hit;
};
struct Frame { DFunc *f; u32 pc; u32 base; u32 stk0; i32 retdst; u64 va; };

struct Dom { u64 b[4]; };
static inline bool dhas(const Dom &d, unsigned i) { return d.b[i >> 6] >> (i & 63) & 1; }
static inline unsigned dcount(const Dom &d) { unsigned n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(d.b[i]); return n; }

struct State {
  Table heap, stk; u32 nstk = 0; u32 nheap = 1;
  std::vector<Frame> fr; std::vector<Val> regs;
  std::vector<Dom> dom; std::vector<u8> ent; std::vector<Expr *> cons; std::vector<Expr *> asserted; std::vector<u64> model;
  std::vector<u32> inputs; std::vector<std::pair<const char *, Val>> trace;
  std::vector<std::pair<u32, u64>> concInputs; // (position, const) reserved
  u64 icount = 0; u32 depth = 0; u8 forced = 0; u64 locals = 0;
};
struct PathEnd { int why; };

static Module *M; static const DataLayout *DL; static LLVMContext *CTX;
static std::unordered_map<const Function *, DFunc *> g_funcs; static std::vector<DFunc *> g_fnById;
static std::unordered_map<const GlobalValue *, u32> g_gid; static std::vector<std::string> g_gname;

// statistics
struct Stats { u64 paths = 0, infeas = 0, viol = 0, errs = 0, cut = 0, forks = 0, queries = 0, qsat = 0, qunsat = 0, qunknown = 0, cachehits = 0, qretry = 0, domdec = 0, localsat = 0, instr = 0, asserts = 0, assertq = 0, unexplored = 0, pathq = 0, pathproved = 0, prunq = 0; double ztime = 0, audit = 0; } S;
static std::map<std::string, u64> g_reach; static std::map<std::string, u64> g_assertSeen;
static std::map<std::string, unsigned> g_violSeen; static std::map<std::string, u64> g_errSeen; static std::vector<std::string> g_outLines;
static std::vector<State *> g_work; static u32 g_witness = 0; static std::map<std::string, u32> g_witSig;
static int g_maxWitness = 12;
[[noreturn]] static void die(const std::string &s) { fprintf(stderr, "sx: %s\n", s.c_str()); exit(3); }
static void pathError(State &s, const std::string &msg);

// ---------------------------------------------------------------- Z3
static Z3_context zc; static std::vector<Z3_ast> zmemo;
static Z3_ast zkeep(Z3_ast a) { return a; }
static Z3_ast znum(u64 v, unsigned w) { return Z3_mk_unsigned_int64(zc, v, Z3_mk_bv_sort(zc, w)); }
static std::vector<Z3_ast> zvars;
static Z3_ast zvar(u32 id) {
  if (id >= zvars.size()) zvars.resize(id + 64, nullptr);
  if (!zvars[id]) { std::string n = "v" + std::to_string(id); zvars[id] = zkeep(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), Z3_mk_bv_sort(zc, g_vars[id].w))); }
  return zvars[id];
}
static Z3_ast z3of(Expr *e); // bit-vector of width w (width 1 as bv1)
static Z3_ast zb(Z3_ast boolE) { return Z3_mk_ite(zc, boolE, znum(1, 1), znum(0, 1)); }
static Z3_ast zbool(Expr *e) { return Z3_mk_eq(zc, z3of(e), znum(1, 1)); }
static Z3_ast ztabBool(u32 var, const u8 *in) {
  std::vector<Z3_ast> parts; Z3_ast v = zvar(var);
  for (int i = 0; i < 256;) { if (!in[i]) { i++; continue; } int j = i; while (j + 1 < 256 && in[j + 1]) j++;
    if (i == 0 && j == 255) return Z3_mk_true(zc);
    if (i == j) parts.push_back(Z3_mk_eq(zc, v, znum(i, 8)));
    else { Z3_ast x[2] = {Z3_mk_bvuge(zc, v, znum(i, 8)), Z3_mk_bvule(zc, v, znum(j, 8))}; parts.push_back(i == 0 ? x[1] : j == 255 ? x[0] : Z3_mk_and(zc, 2, x)); }
    i = j + 1; }
  if (parts.empty()) return Z3_mk_false(zc);
  return parts.size() == 1 ? parts[0] : Z3_mk_or(zc, parts.size(), parts.data());
}
static Z3_ast z3of(Expr *e) {
  if (e->id >= zmemo.size()) zmemo.resize(e->id * 2 + 64, nullptr);
  if (zmemo[e->id]) return zmemo[e->id];
  Z3_ast r = nullptr, a, b;
  switch (e->op) {
  case E_CONST: r = znum(e->val, e->w); break;
  case E_VAR: r = zvar(e->tvar); break;
  case E_TAB: {
    if (e->w == 1) { u8 in[256]; for (int i = 0; i < 256; i++) in[i] = e->tab[i] & 1; r = zb(ztabBool(e->tvar, in)); break; }
    // piecewise: constant or slope-1 segments
    Z3_ast v = zvar(e->tvar); Z3_ast vz = e->w > 8 ? Z3_mk_zero_ext(zc, e->w - 8, v) : e->w < 8 ? Z3_mk_extract(zc, e->w - 1, 0, v) : v;
    struct Seg { int lo, hi; int slope; }; std::vector<Seg> segs;
    for (int i = 0; i < 256;) { int j = i, sl = 0; u64 m = maskw(e->w);
      if (i + 1 < 256) { if (e->tab[i + 1] == e->tab[i]) sl = 0; else if (((e->tab[i + 1] - e->tab[i]) & m) == 1) sl = 1; }
      while (j + 1 < 256 && ((e->tab[j + 1] - e->tab[j]) & m) == (u64)sl) j++;
      segs.push_back({i, j, sl}); i = j + 1; }
    for (int k = (int)segs.size() - 1; k >= 0; k--) { Seg &g = segs[k]; Z3_ast x;
      if (g.slope) { u64 c = (e->tab[g.lo] - (u64)g.lo) & maskw(e->w); x = c ? Z3_mk_bvadd(zc, vz, znum(c, e->w)) : vz; } else x = znum(e->tab[g.lo], e->w);
      r = r ? Z3_mk_ite(zc, Z3_mk_bvule(zc, v, znum(g.hi, 8)), x, r) : x; }
    break; }
  case E_ITE: r = Z3_mk_ite(zc, zbool(e->a), z3of(e->b), z3of(e->c)); break;
  case E_CONCAT: r = Z3_mk_concat(zc, z3of(e->a), z3of(e->b)); break;
  case E_EXTRACT: r = Z3_mk_extract(zc, e->val + e->w - 1, e->val, z3of(e->a)); break;
  case E_ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, z3of(e->a)); break;
  case E_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, z3of(e->a)); break;
  default:
    a = z3of(e->a); b = z3of(e->b);
    switch (e->op) {
    case E_ADD: r = Z3_mk_bvadd(zc, a, b); break; case E_SUB: r = Z3_mk_bvsub(zc, a, b); break; case E_MUL: r = Z3_mk_bvmul(zc, a, b); break;
    case E_UDIV: r = Z3_mk_bvudiv(zc, a, b); break; case E_SDIV: r = Z3_mk_bvsdiv(zc, a, b); break;
    case E_UREM: r = Z3_mk_bvurem(zc, a, b); break; case E_SREM: r = Z3_mk_bvsrem(zc, a, b); break;
    case E_AND: r = Z3_mk_bvand(zc, a, b); break; case E_OR: r = Z3_mk_bvor(zc, a, b); break; case E_XOR: r = Z3_mk_bvxor(zc, a, b); break;
    case E_SHL: r = Z3_mk_bvshl(zc, a, b); break; case E_LSHR: r = Z3_mk_bvlshr(zc, a, b); break; case E_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
    case E_EQ: r = zb(Z3_mk_eq(zc, a, b)); break; case E_ULT: r = zb(Z3_mk_bvult(zc, a, b)); break; case E_ULE: r = zb(Z3_mk_bvule(zc, a, b)); break;
    case E_SLT: r = zb(Z3_mk_bvslt(zc, a, b)); break; case E_SLE: r = zb(Z3_mk_bvsle(zc, a, b)); break;
    default: die("z3of");
    }
  }
  return zmemo[e->id] = zkeep(r);
}
static Z3_solver zs; static unsigned zsuses = 0;
static void zinit() {
  Z3_config c = Z3_mk_config(); zc = Z3_mk_context(c); Z3_del_config(c);
  Z3_set_error_handler(zc, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); });
}
static Z3_solver newSolver() {
  Z3_tactic t1 = Z3_mk_tactic(zc, "simplify"); Z3_tactic_inc_ref(zc, t1); Z3_tactic t2 = Z3_mk_tactic(zc, "solve-eqs"); Z3_tactic_inc_ref(zc, t2);
  Z3_tactic t3 = Z3_mk_tactic(zc, "bit-blast"); Z3_tactic_inc_ref(zc, t3); Z3_tactic t4 = Z3_mk_tactic(zc, "sat"); Z3_tactic_inc_ref(zc, t4);
  Z3_tactic a = Z3_tactic_and_then(zc, t1, t2); Z3_tactic_inc_ref(zc, a); Z3_tactic b = Z3_tactic_and_then(zc, a, t3); Z3_tactic_inc_ref(zc, b);
  Z3_tactic d = Z3_tactic_and_then(zc, b, t4); Z3_tactic_inc_ref(zc, d);
  Z3_solver s = Z3_mk_solver_from_tactic(zc, d); Z3_solver_inc_ref(zc, s);
  Z3_tactic_dec_ref(zc, d); Z3_tactic_dec_ref(zc, b); Z3_tactic_dec_ref(zc, a); Z3_tactic_dec_ref(zc, t4); Z3_tactic_dec_ref(zc, t3); Z3_tactic_dec_ref(zc, t2); Z3_tactic_dec_ref(zc, t1);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), g_z3ms); Z3_solver_set_params(zc, s, p); Z3_params_dec_ref(zc, p);
  return s;
}
static Z3_solver getSolver() {
  if (zs && zsuses++ > 20000) { Z3_solver_dec_ref(zc, zs); zs = nullptr; zsuses = 0; }
  if (!zs) { zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), std::min<unsigned>(g_z3ms, 600)); Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p); }
  Z3_solver_push(zc, zs); return zs;
}
enum Sat { UNSAT, SAT, UNKNOWN };
struct CacheEnt { Sat r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<u64, CacheEnt> g_cache;
static u64 hm(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static inline bool single(Expr *e) { return e->op == E_TAB; }
static void ensureVar(State &s, u32 v) {
  if (v >= s.dom.size()) { s.dom.resize(v + 1, Dom{{~0ull, ~0ull, ~0ull, ~0ull}}); s.ent.resize(v + 1, 0); s.model.resize(v + 1, 0); }
}
// second decision by the SMT solver of what cheaper reasoning already decided, within a share of the run time
static bool auditBudget() { return S.audit < 1.0 || S.audit < 0.2 * (now() - g_t0); }
static void assertDom(Z3_solver z, u32 v, const Dom &d) { if (g_vars[v].w != 8 || (d.b[0] & d.b[1] & d.b[2] & d.b[3]) == ~0ull) return; u8 in[256]; for (int i = 0; i < 256; i++) in[i] = dhas(d, i); Z3_solver_assert(zc, z, ztabBool(v, in)); }
static void auditPrune(State &s, Expr *c, u32 v) {
  if (!auditBudget()) return; u64 key = hm(hm(77, c->id), v); for (int i = 0; i < 4; i++) key = hm(key, s.dom[v].b[i]); static std::unordered_map<u64, bool> seen; if (!seen.emplace(key, true).second) return;
  double t = now(); Z3_solver z = getSolver(); assertDom(z, v, s.dom[v]); Z3_solver_assert(zc, z, zbool(c)); Z3_lbool r = Z3_solver_check(zc, z); Z3_solver_pop(zc, z, 1); S.queries++; S.prunq++;
  if (r == Z3_L_TRUE) die("the solver disagrees with an infeasible branch"); if (r == Z3_L_FALSE) S.qunsat++; double dt = now() - t; S.audit += dt; S.ztime += dt;
}
// the condition of a finished path is satisfiable and implies everything asserted along it
static void auditPath(State &s) {
  if (!auditBudget()) return; double t = now(); Z3_solver z = getSolver();
  for (u32 v = 0; v < s.dom.size() && v < g_vars.size(); v++) assertDom(z, v, s.dom[v]);
  std::vector<Expr *> a; for (auto *e : s.asserted) if (e->op != E_CONST) a.push_back(e);
  for (auto *e : s.cons) { bool isA = false; for (auto *x : a) if (x == e) { isA = true; break; } if (!isA) Z3_solver_assert(zc, z, zbool(e)); }
  Z3_lbool r = Z3_solver_check(zc, z); S.queries++; S.pathq++; if (r == Z3_L_FALSE) die("the solver finds a finished path infeasible"); if (r == Z3_L_TRUE) S.qsat++;
  if (!a.empty() && S.viol == 0) { std::vector<Z3_ast> n; for (auto *e : a) n.push_back(Z3_mk_not(zc, zbool(e))); Z3_solver_assert(zc, z, n.size() == 1 ? n[0] : Z3_mk_or(zc, n.size(), n.data())); r = Z3_solver_check(zc, z); S.queries++; if (r == Z3_L_TRUE) die("the solver refutes an assertion that was taken to hold"); if (r == Z3_L_FALSE) { S.qunsat++; S.pathproved++; } }
  Z3_solver_pop(zc, z, 1); double dt = now() - t; S.audit += dt; S.ztime += dt;
}
// is (path ∧ c) satisfiable? on SAT, `m` receives a model of the whole path ∧ c
static Sat query(State &s, Expr *c, std::vector<u64> &m) {
  if (c->op == E_CONST) { m = s.model; return c->val ? SAT : UNSAT; }
  if (single(c)) {
    u32 v = c->tvar; const Dom &d = s.dom[v]; int pick = -1;
    for (int i = 0; i < 256; i++) if (dhas(d, i) && c->tab[i]) { pick = i; break; }
    if (pick < 0) { S.domdec++; auditPrune(s, c, v); return UNSAT; }
    if (!s.ent[v]) { S.domdec++; m = s.model; if (!c->tab[m[v] & 255]) m[v] = pick; return SAT; }
  }
  if (evalExpr(c, s.model)) { m = s.model; return SAT; }
  // slice
  static std::vector<u32> stamp; static u32 st = 0; if (stamp.size() < g_vars.size()) stamp.resize(g_vars.size() + 64, 0); st++;
  std::vector<u32> vs(c->deps->begin(), c->deps->end()); for (u32 v : vs) stamp[v] = st;
  std::vector<Expr *> sl; std::vector<u8> used(s.cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : *s.cons[i]->deps) if (stamp[v] == st) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; sl.push_back(s.cons[i]); for (u32 v : *s.cons[i]->deps) if (stamp[v] != st) { stamp[v] = st; vs.push_back(v); } } } }
  std::sort(sl.begin(), sl.end(), [](Expr *a, Expr *b) { return a->id < b->id; }); std::sort(vs.begin(), vs.end());
  u64 key = hm(1, c->id); for (auto *e : sl) key = hm(key, e->id); for (u32 v : vs) { key = hm(key, v); if (g_vars[v].w == 8) for (int i = 0; i < 4; i++) key = hm(key, s.dom[v].b[i]); }
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { S.cachehits++; if (it->second.r == SAT) { m = s.model; for (auto &p : it->second.m) m[p.first] = p.second; } return it->second.r; }
  // cheap search for a model that differs from the current one in a single byte
  { std::vector<u64> mm = s.model; size_t nv = c->deps->size(); if (nv <= 6) for (u32 v : *c->deps) { if (g_vars[v].w != 8) continue; u64 old = mm[v]; const Dom &d = s.dom[v];
      for (int i = 0; i < 256; i++) { if (!dhas(d, i)) continue; mm[v] = i; if (!evalExpr(c, mm)) continue; bool ok = true; for (auto *e : sl) if (!evalExpr(e, mm)) { ok = false; break; } if (ok) { m = mm; S.localsat++; return SAT; } }
      mm[v] = old; } }
  double t = now(); S.queries++;
  Z3_solver z = getSolver(), z1 = z; Z3_lbool r;
 again:
  for (auto *e : sl) Z3_solver_assert(zc, z, zbool(e));
  Z3_solver_assert(zc, z, zbool(c));
  for (u32 v : vs) if (g_vars[v].w == 8) { const Dom &d = s.dom[v]; if ((d.b[0] & d.b[1] & d.b[2] & d.b[3]) == ~0ull) continue; u8 in[256]; for (int i = 0; i < 256; i++) in[i] = dhas(d, i); Z3_solver_assert(zc, z, ztabBool(v, in)); }
  r = Z3_solver_check(zc, z); if (r == Z3_L_UNDEF && z == z1) { z = newSolver(); S.qretry++; goto again; }   /* second opinion: eager bit-blasting */
  CacheEnt ce; ce.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (r == Z3_L_TRUE) { m = s.model; Z3_model zm = Z3_solver_get_model(zc, z); Z3_model_inc_ref(zc, zm);
    for (u32 v : vs) { Z3_ast o; u64 val = 0; if (Z3_model_eval(zc, zm, zvar(v), true, &o)) { Z3_get_numeral_uint64(zc, o, (uint64_t *)&val); } ce.m.push_back({v, val}); m[v] = val; }
    Z3_model_dec_ref(zc, zm); S.qsat++;
    if (!evalExpr(c, m)) die("model does not satisfy query (encoding bug)");
  } else if (r == Z3_L_FALSE) S.qunsat++; else S.qunknown++;
  if (z != z1) Z3_solver_dec_ref(zc, z); Z3_solver_pop(zc, z1, 1); double dt = now() - t; S.ztime += dt;
  if (g_verbose && dt > 2) fprintf(stderr, "slow query %.1fs r=%d nc=%zu nv=%zu\n", dt, (int)ce.r, sl.size(), vs.size());
  if (ce.r != UNKNOWN) { if (g_cache.size() > 400000) g_cache.clear(); g_cache[key] = ce; }
  return ce.r;
}
static void addCons(State &s, Expr *c) { // current model must satisfy c
  if (c->op == E_CONST) return;
  if (c->op == E_AND) { addCons(s, c->a); addCons(s, c->b); return; }
  if (c->op == E_XOR && c->b->op == E_CONST && c->a->op == E_OR) { addCons(s, mkNot(c->a->a)); addCons(s, mkNot(c->a->b)); return; }
  if (c->op == E_TAB) { Dom &d = s.dom[c->tvar]; Dom n = {{0, 0, 0, 0}}; for (int i = 0; i < 256; i++) if (c->tab[i] && dhas(d, i)) n.b[i >> 6] |= 1ull << (i & 63); d = n; return; }
  for (auto *e : s.cons) if (e == c) return;
  s.cons.push_back(c); for (u32 v : *c->deps) s.ent[v] = 1;
}
// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string &s) { std::string r; char b[8]; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }
static std::string locOf(const Instruction *I) {
  if (!I) return "?"; std::string r = I->getFunction()->getName().str();
  if (const DebugLoc &d = I->getDebugLoc()) { r += "@"; if (auto *sc = dyn_cast_or_null<DIScope>(d.getScope())) { std::string f = sc->getFilename().str(); size_t p = f.rfind('/'); r += p == std::string::npos ? f : f.substr(p + 1); } r += ":" + std::to_string(d.getLine()); }
  return r;
}
static std::string stackOf(State &s) { std::string r; int n = 0; for (int i = (int)s.fr.size() - 1; i >= 0 && n < 12; i--, n++) { Frame &f = s.fr[i]; if (!r.empty()) r += " < "; r += f.pc < f.f->code.size() ? locOf(f.f->code[f.pc].I) : f.f->name; } return r; }
static std::string inputsOf(State &s, const std::vector<u64> &m) {
  std::string r = "["; for (size_t i = 0; i < s.inputs.size(); i++) { u32 v = s.inputs[i]; if (i) r += ","; r += "[\"" + jesc(g_vars[v].name) + "\"," + std::to_string(g_vars[v].w) + "," + std::to_string(v < m.size() ? m[v] : 0) + "]"; } return r + "]";
}
static void violation(State &s, const std::string &kind, const std::string &msg, const std::vector<u64> &m) {
  std::string loc = s.fr.empty() ? "?" : locOf(s.fr.back().f->code[s.fr.back().pc].I);
  std::string fn = s.fr.empty() ? "?" : s.fr.back().f->name;
  std::string key = kind == "assert" ? kind + ":" + msg : kind + ":" + fn;
  S.viol++;
  if (g_violSeen[key]++ >= g_maxViolPerKey) return;
  std::string l = "{\"t\":\"viol\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"key\":\"" + jesc(key) + "\",\"loc\":\"" + jesc(loc) + "\",\"stack\":\"" + jesc(stackOf(s)) + "\",\"inputs\":" + inputsOf(s, m) + "}";
  g_outLines.push_back(l); if (g_verbose) fprintf(stderr, "%s\n", l.c_str());
}
static void pathError(State &s, const std::string &msg) {
  S.errs++; std::string k = msg + " at " + stackOf(s); if (g_errSeen[msg]++ < 3) { g_outLines.push_back("{\"t\":\"err\",\"msg\":\"" + jesc(k) + "\",\"inputs\":" + inputsOf(s, s.model) + "}"); if (g_verbose) fprintf(stderr, "ERR %s\n", k.c_str()); }
  throw PathEnd{2};
}
[[noreturn]] static void memError(State &s, const std::string &msg) { violation(s, "memory", msg, s.model); throw PathEnd{1}; }

static u64 g_nextStateWork = 0;
static State *forkState(State &s, std::vector<u64> &&m) { State *n = new State(s); n->model = std::move(m); n->depth++; s.depth++; S.forks++; g_work.push_back(n); return n; }

// decide a 1-bit symbolic condition at the current (not yet executed) instruction; other side is re-executed from there
static bool decide(State &s, Expr *c) {
  if (s.forced) { bool r = s.forced == 2; s.forced = 0; return r; }
  if (c->op == E_CONST) return c->val;
  bool cur = evalExpr(c, s.model); Expr *other = cur ? mkNot(c) : c; std::vector<u64> m;
  Sat r = query(s, other, m);
  if (r == SAT) { State *n = forkState(s, std::move(m)); addCons(*n, other); n->forced = cur ? 1 : 2; addCons(s, cur ? c : mkNot(c)); }
  else { if (r == UNKNOWN) { S.unexplored++; addCons(s, cur ? c : mkNot(c)); } else if (c->op == E_TAB) addCons(s, cur ? c : mkNot(c)); }
  return cur;
}
// like decide but the other side re-evaluates (used where re-execution re-derives the outcome)
static bool decideRe(State &s, Expr *c) {
  if (c->op == E_CONST) return c->val;
  bool cur = evalExpr(c, s.model); Expr *other = cur ? mkNot(c) : c; std::vector<u64> m;
  Sat r = query(s, other, m);
  if (r == SAT) { State *n = forkState(s, std::move(m)); addCons(*n, other); addCons(s, cur ? c : mkNot(c)); }
  else { if (r == UNKNOWN) { S.unexplored++; addCons(s, cur ? c : mkNot(c)); } else if (c->op == E_TAB) addCons(s, cur ? c : mkNot(c)); }
  return cur;
}
static u64 concretize(State &s, Val v, unsigned w) {
  if (!v.e) return v.v;
  u64 c = evalExpr(v.e, s.model); Expr *eq = mk2(E_EQ, v.e, mkConst(c, w));
  decideRe(s, eq); // eq holds in the current model, so we stay on it
  return c;
}
// ---------------------------------------------------------------- access
static inline Obj *lookup(State &s, u32 id) { if (id >= STKBASE) { if (id >= FNBASE) return nullptr; u32 k = id - STKBASE; return k < s.nstk ? s.stk.get(k) : nullptr; } return s.heap.get(id); }
static std::string objDesc(u32 id) { if (id == 0) return "null"; if (id < g_gname.size() && !g_gname[id].empty()) return "global " + g_gname[id]; return id >= FNBASE ? "function" : id >= STKBASE ? "stack object" : "heap object"; }
static bool accOK(State &s, u64 addr, u64 n, bool wr, std::string *why) {
  u32 id = addr >> 32; i64 off = (i64)(addr & 0xffffffffu) - (i64)OFF0;
  if (id == 0) { if (why) *why = addr < 0x10000 ? "null pointer dereference" : "wild pointer dereference"; return false; }
  if (n == 0) return true;
  Obj *o = lookup(s, id);
  if (!o) { if (why) *why = id >= STKBASE && id < FNBASE ? "use of dead stack object" : "invalid pointer dereference"; return false; }
  if (o == FREED) { if (why) *why = "use after free"; return false; }
  if (off < 0 || (u64)off + n > o->size) { if (why) *why = std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " at offset " + std::to_string(off) + " of " + objDesc(id) + " (" + std::to_string(o->size) + " bytes)"; return false; }
  if (wr && o->ro) { if (why) *why = "write to constant " + objDesc(id); return false; }
  return true;
}
static void chk(State &s, u64 addr, u64 n, bool wr) { std::string why; if (__builtin_expect(!accOK(s, addr, n, wr, &why), 0)) memError(s, why); }
static inline Expr *symAt(Page *p, u32 i) { return p && p->sym ? p->sym[i] : nullptr; }
static Val loadRaw(Obj *o, u64 off, unsigned n, unsigned w) {
  u32 pi = off / PS, po = off % PS;
  if (po + n <= PS) { Page *p = o->pg[pi]; if (!p) return C(0);
    if (!p->sym) { u64 v = 0; memcpy(&v, p->d + po, n); return C(v & maskw(w)); } }
  bool any = false; u64 v = 0;
  for (unsigned i = 0; i < n; i++) { u64 k = off + i; Page *p = o->pg[k / PS]; if (!p) continue; if (symAt(p, k % PS)) any = true; v |= (u64)p->d[k % PS] << (8 * i); }
  if (!any) return C(v & maskw(w));
  Expr *r = nullptr;
  for (int i = n - 1; i >= 0; i--) { u64 k = off + i; Page *p = o->pg[k / PS]; Expr *e = symAt(p, k % PS); if (!e) e = mkConst(p ? p->d[k % PS] : 0, 8); r = r ? mkConcat(r, e) : e; }
  if (r->w > w) r = mkExtract(r, 0, w);
  return fromE(r);
}
static Obj *objW(State &s, u32 id) { return id >= STKBASE ? s.stk.getW(id - STKBASE) : s.heap.getW(id); }
static Page *pageW(Obj *o, u32 pi) { Page *p = o->pg[pi]; if (!p) { return o->pg[pi] = pageNew(std::min(PS, o->size - pi * PS)); } if (p->rc > 1) { Page *q = pageDup(p); p->rc--; o->pg[pi] = p = q; } return p; }
static void putByte(Obj *o, u64 k, u8 v, Expr *e) { Page *p = pageW(o, k / PS); u32 i = k % PS;
  if (e && e->op == E_CONST) { v = e->val; e = nullptr; }
  p->d[i] = v; if (e) { if (!p->sym) { p->sym = (Expr **)calloc(p->n, sizeof(Expr *)); } p->sym[i] = e; } else if (p->sym) p->sym[i] = nullptr; }
static void storeRaw(Obj *o, u64 off, unsigned n, unsigned w, Val v) {
  if (!v.e) { u64 x = v.v & maskw(w); u32 po = off % PS; if (po + n <= PS) { Page *p = pageW(o, off / PS); memcpy(p->d + po, &x, n); if (p->sym) for (unsigned i = 0; i < n; i++) p->sym[po + i] = nullptr; return; }
    for (unsigned i = 0; i < n; i++) putByte(o, off + i, x >> (8 * i), nullptr); return; }
  Expr *e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) putByte(o, off + i, 0, mkExtract(e, i * 8, 8));
}
static Val loadC(State &s, u64 addr, unsigned n, unsigned w) { chk(s, addr, n, false); return loadRaw(lookup(s, addr >> 32), (addr & 0xffffffff) - OFF0, n, w); }
static void storeC(State &s, u64 addr, unsigned n, unsigned w, Val v) { chk(s, addr, n, true); storeRaw(objW(s, addr >> 32), (addr & 0xffffffff) - OFF0, n, w, v); }

// symbolic pointer: returns a concrete address (after forking), or -1 when *out was filled by a table/ite load
static bool symLoad(State &s, Expr *p, unsigned n, unsigned w, Val &out) {
  if (p->op == E_TAB) {
    u32 v = p->tvar; Dom d = s.dom[v]; u64 ca = p->tab[s.model[v] & 255]; u32 id = ca >> 32; bool good = true;
    // values whose access differs (object/validity) from the model's one are split off
    std::string why; bool cok = accOK(s, ca, n, false, &why); u64 t[256];
    for (int i = 0; i < 256; i++) { t[i] = 0; if (!dhas(d, i)) { t[i] = 1; continue; } bool ok = accOK(s, p->tab[i], n, false, nullptr); t[i] = cok ? ok && (p->tab[i] >> 32) == id : !ok; if (!t[i]) good = false; }
    if (!good) { Expr *c = mkTab(v, 1, t); decideRe(s, c); d = s.dom[v]; }
    if (!cok) memError(s, why);
    // one object now
    Obj *o = lookup(s, id); bool anysym = false; u64 r[256]; std::map<u64, Val> byaddr;
    for (int i = 0; i < 256; i++) { r[i] = 0; if (!dhas(d, i)) continue; u64 a = p->tab[i]; auto it = byaddr.find(a); if (it == byaddr.end()) it = byaddr.emplace(a, loadRaw(o, (a & 0xffffffff) - OFF0, n, w)).first; if (it->second.e) anysym = true; r[i] = it->second.v; }
    if (!anysym) { // fill unused domain values with an in-domain value: keeps tables small
      out = fromE(mkTab(v, w, r)); return true; }
    if (byaddr.size() <= 24) { Expr *res = nullptr; for (auto &kv : byaddr) { Expr *ve = toE(kv.second, w); if (!res) { res = ve; continue; } u64 tt[256]; for (int i = 0; i < 256; i++) tt[i] = dhas(d, i) && p->tab[i] == kv.first; res = mkIte(mkTab(v, 1, tt), ve, res); }
      out = fromE(res); return true; }
    return false;
  }
  return false;
}
static u64 resolvePtr(State &s, Val pv, u64 n, bool wr) {
  if (!pv.e) { return pv.v; }
  Expr *p = pv.e; u64 ca = evalExpr(p, s.model); std::string why;
  if (p->op != E_TAB) {
    if (accOK(s, ca, n, wr, &why)) { // separate the out-of-object addresses first
      Obj *o = lookup(s, ca >> 32); u64 lo = mkaddr(ca >> 32), span = o->size - n; Expr *in = mk2(E_ULE, mk2(E_SUB, p, mkConst(lo, 64)), mkConst(span, 64));
      decideRe(s, in);
    } else { // keep only this value
      concretize(s, pv, 64); memError(s, why); }
  }
  return concretize(s, pv, 64);
}
static u32 stackAlloc(State &s, u64 size) { u32 k = s.nstk++; s.stk.set(k, objNew(size, 0xAA)); return STKBASE + k; }
static u32 heapAlloc(State &s, u64 size, int fill) { u32 id = s.nheap++; if (id >= STKBASE) die("heap ids exhausted"); s.heap.set(id, objNew(size, fill)); return id; }
static void copyBytes(State &s, u64 dst, u64 src, u64 n) {
  if (!n) return; chk(s, src, n, false); chk(s, dst, n, true);
  Obj *so = lookup(s, src >> 32); u64 sf = (src & 0xffffffff) - OFF0, df = (dst & 0xffffffff) - OFF0;
  bool anysym = false; for (u64 k = sf / PS; k <= (sf + n - 1) / PS; k++) if (so->pg[k] && so->pg[k]->sym) anysym = true;
  std::vector<u8> b(n); for (u64 i = 0; i < n;) { u64 k = sf + i; u32 po = k % PS; u64 m = std::min<u64>(n - i, PS - po); Page *p = so->pg[k / PS]; if (p) memcpy(&b[i], p->d + po, m); else memset(&b[i], 0, m); i += m; }
  std::vector<Expr *> e; if (anysym) { e.resize(n); for (u64 i = 0; i < n; i++) { u64 k = sf + i; e[i] = symAt(so->pg[k / PS], k % PS); } }
  Obj *o = objW(s, dst >> 32);
  for (u64 i = 0; i < n;) { u64 k = df + i; u32 po = k % PS; u64 m = std::min<u64>(n - i, PS - po); Page *p = pageW(o, k / PS); memcpy(p->d + po, &b[i], m);
    if (anysym) { for (u64 j = 0; j < m; j++) { if (e[i + j]) { if (!p->sym) p->sym = (Expr **)calloc(p->n, sizeof(Expr *)); p->sym[po + j] = e[i + j]; } else if (p->sym) p->sym[po + j] = nullptr; } } else if (p->sym) for (u64 j = 0; j < m; j++) p->sym[po + j] = nullptr;
    i += m; }
}
static void setBytes(State &s, u64 dst, Val c, u64 n) {
  if (!n) return; chk(s, dst, n, true); Obj *o = objW(s, dst >> 32); u64 df = (dst & 0xffffffff) - OFF0;
  if (c.e) { for (u64 i = 0; i < n; i++) putByte(o, df + i, 0, c.e); return; }
  for (u64 i = 0; i < n;) { u64 k = df + i; u32 po = k % PS; u64 m = std::min<u64>(n - i, PS - po); Page *p = pageW(o, k / PS); memset(p->d + po, c.v, m); if (p->sym) for (u64 j = 0; j < m; j++) p->sym[po + j] = nullptr; i += m; }
}
static std::string cstr(State &s, Val v, unsigned max = 300) { std::string r; u64 a = v.e ? evalExpr(v.e, s.model) : v.v; if (!accOK(s, a, 1, false, nullptr)) return "?"; for (unsigned i = 0; i < max; i++) { if (!accOK(s, a + i, 1, false, nullptr)) break; Val b = loadRaw(lookup(s, a >> 32), (a & 0xffffffff) - OFF0 + i, 1, 8); u8 c = b.e ? evalExpr(b.e, s.model) : b.v; if (!c) break; r += c; } return r; }
static const char *intern(const std::string &s) { static std::set<std::string> t; return t.insert(s).first->c_str(); }

// ---------------------------------------------------------------- decoding
static u32 fnId(const Function *F) { return g_gid.at(F); }
static void leaves(Type *T, u64 off, std::vector<std::pair<Type *, u64>> &out) {
  if (auto *ST = dyn_cast<StructType>(T)) { const StructLayout *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) leaves(ST->getElementType(i), off + L->getElementOffset(i), out); }
  else if (auto *AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); i++) leaves(AT->getElementType(), off + i * es, out); }
  else out.push_back({T, off});
}
static unsigned nslots(Type *T) { if (T->isVoidTy()) return 0; if (!T->isAggregateType()) return 1; std::vector<std::pair<Type *, u64>> l; leaves(T, 0, l); return l.size(); }
static unsigned widthOf(Type *T) { if (T->isPointerTy()) return 64; if (auto *I = dyn_cast<IntegerType>(T)) return I->getBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 0; }
static u64 constAddr(const Constant *c);
static Val constScalar(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return C(ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().getLoBits(64).getZExtValue());
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return C(0);
  if (auto *fp = dyn_cast<ConstantFP>(c)) return C(fp->getValueAPF().bitcastToAPInt().getLoBits(64).getZExtValue());
  return C(constAddr(c));
}
static u64 constAddr(const Constant *c) {
  if (auto *gv = dyn_cast<GlobalAlias>(c)) return constAddr(gv->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = g_gid.find(gv); if (it == g_gid.end()) die("unknown global " + gv->getName().str()); return mkaddr(it->second); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto cv = [&](unsigned i) { return constScalar(ce->getOperand(i)).v; };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) die("gep constexpr"); return constScalar(cast<Constant>(g->getPointerOperand())).v + off.getSExtValue(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::AddrSpaceCast: return cv(0) & maskw(widthOf(ce->getType()));
    case Instruction::Add: return (cv(0) + cv(1)) & maskw(widthOf(ce->getType()));
    case Instruction::Sub: return (cv(0) - cv(1)) & maskw(widthOf(ce->getType()));
    case Instruction::ICmp: { bool eq = cv(0) == cv(1); auto p = (CmpInst::Predicate)ce->getPredicate(); return p == CmpInst::ICMP_EQ ? eq : !eq; }
    default: break;
    }
  }
  std::string t; raw_string_ostream o(t); c->print(o); die("constant " + o.str()); 
}
static void constFlat(const Constant *c, Type *T, std::vector<Val> &out) {
  if (!T->isAggregateType()) { out.push_back(constScalar(c)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (unsigned i = 0; i < nslots(T); i++) out.push_back(C(0)); return; }
  unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
  for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); constFlat(e, e->getType(), out); }
}
struct Decoder {
  DFunc *f; std::unordered_map<const Value *, i32> reg; std::map<std::pair<u64, unsigned>, i32> kmap; std::unordered_map<const BasicBlock *, u32> bbpc;
  i32 kons(u64 v) { auto it = kmap.find({v, 0}); if (it != kmap.end()) return it->second; f->K.push_back(C(v)); return kmap[{v, 0}] = ~(i32)(f->K.size() - 1); }
  i32 newRegs(unsigned n) { i32 r = f->nregs; f->nregs += n; return r; }
  i32 opAt(const Value *v, unsigned slot) { // slot of flattened value
    if (auto *c = dyn_cast<Constant>(v)) { std::vector<Val> k; constFlat(c, v->getType(), k); return kons(k[slot].v); }
    auto it = reg.find(v); if (it == reg.end()) die("no reg in " + f->name); return it->second + slot;
  }
  i32 op(const Value *v) { if (isa<MetadataAsValue>(v)) return kons(0); return opAt(v, 0); }
  Edge edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.pc = 0; for (auto &ph : to->phis()) { const Value *v = ph.getIncomingValueForBlock(from); unsigned n = nslots(ph.getType()); for (unsigned i = 0; i < n; i++) { i32 d = reg[&ph] + i; i32 sr = isa<UndefValue>(v) ? kons(0) : opAt(v, i); if (sr != d) e.mv.push_back({d, sr}); } } return e; }
  void run();
};
static unsigned icmpSub(CmpInst::Predicate p, bool &sw, bool &neg) {
  sw = neg = false;
  switch (p) { case CmpInst::ICMP_EQ: return E_EQ; case CmpInst::ICMP_NE: neg = true; return E_EQ; case CmpInst::ICMP_ULT: return E_ULT; case CmpInst::ICMP_ULE: return E_ULE;
  case CmpInst::ICMP_UGT: sw = true; return E_ULT; case CmpInst::ICMP_UGE: sw = true; return E_ULE; case CmpInst::ICMP_SLT: return E_SLT; case CmpInst::ICMP_SLE: return E_SLE;
  case CmpInst::ICMP_SGT: sw = true; return E_SLT; case CmpInst::ICMP_SGE: sw = true; return E_SLE; default: die("icmp"); }
}
static unsigned aggOffset(Type *T, ArrayRef<unsigned> idx) { unsigned o = 0; for (unsigned i : idx) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) o += nslots(ST->getElementType(k)); T = ST->getElementType(i); } else { Type *E = T->getArrayElementType(); o += i * nslots(E); T = E; } } return o; }
static std::map<std::string, Builtin> g_builtins;
static DFunc *getFn(const Function *F) { return g_funcs.at(F); }

void Decoder::run() {
  const Function &F = *f->F;
  for (auto &a : F.args()) { reg[&a] = newRegs(1); f->argw.push_back(widthOf(a.getType())); }
  f->nargs = F.arg_size();
  for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = newRegs(std::max(1u, nslots(I.getType())));
  std::vector<std::pair<u32, std::vector<const BasicBlock *>>> fix;
  for (auto &B : F) {
    bbpc[&B] = f->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { switch (ii->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::vaend: case Intrinsic::stackrestore: case Intrinsic::prefetch: continue; default: break; } }
      DI d; d.I = &I; d.op = D_UNSUP; if (reg.count(&I)) d.dst = reg[&I];
      unsigned w = widthOf(I.getType());
      switch (I.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (!w || w > 64) break; static std::map<unsigned, Op> mp = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
        d.op = D_BIN; d.sub = mp[I.getOpcode()]; d.w = w; d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); break; }
      case Instruction::ICmp: { unsigned ow = widthOf(I.getOperand(0)->getType()); if (!ow || ow > 64) break; bool sw, ng; d.sub = icmpSub(cast<ICmpInst>(I).getPredicate(), sw, ng); d.op = D_ICMP; d.w = ow; d.imm = ng; d.a = op(I.getOperand(sw)); d.b = op(I.getOperand(!sw)); break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: d.op = D_FBIN; d.sub = I.getOpcode(); d.w = w; d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); break;
      case Instruction::FNeg: d.op = D_FBIN; d.sub = I.getOpcode(); d.w = w; d.a = op(I.getOperand(0)); d.b = d.a; break;
      case Instruction::FCmp: d.op = D_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.w = widthOf(I.getOperand(0)->getType()); d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); break;
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: d.op = D_FCVT; d.sub = I.getOpcode(); d.w = w; d.w2 = widthOf(I.getOperand(0)->getType()); d.a = op(I.getOperand(0)); break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: { unsigned ow = widthOf(I.getOperand(0)->getType()); if (!w || w > 64 || ow > 64) break; d.op = I.getOpcode() == Instruction::Trunc ? D_TRUNC : I.getOpcode() == Instruction::ZExt ? D_ZEXT : D_SEXT; d.w = w; d.w2 = ow; d.a = op(I.getOperand(0)); break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned ow = widthOf(I.getOperand(0)->getType()); d.op = w < ow ? D_TRUNC : w > ow ? D_ZEXT : D_COPY; d.w = w; d.w2 = ow; d.imm = 1; d.a = op(I.getOperand(0)); break; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: { if (I.getType()->isVectorTy()) break; unsigned n = nslots(I.getType()); d.op = D_COPY; d.imm = n; d.a = op(I.getOperand(0)); d.w = w; break; }
      case Instruction::Select: { if (I.getType()->isVectorTy()) break; d.op = D_SELECT; d.w = w; d.a = op(I.getOperand(0)); d.imm = nslots(I.getType()); d.sub = I.getType()->isPointerTy(); for (unsigned k = 0; k < d.imm; k++) { d.args.push_back(opAt(I.getOperand(1), k)); d.args.push_back(opAt(I.getOperand(2), k)); } break; }
      case Instruction::GetElementPtr: { auto &g = cast<GetElementPtrInst>(I); d.op = D_GEP; d.a = op(g.getPointerOperand()); i64 off = 0; for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) { Value *ix = ti.getOperand(); if (StructType *ST = ti.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          u64 sc = DL->getTypeAllocSize(ti.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (i64)sc; else { d.args.push_back(op(ix)); d.aux.push_back(sc); d.aux.push_back(widthOf(ix->getType())); } } d.imm = off; break; }
      case Instruction::Alloca: { auto &a = cast<AllocaInst>(I); d.op = D_ALLOCA; d.imm = DL->getTypeAllocSize(a.getAllocatedType()); d.a = op(a.getArraySize()); break; }
      case Instruction::Load: { d.op = D_LOAD; d.a = op(I.getOperand(0)); if (I.getType()->isVectorTy()) { d.op = D_UNSUP; break; } std::vector<std::pair<Type *, u64>> l; leaves(I.getType(), 0, l); for (auto &x : l) { unsigned lw = widthOf(x.first); if (!lw || lw > 64) d.op = D_UNSUP; d.aux.push_back(x.second); d.aux.push_back(lw); } break; }
      case Instruction::Store: { Value *v = I.getOperand(0); d.op = D_STORE; d.a = op(I.getOperand(1)); if (v->getType()->isVectorTy()) { d.op = D_UNSUP; break; } if (v->getType()->isX86_FP80Ty() && isa<Constant>(v) && cast<Constant>(v)->isNullValue()) { d.aux = {0, 64, 8, 16}; d.args = {kons(0), kons(0)}; break; } std::vector<std::pair<Type *, u64>> l; leaves(v->getType(), 0, l); for (unsigned k = 0; k < l.size(); k++) { unsigned lw = widthOf(l[k].first); if (!lw || lw > 64) d.op = D_UNSUP; d.aux.push_back(l[k].second); d.aux.push_back(lw); d.args.push_back(isa<UndefValue>(v) ? kons(0) : opAt(v, k)); } break; }
      case Instruction::ExtractValue: { auto &x = cast<ExtractValueInst>(I); unsigned o = aggOffset(x.getAggregateOperand()->getType(), x.getIndices()); d.op = D_COPY; d.imm = nslots(I.getType()); d.w = w; d.a = isa<Constant>(x.getAggregateOperand()) ? opAt(x.getAggregateOperand(), o) : reg[x.getAggregateOperand()] + o; break; }
      case Instruction::InsertValue: { auto &x = cast<InsertValueInst>(I); unsigned o = aggOffset(I.getType(), x.getIndices()), n = nslots(I.getType()), m = nslots(x.getInsertedValueOperand()->getType()); d.op = D_MOVES; Edge e; e.pc = 0; for (unsigned k = 0; k < n; k++) { i32 sr = (k >= o && k < o + m) ? opAt(x.getInsertedValueOperand(), k - o) : opAt(x.getAggregateOperand(), k); e.mv.push_back({d.dst + (i32)k, sr}); } d.edges.push_back(e); break; }
      case Instruction::Ret: { d.op = D_RET; if (I.getNumOperands()) { Value *v = I.getOperand(0); unsigned n = nslots(v->getType()); for (unsigned k = 0; k < n; k++) d.args.push_back(opAt(v, k)); } break; }
      case Instruction::Br: { auto &b = cast<BranchInst>(I); d.op = b.isConditional() ? D_CBR : D_BR; if (b.isConditional()) d.a = op(b.getCondition()); std::vector<const BasicBlock *> t; for (unsigned k = 0; k < b.getNumSuccessors(); k++) { d.edges.push_back(edge(&B, b.getSuccessor(k))); t.push_back(b.getSuccessor(k)); } fix.push_back({(u32)f->code.size(), t}); break; }
      case Instruction::Switch: { auto &sw = cast<SwitchInst>(I); d.op = D_SWITCH; d.a = op(sw.getCondition()); d.w = widthOf(sw.getCondition()->getType()); std::vector<const BasicBlock *> t; d.edges.push_back(edge(&B, sw.getDefaultDest())); t.push_back(sw.getDefaultDest()); for (auto &c : sw.cases()) { d.aux.push_back(c.getCaseValue()->getZExtValue()); d.edges.push_back(edge(&B, c.getCaseSuccessor())); t.push_back(c.getCaseSuccessor()); } fix.push_back({(u32)f->code.size(), t}); break; }
      case Instruction::Unreachable: d.op = D_UNREACH; break;
      case Instruction::Call: { auto &c = cast<CallInst>(I); d.op = D_CALL; if (c.isInlineAsm()) { d.op = D_UNSUP; break; } const Function *cf = c.getCalledFunction(); if (!cf) { const Value *v = c.getCalledOperand()->stripPointerCasts(); cf = dyn_cast<Function>(v); }
        if (cf) d.callee = getFn(cf); else d.a = op(c.getCalledOperand()); d.imm = nslots(I.getType()); d.w = w;
        for (unsigned k = 0; k < c.arg_size(); k++) { Value *v = c.getArgOperand(k); d.args.push_back(op(v)); u64 bv = c.isByValArgument(k) ? DL->getTypeAllocSize(c.getParamByValType(k)) : 0; d.aux.push_back(bv); d.aux.push_back(widthOf(v->getType())); } break; }
      default: break;
      }
      f->code.push_back(std::move(d));
    }
  }
  for (auto &x : fix) for (unsigned k = 0; k < x.second.size(); k++) f->code[x.first].edges[k].pc = bbpc[x.second[k]];
  f->hit.assign(f->code.size(), 0);
}
static void decode(DFunc *f) { if (f->decoded) return; f->decoded = true; Decoder d; d.f = f; d.run(); }

// ---------------------------------------------------------------- globals
static void writeConst(Obj *o, u64 off, const Constant *c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  Type *T = c->getType();
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) if (r[i]) putByte(o, off + i, r[i], nullptr); return; }
  if (auto *ST = dyn_cast<StructType>(T)) { const StructLayout *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) writeConst(o, off + L->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (T->isArrayTy()) { u64 es = DL->getTypeAllocSize(T->getArrayElementType()); for (u64 i = 0; i < T->getArrayNumElements(); i++) writeConst(o, off + i * es, c->getAggregateElement(i)); return; }
  unsigned w = widthOf(T); if (!w) { std::string t; raw_string_ostream os(t); c->print(os); die("global init " + os.str()); }
  if (w > 64) { auto *ci = cast<ConstantInt>(c); for (unsigned i = 0; i < w / 8; i++) putByte(o, off + i, ci->getValue().extractBitsAsZExtValue(8, i * 8), nullptr); return; }
  storeRaw(o, off, (w + 7) / 8, w, constScalar(c));
}
static void initGlobals(State &s) {
  g_gname.push_back("");
  for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; u32 id = s.nheap++; g_gid[&g] = id; g_gname.push_back(g.getName().str()); }
  u32 k = 0; for (auto &F : *M) { DFunc *d = new DFunc; d->F = &F; d->name = F.getName().str(); g_funcs[&F] = d; g_fnById.push_back(d); g_gid[&F] = FNBASE + k++; }
  for (auto &g : M->globals()) { auto it = g_gid.find(&g); if (it == g_gid.end()) continue; u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; if (!g.hasInitializer() && sz < 8) sz = 8;
    Obj *o = objNew(sz, 0); if (g.hasInitializer()) writeConst(o, 0, g.getInitializer()); o->ro = g.isConstant() && g.hasInitializer(); s.heap.set(it->second, o); }
}

// ---------------------------------------------------------------- interpreter
static Val binop(State &s, unsigned op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) {
    u64 m = maskw(w), x = a.v, y = b.v;
    switch (op) { case E_ADD: return C((x + y) & m); case E_SUB: return C((x - y) & m); case E_AND: return C(x & y); case E_OR: return C(x | y); case E_XOR: return C(x ^ y); case E_MUL: return C((x * y) & m); default: break; }
    u64 r; if (!fold2((Op)op, w, x, y, r)) { violation(s, "arith", "division by zero", s.model); throw PathEnd{1}; } return C(r);
  }
  if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) {
    if (b.e) { Expr *z = mk2(E_EQ, b.e, mkConst(0, w)); if (decideRe(s, z)) { violation(s, "arith", "division by zero", s.model); throw PathEnd{1}; } }
    else if (b.v == 0) { violation(s, "arith", "division by zero", s.model); throw PathEnd{1}; }
    // power-of-two divisors
    if (!b.e && (b.v & (b.v - 1)) == 0) { if (op == E_UREM) return fromE(mk2(E_AND, a.e, mkConst(b.v - 1, w))); if (op == E_UDIV) return fromE(mk2(E_LSHR, a.e, mkConst(__builtin_ctzll(b.v), w))); }
  }
  return fromE(mk2((Op)op, toE(a, w), toE(b, w)));
}
static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }
static void applyMoves(Val *R, const Val *K, const Edge &e) {
  size_t n = e.mv.size(); if (!n) return;
  if (n == 1) { i32 sr = e.mv[0].second; R[e.mv[0].first] = sr >= 0 ? R[sr] : K[~sr]; return; }
  Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
  for (size_t i = 0; i < n; i++) { i32 sr = e.mv[i].second; t[i] = sr >= 0 ? R[sr] : K[~sr]; }
  for (size_t i = 0; i < n; i++) R[e.mv[i].first] = t[i];
}
static void pushFrame(State &s, DFunc *f, std::vector<Val> &args, i32 retdst, u64 va, u32 stk0) {
  decode(f); if (s.fr.size() > 4000) { violation(s, "hang", "unbounded recursion", s.model); throw PathEnd{1}; }
  u32 base = s.regs.size(); s.regs.resize(base + f->nregs, C(0)); for (unsigned i = 0; i < f->nargs; i++) s.regs[base + i] = i < args.size() ? args[i] : C(0);
  s.fr.push_back(Frame{f, 0, base, stk0, retdst, va}); f->calls++;
}
static Builtin findBuiltin(DFunc *f);
static void finishPath(State &s) {
  S.paths++; auditPath(s);
  std::string sig; for (auto &t : s.trace) { sig += t.first; sig += ';'; }
  if (g_witSig[sig]++ == 0 && (int)g_witness < g_maxWitness) { g_witness++;
    std::string l = "{\"t\":\"wit\",\"inputs\":" + inputsOf(s, s.model) + ",\"trace\":[";
    for (size_t i = 0; i < s.trace.size(); i++) { auto &t = s.trace[i]; if (i) l += ","; u64 v = t.second.e ? evalExpr(t.second.e, s.model) : t.second.v; l += "[\"" + jesc(t.first) + "\"," + std::to_string(v) + "]"; }
    g_outLines.push_back(l + "]}"); }
}
static bool (*g_shouldYield)() = nullptr;

// runs s until its path ends (throws PathEnd)
static void runState(State &s) {
  std::vector<Val> args;
  for (;;) {
    Frame *fp = &s.fr.back(); DFunc *f = fp->f; Val *R = s.regs.data() + fp->base; const Val *K = f->K.data(); DI *code = f->code.data(); u32 pc = fp->pc; u8 *hit = f->hit.data();
#define GET(o) ((o) >= 0 ? R[o] : K[~(o)])
    for (;;) {
      DI &d = code[pc]; fp->pc = pc; hit[pc] = 1;
      if ((++s.icount & 0xfffff) == 0) { if (s.icount > g_maxInstr) { violation(s, "hang", "instruction limit (no progress)", s.model); throw PathEnd{1}; } if (now() > g_deadline) { S.unexplored++; throw PathEnd{3}; } }
      switch (d.op) {
      case D_BIN: { Val a = GET(d.a), b = GET(d.b); R[d.dst] = binop(s, d.sub, d.w, a, b); pc++; break; }
      case D_ICMP: { Val a = GET(d.a), b = GET(d.b); if (!a.e && !b.e) { u64 r; switch (d.sub) { case E_EQ: r = a.v == b.v; break; case E_ULT: r = a.v < b.v; break; case E_ULE: r = a.v <= b.v; break; case E_SLT: r = sx(a.v, d.w) < sx(b.v, d.w); break; default: r = sx(a.v, d.w) <= sx(b.v, d.w); } R[d.dst] = C(r ^ d.imm); }
        else { Expr *e = mk2((Op)d.sub, toE(a, d.w), toE(b, d.w)); if (d.imm) e = mkNot(e); R[d.dst] = fromE(e); } pc++; break; }
      case D_COPY: { if (d.imm <= 1) R[d.dst] = GET(d.a); else for (u64 k = 0; k < d.imm; k++) R[d.dst + k] = R[d.a + k]; pc++; break; }
      case D_MOVES: applyMoves(R, K, d.edges[0]); pc++; break;
      case D_TRUNC: { Val a = GET(d.a); R[d.dst] = a.e ? fromE(mkExtract(a.e, 0, d.w)) : C(a.v & maskw(d.w)); pc++; break; }
      case D_ZEXT: { Val a = GET(d.a); R[d.dst] = a.e ? fromE(mkZext(a.e, d.w)) : a; pc++; break; }
      case D_SEXT: { Val a = GET(d.a); R[d.dst] = a.e ? fromE(mkSext(a.e, d.w)) : C((u64)sx(a.v, d.w2) & maskw(d.w)); pc++; break; }
      case D_SELECT: { Val c = GET(d.a);
        if (c.e && (d.imm != 1 || (d.sub && c.e->op != E_TAB))) { c = C(decide(s, c.e)); }
        if (!c.e) { if (d.imm == 1) { i32 o = d.args[c.v ? 0 : 1]; R[d.dst] = GET(o); } else { Val t[16]; for (u64 k = 0; k < d.imm; k++) t[k] = GET(d.args[2 * k + (c.v ? 0 : 1)]); for (u64 k = 0; k < d.imm; k++) R[d.dst + k] = t[k]; } }
        else { Val a = GET(d.args[0]), b = GET(d.args[1]); R[d.dst] = fromE(mkIte(c.e, toE(a, d.w), toE(b, d.w))); } pc++; break; }
      case D_GEP: { Val p = GET(d.a); p = p.e ? (d.imm ? fromE(mk2(E_ADD, p.e, mkConst(d.imm, 64))) : p) : C(p.v + d.imm);
        for (size_t k = 0; k < d.args.size(); k++) { Val ix = GET(d.args[k]); u64 sc = d.aux[2 * k]; unsigned iw = d.aux[2 * k + 1];
          if (!ix.e && !p.e) p.v += (u64)sx(ix.v, iw) * sc; else { Expr *e = ix.e ? (iw < 64 ? mkSext(ix.e, 64) : ix.e) : mkConst((u64)sx(ix.v, iw), 64); e = mk2(E_MUL, e, mkConst(sc, 64)); p = fromE(mk2(E_ADD, e, toE(p, 64))); } }
        R[d.dst] = p; pc++; break; }
      case D_ALLOCA: { u64 n = concretize(s, GET(d.a), 64); R[d.dst] = C(mkaddr(stackAlloc(s, n * d.imm))); pc++; break; }
      case D_LOAD: { Val p = GET(d.a);
        if (!p.e && d.aux.size() == 2) { unsigned w = d.aux[1]; R[d.dst] = loadC(s, p.v, (w + 7) / 8, w); pc++; break; }
        if (p.e && d.aux.size() == 2) { unsigned w = d.aux[1]; Val out; if (symLoad(s, p.e, (w + 7) / 8, w, out)) { R[d.dst] = out; pc++; break; } u64 a = resolvePtr(s, p, (w + 7) / 8, false); R[d.dst] = loadC(s, a, (w + 7) / 8, w); pc++; break; }
        u64 a = concretize(s, p, 64); for (size_t k = 0; k < d.aux.size(); k += 2) { unsigned w = d.aux[k + 1]; R[d.dst + k / 2] = loadC(s, a + d.aux[k], (w + 7) / 8, w); } pc++; break; }
      case D_STORE: { Val p = GET(d.a); u64 a = p.v; if (p.e) a = resolvePtr(s, p, (d.aux[1] + 7) / 8, true);
        for (size_t k = 0; k < d.args.size(); k++) { unsigned w = d.aux[2 * k + 1]; storeC(s, a + d.aux[2 * k], (w + 7) / 8, w, GET(d.args[k])); } pc++; break; }
      case D_BR: applyMoves(R, K, d.edges[0]); pc = d.edges[0].pc; break;
      case D_CBR: { Val c = GET(d.a); bool t = c.e ? decide(s, c.e) : c.v; const Edge &e = d.edges[t ? 0 : 1]; applyMoves(R, K, e); pc = e.pc; break; }
      case D_SWITCH: { Val c = GET(d.a); u64 v; size_t k = 0;
        if (c.e) { v = evalExpr(c.e, s.model); for (size_t i = 0; i < d.aux.size(); i++) if (d.aux[i] == v) { k = i + 1; break; }
          u32 tpc = d.edges[k].pc; auto same = [&](size_t i) { return d.edges[i].pc == tpc; };   /* edges from one block to one target carry the same phi values */
          Expr *cond;
          if (same(0)) { cond = mkConst(1, 1); for (size_t i = 0; i < d.aux.size(); i++) if (!same(i + 1)) cond = mk2(E_AND, cond, mkNot(mk2(E_EQ, c.e, mkConst(d.aux[i], d.w)))); }
          else { cond = mkConst(0, 1); for (size_t i = 0; i < d.aux.size(); i++) if (same(i + 1)) cond = mk2(E_OR, cond, mk2(E_EQ, c.e, mkConst(d.aux[i], d.w))); }
          decideRe(s, cond);
        } else { v = c.v; for (size_t i = 0; i < d.aux.size(); i++) if (d.aux[i] == v) { k = i + 1; break; } }
        applyMoves(R, K, d.edges[k]); pc = d.edges[k].pc; break; }
      case D_CALL: {
        DFunc *cf = d.callee;
        if (!cf) { u64 a = concretize(s, GET(d.a), 64); u32 id = a >> 32; if (id < FNBASE || id - FNBASE >= g_fnById.size() || (a & 0xffffffff) != OFF0) memError(s, a == 0 ? "call through null function pointer" : "call through invalid function pointer"); cf = g_fnById[id - FNBASE]; }
        args.clear(); for (i32 o : d.args) args.push_back(GET(o));
        if (cf->bi || cf->F->isDeclaration()) {
          if (!cf->bi) { cf->bi = findBuiltin(cf); if (!cf->bi) pathError(s, "unmodelled external function " + cf->name); }
          cf->calls++; Val r = cf->bi(s, d, args);
          R = s.regs.data() + s.fr.back().base; fp = &s.fr.back();
          if (d.dst >= 0) R[d.dst] = r; if (s.locals) { if (d.dst >= 0 && d.imm > 1) { R[d.dst + 1] = C(s.locals >> 1 & 1); } s.locals = 0; }
          pc++; break;
        }
        u32 stk0 = s.nstk; u64 va = 0; unsigned np = cf->F->arg_size();
        for (size_t k = 0; k < args.size() && k < np; k++) if (d.aux[2 * k]) { u64 src = concretize(s, args[k], 64); u64 a = mkaddr(stackAlloc(s, d.aux[2 * k])); copyBytes(s, a, src, d.aux[2 * k]); args[k] = C(a); }
        if (cf->F->isVarArg()) { u64 tot = 0; for (size_t k = np; k < args.size(); k++) tot += d.aux[2 * k] ? (d.aux[2 * k] + 7) & ~7ull : 8; va = mkaddr(stackAlloc(s, tot)); u64 o = 0;
          for (size_t k = np; k < args.size(); k++) { if (d.aux[2 * k]) { u64 src = concretize(s, args[k], 64); copyBytes(s, va + o, src, d.aux[2 * k]); o += (d.aux[2 * k] + 7) & ~7ull; } else { unsigned w = d.aux[2 * k + 1]; Val v = args[k]; if (v.e && v.e->w < 64) v = fromE(mkZext(v.e, 64)); (void)w; storeC(s, va + o, 8, 64, v); o += 8; } } }
        fp->pc = pc + 1; pushFrame(s, cf, args, d.dst, va, stk0); goto nextframe; }
      case D_RET: {
        Val rv[16]; size_t n = d.args.size(); for (size_t k = 0; k < n && k < 16; k++) rv[k] = GET(d.args[k]);
        for (u32 k = fp->stk0; k < s.nstk; k++) s.stk.set(k, nullptr);
        s.nstk = fp->stk0; i32 rd = fp->retdst; s.regs.resize(fp->base); s.fr.pop_back();
        if (s.fr.empty()) { S.instr += s.icount; finishPath(s); throw PathEnd{0}; }
        if (rd >= 0) for (size_t k = 0; k < n; k++) s.regs[s.fr.back().base + rd + k] = rv[k];
        goto nextframe; }
      case D_UNREACH: violation(s, "unreachable", "reached unreachable code", s.model); throw PathEnd{1};
      case D_FBIN: { double a = asD(concretize(s, GET(d.a), d.w), d.w), b = asD(concretize(s, GET(d.b), d.w), d.w), r = 0; switch (d.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; case Instruction::FNeg: r = -a; break; } R[d.dst] = C(fromD(r, d.w)); pc++; break; }
      case D_FCMP: { double a = asD(concretize(s, GET(d.a), d.w), d.w), b = asD(concretize(s, GET(d.b), d.w), d.w); bool r; switch (d.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a == b; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = a != b; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a > b; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = a >= b; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a < b; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a <= b; break; default: r = false; } R[d.dst] = C(r); pc++; break; }
      case D_FCVT: { u64 a = concretize(s, GET(d.a), d.w2), r = 0; switch (d.sub) { case Instruction::SIToFP: r = fromD((double)sx(a, d.w2), d.w); break; case Instruction::UIToFP: r = fromD((double)a, d.w); break; case Instruction::FPToSI: r = (u64)(i64)asD(a, d.w2) & maskw(d.w); break; case Instruction::FPToUI: r = (u64)asD(a, d.w2) & maskw(d.w); break; default: r = fromD(asD(a, d.w2), d.w); } R[d.dst] = C(r); pc++; break; }
      case D_NOP: pc++; break;
      default: { std::string t; raw_string_ostream o(t); d.I->print(o); pathError(s, "unsupported instruction " + o.str()); }
      }
    }
  nextframe:;
  }
}
#include "builtins.inc"

// ---------------------------------------------------------------- driver
static void dump(const std::string &path, bool complete) {
  FILE *fo = fopen(path.c_str(), "w"); if (!fo) die("cannot write " + path);
  for (auto &l : g_outLines) fprintf(fo, "%s\n", l.c_str());
  for (auto &r : g_reach) fprintf(fo, "{\"t\":\"reach\",\"tag\":\"%s\",\"n\":%lu}\n", jesc(r.first).c_str(), r.second);
  for (auto &r : g_assertSeen) fprintf(fo, "{\"t\":\"assert\",\"msg\":\"%s\",\"n\":%lu}\n", jesc(r.first).c_str(), r.second);
  for (auto &r : g_errSeen) fprintf(fo, "{\"t\":\"errsum\",\"msg\":\"%s\",\"n\":%lu}\n", jesc(r.first).c_str(), r.second);
  for (auto *f : g_fnById) if (f->calls && f->decoded && f->F->getSubprogram()) { size_t n = 0; for (u8 h : f->hit) n += h; std::string file = f->F->getSubprogram()->getFilename().str(); fprintf(fo, "{\"t\":\"fn\",\"name\":\"%s\",\"file\":\"%s\",\"instrs\":%zu,\"hit\":%zu,\"calls\":%lu}\n", f->name.c_str(), jesc(file).c_str(), f->code.size(), n, f->calls); }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(fo, "{\"t\":\"stats\",\"paths\":%lu,\"infeasible\":%lu,\"violations\":%lu,\"errors\":%lu,\"cut\":%lu,\"forks\":%lu,\"queries\":%lu,\"qsat\":%lu,\"qunsat\":%lu,\"qunknown\":%lu,\"cachehits\":%lu,\"domdec\":%lu,\"localsat\":%lu,\"instr\":%lu,\"asserts\":%lu,\"assertq\":%lu,\"unexplored\":%lu,\"pathq\":%lu,\"pathproved\":%lu,\"prunq\":%lu,\"ztime\":%.3f,\"wall\":%.3f,\"maxrss_mb\":%ld,\"complete\":%s}\n",
    S.paths, S.infeas, S.viol, S.errs, S.cut, S.forks, S.queries, S.qsat, S.qunsat, S.qunknown, S.cachehits, S.domdec, S.localsat, S.instr, S.asserts, S.assertq, S.unexplored, S.pathq, S.pathproved, S.prunq, S.ztime, now() - g_t0, ru.ru_maxrss / 1024, complete ? "true" : "false");
  fclose(fo);
}
static void step(State *s) { try { runState(*s); } catch (PathEnd &p) { if (p.why) S.instr += s->icount; if (p.why == 4) S.infeas++; if (p.why == 5) S.cut++; } delete s; }
int main(int argc, char **argv) {
  g_t0 = now(); std::string bc, entry = "vp_main"; double tlimit = 600;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") g_out = nx(); else if (a == "-e") entry = nx(); else if (a == "-j") g_jobs = stoi(nx()); else if (a == "-t") tlimit = stod(nx()); else if (a == "-v") g_verbose = true; else if (a == "-i") g_maxInstr = stoull(nx()); else if (a == "-z") g_z3ms = stoul(nx()); else if (a == "-f") g_frontier = stoul(nx()); else if (a == "-s") g_seed = stoul(nx()); else bc = a; }
  g_deadline = g_t0 + tlimit; FREEDOBJ.rc = 1u << 30;
  LLVMContext ctx; CTX = &ctx; SMDiagnostic err; std::unique_ptr<Module> m = parseIRFile(bc, err, ctx); if (!m) die("cannot read " + bc);
  M = m.get(); DL = &M->getDataLayout(); zinit(); regBuiltins();
  State *s0 = new State; initGlobals(*s0);
  Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) die("no entry " + entry);
  std::vector<Val> args; pushFrame(*s0, getFn(E), args, -1, 0, 0); g_work.push_back(s0);
  // breadth-first until enough states for the workers, then one process per core
  size_t head = 0; double tb = now();
  std::vector<State *> q; 
  while (!g_work.empty()) {
    if (g_jobs > 1 && g_work.size() >= g_frontier) break;
    if (now() > g_deadline) break;
    // take the oldest
    State *s = g_work.front(); g_work.erase(g_work.begin()); step(s);
    if (g_jobs > 1 && g_work.size() > 8 && now() - tb > 20) break;
  }
  (void)head;
  if (g_work.empty() || g_jobs <= 1) { dump(g_out + ".0", g_work.empty() && S.unexplored == 0); return 0; }
  dump(g_out + ".0", true); // prefix part; workers add theirs
  std::vector<State *> fr; fr.swap(g_work);
  auto *ctr = (std::atomic<u32> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *ctr = 0;
  Stats zero; std::vector<pid_t> pids; fflush(nullptr);
  for (int j = 0; j < g_jobs; j++) { pid_t p = fork(); if (p == 0) {
      S = zero; g_outLines.clear(); g_reach.clear(); g_assertSeen.clear(); g_errSeen.clear(); g_witness = 0; for (auto *f : g_fnById) { f->calls = f->decoded && f->calls ? 1 : 0; }
      bool comp = true;
      for (;;) { u32 k = ctr->fetch_add(1); if (k >= fr.size()) break;
        if (now() > g_deadline) { comp = false; S.unexplored++; continue; }
        g_work.push_back(fr[k]); fr[k] = nullptr;
        while (!g_work.empty()) { State *s = g_work.back(); g_work.pop_back(); if (now() > g_deadline) { comp = false; S.unexplored++; delete s; continue; } step(s); } }
      dump(g_out + "." + std::to_string(j + 1), comp && S.unexplored == 0); _exit(0); } pids.push_back(p); }
  int bad = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  return bad ? 4 : 0;
}
