#include "expr.h"
std::vector<VarInfo> g_vars;
static std::unordered_multimap<u64, Expr *> g_cons;
static std::unordered_multimap<u64, const u64 *> g_tabs;
static std::unordered_multimap<u64, const std::vector<u32> *> g_depsets;
static u32 g_nexpr = 0;

static u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static const std::vector<u32> *internDeps(std::vector<u32> &&d) {
  u64 h = 77; for (u32 x : d) h = hmix(h, x);
  auto r = g_depsets.equal_range(h);
  for (auto i = r.first; i != r.second; ++i) if (*i->second == d) return i->second;
  auto *p = new std::vector<u32>(std::move(d)); g_depsets.emplace(h, p); return p;
}
static const std::vector<u32> *unionDeps(const std::vector<u32> *a, const std::vector<u32> *b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  std::vector<u32> r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  return internDeps(std::move(r));
}
static Expr *cons(Op op, unsigned w, u64 val, Expr *a, Expr *b, Expr *c, u32 tvar, const u64 *tab) {
  u64 h = hmix(op * 131 + w, val); h = hmix(h, a ? a->id + 1 : 0); h = hmix(h, b ? b->id + 1 : 0);
  h = hmix(h, c ? c->id + 1 : 0); h = hmix(h, tvar); h = hmix(h, (u64)tab);
  auto r = g_cons.equal_range(h);
  for (auto i = r.first; i != r.second; ++i) { Expr *e = i->second;
    if (e->op == op && e->w == w && e->val == val && e->a == a && e->b == b && e->c == c && e->tvar == tvar && e->tab == tab) return e; }
  Expr *e = new Expr; e->op = op; e->w = w; e->id = g_nexpr++; e->tvar = tvar; e->val = val; e->a = a; e->b = b; e->c = c; e->tab = tab;
  if (op == E_CONST) e->deps = internDeps({});
  else if (op == E_VAR || op == E_TAB) e->deps = internDeps({tvar});
  else { e->deps = a->deps; if (b) e->deps = unionDeps(e->deps, b->deps); if (c) e->deps = unionDeps(e->deps, c->deps); }
  g_cons.emplace(h, e); return e;
}
Expr *mkConst(u64 v, unsigned w) { return cons(E_CONST, w, v & maskw(w), 0, 0, 0, 0, 0); }
static const u64 *internTab(const u64 *t) {
  u64 h = 3; for (int i = 0; i < 256; i++) h = hmix(h, t[i]);
  auto r = g_tabs.equal_range(h);
  for (auto i = r.first; i != r.second; ++i) if (!memcmp(i->second, t, 2048)) return i->second;
  u64 *n = (u64 *)malloc(2048); memcpy(n, t, 2048); g_tabs.emplace(h, n); return n;
}
Expr *mkTab(u32 var, unsigned w, const u64 *vals) {
  bool same = true; for (int i = 1; i < 256 && same; i++) same = vals[i] == vals[0];
  if (same) return mkConst(vals[0], w);
  return cons(E_TAB, w, 0, 0, 0, 0, var, internTab(vals));
}
Expr *mkVar(const char *name, unsigned w) {
  u32 id = g_vars.size(); g_vars.push_back({name, (u8)w});
  if (w == 8) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = i; return mkTab(id, 8, t); }
  return cons(E_VAR, w, 0, 0, 0, 0, id, 0);
}
bool fold2(Op op, unsigned w, u64 a, u64 b, u64 &r) {
  u64 m = maskw(w);
  switch (op) {
  case E_ADD: r = (a + b) & m; return true;
  case E_SUB: r = (a - b) & m; return true;
  case E_MUL: r = (a * b) & m; return true;
  case E_UDIV: if (!b) return false; r = a / b; return true;
  case E_UREM: if (!b) return false; r = a % b; return true;
  case E_SDIV: { if (!b) return false; i64 x = sx(a, w), y = sx(b, w); if (y == -1) { r = (0 - a) & m; return true; } r = (u64)(x / y) & m; return true; }
  case E_SREM: { if (!b) return false; i64 x = sx(a, w), y = sx(b, w); if (y == -1) { r = 0; return true; } r = (u64)(x % y) & m; return true; }
  case E_AND: r = a & b; return true;
  case E_OR: r = a | b; return true;
  case E_XOR: r = a ^ b; return true;
  case E_SHL: r = b >= w ? 0 : (a << b) & m; return true;
  case E_LSHR: r = b >= w ? 0 : (a >> b); return true;
  case E_ASHR: { i64 x = sx(a, w); r = (u64)(x >> (b >= w ? w - 1 : b)) & m; return true; }
  case E_EQ: r = a == b; return true;
  case E_ULT: r = a < b; return true;
  case E_ULE: r = a <= b; return true;
  case E_SLT: r = sx(a, w) < sx(b, w); return true;
  case E_SLE: r = sx(a, w) <= sx(b, w); return true;
  default: return false;
  }
}
static bool isCmp(Op op) { return op >= E_EQ && op <= E_SLE; }
static bool isC(Expr *e) { return e->op == E_CONST; }
static bool tabbable(Expr *a) { return a->op == E_TAB || a->op == E_CONST; }
static u64 tv(Expr *e, int i) { return e->op == E_CONST ? e->val : e->tab[i]; }

Expr *mkNot(Expr *a) { return mk2(E_XOR, a, mkConst(1, 1)); }

Expr *mk2(Op op, Expr *a, Expr *b) {
  unsigned w = a->w, rw = isCmp(op) ? 1 : w; u64 r;
  if (a->w != b->w) { fprintf(stderr, "mk2 width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) { if (fold2(op, w, a->val, b->val, r)) return mkConst(r, rw); }
  if ((a->op == E_TAB || b->op == E_TAB) && tabbable(a) && tabbable(b) && (isC(a) || isC(b) || a->tvar == b->tvar)) {
    u32 v = a->op == E_TAB ? a->tvar : b->tvar; u64 t[256]; bool ok = true;
    for (int i = 0; i < 256; i++) { if (!fold2(op, w, tv(a, i), tv(b, i), t[i])) { t[i] = 0; } }
    if (ok) return mkTab(v, rw, t);
  }
  // constants to the right for commutative operators
  if (isC(a) && (op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ)) std::swap(a, b);
  u64 m = maskw(w);
  if (isC(b)) {
    u64 c = b->val;
    switch (op) {
    case E_ADD: case E_SUB: case E_OR: case E_XOR: case E_SHL: case E_LSHR: case E_ASHR:
      if (c == 0) return a; break;
    case E_AND: if (c == 0) return b; if (c == m) return a; break;
    case E_MUL: if (c == 0) return b; if (c == 1) return a; break;
    case E_UDIV: if (c == 1) return a; break;
    case E_ULT: if (c == 0) return mkConst(0, 1); break;
    case E_ULE: if (c == m) return mkConst(1, 1); break;
    default: break;
    }
    if (op == E_OR && c == m) return b;
    if (op == E_SUB) return mk2(E_ADD, a, mkConst(0 - c, w));
    if (op == E_ADD && a->op == E_ADD && isC(a->b)) return mk2(E_ADD, a->a, mkConst(a->b->val + c, w));
    if ((op == E_AND || op == E_OR || op == E_XOR) && a->op == op && isC(a->b)) { fold2(op, w, a->b->val, c, r); return mk2(op, a->a, mkConst(r, w)); }
    if (op == E_AND && (a->op == E_OR || a->op == E_XOR || a->op == E_AND)) return mk2(a->op, mk2(E_AND, a->a, b), mk2(E_AND, a->b, b));
    if (op == E_AND && a->op == E_ITE) return mkIte(a->a, mk2(E_AND, a->b, b), mk2(E_AND, a->c, b));
    if ((op == E_AND || op == E_OR || op == E_XOR) && a->op == E_CONCAT) {
      unsigned lw = a->b->w; 
      return mkConcat(mk2(op, a->a, mkConst(c >> lw, a->a->w)), mk2(op, a->b, mkConst(c, lw)));
    }
    if (op == E_AND && a->op == E_ZEXT) return mkZext(mk2(E_AND, a->a, mkConst(c, a->a->w)), w);
    if ((op == E_OR || op == E_XOR) && a->op == E_ZEXT && (c >> a->a->w) == 0) return mkZext(mk2(op, a->a, mkConst(c, a->a->w)), w);
    if (op == E_EQ) {
      if (w == 1) return c ? a : mkNot(a);
      if (a->op == E_CONCAT) { unsigned lw = a->b->w; return mk2(E_AND, mk2(E_EQ, a->a, mkConst(c >> lw, a->a->w)), mk2(E_EQ, a->b, mkConst(c, lw))); }
      if (a->op == E_ZEXT) { if (c >> a->a->w) return mkConst(0, 1); return mk2(E_EQ, a->a, mkConst(c, a->a->w)); }
      if (a->op == E_SEXT) { u64 lo = c & maskw(a->a->w); if ((((u64)sx(lo, a->a->w)) & m) != c) return mkConst(0, 1); return mk2(E_EQ, a->a, mkConst(lo, a->a->w)); }
      if (a->op == E_ADD && isC(a->b)) return mk2(E_EQ, a->a, mkConst(c - a->b->val, w));
      if (a->op == E_XOR && isC(a->b)) return mk2(E_EQ, a->a, mkConst(c ^ a->b->val, w));
      if (a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mk2(E_EQ, a->b, b), mk2(E_EQ, a->c, b));
      if (a->op == E_OR && c == 0) return mk2(E_AND, mk2(E_EQ, a->a, b), mk2(E_EQ, a->b, b));
    }
    if ((op == E_ULT || op == E_ULE) && a->op == E_ZEXT) {
      u64 am = maskw(a->a->w);
      if (c > am) return mkConst(1, 1);
      if (op == E_ULE && c == am) return mkConst(1, 1);
      return mk2(op, a->a, mkConst(c, a->a->w));
    }
    if (op == E_SHL && c < w) { // as concat
      return mkConcat(mkExtract(a, 0, w - c), mkConst(0, c));
    }
    if (op == E_LSHR && c < w) return mkZext(mkExtract(a, c, w - c), w);
    if (op == E_SHL || op == E_LSHR) return mkConst(0, w);
  }
  if (isC(a) && (op == E_ULT || op == E_ULE) && b->op == E_ZEXT) {
    if (a->val > maskw(b->a->w)) return mkConst(0, 1);
    return mk2(op, mkConst(a->val, b->a->w), b->a);
  }
  if (a == b) {
    switch (op) { case E_SUB: case E_XOR: return mkConst(0, w); case E_AND: case E_OR: return a;
      case E_EQ: case E_ULE: case E_SLE: return mkConst(1, 1); case E_ULT: case E_SLT: return mkConst(0, 1); default: break; }
  }
  if (op == E_EQ && a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mk2(E_EQ, a->a, b->a);
  if (op == E_EQ && a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mk2(E_EQ, a->a, b->a);
  if (op == E_EQ && a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w)
    return mk2(E_AND, mk2(E_EQ, a->a, b->a), mk2(E_EQ, a->b, b->b));
  // bitwise over aligned concats
  if ((op == E_AND || op == E_OR || op == E_XOR) && w > 1) {
    if (a->op == E_CONCAT || b->op == E_CONCAT) {
      Expr *k = a->op == E_CONCAT ? a : b; unsigned lw = k->b->w;
      return mkConcat(mk2(op, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), mk2(op, mkExtract(a, 0, lw), mkExtract(b, 0, lw)));
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkZext(mk2(op, a->a, b->a), w);
  }
  // group tables of the same variable through a chain of bitwise operators
  if ((op == E_AND || op == E_OR || op == E_XOR)) {
    if (b->op == E_TAB && a->op == op) {
      if (a->b->op == E_TAB && a->b->tvar == b->tvar) return mk2(op, a->a, mk2(op, a->b, b));
      if (a->a->op == E_TAB && a->a->tvar == b->tvar) return mk2(op, mk2(op, a->a, b), a->b);
    }
    if (a->op == E_TAB && b->op == op) {
      if (b->b->op == E_TAB && b->b->tvar == a->tvar) return mk2(op, b->a, mk2(op, b->b, a));
      if (b->a->op == E_TAB && b->a->tvar == a->tvar) return mk2(op, mk2(op, b->a, a), b->b);
    }
    if (a->id > b->id && !isC(b)) std::swap(a, b);
  }
  if (op == E_EQ && a->id > b->id && !isC(b)) std::swap(a, b);
  return cons(op, rw, 0, a, b, 0, 0, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == E_TAB && tabbable(a) && tabbable(b) && (isC(a) || a->tvar == c->tvar) && (isC(b) || b->tvar == c->tvar)) {
    u64 t[256]; for (int i = 0; i < 256; i++) t[i] = c->tab[i] ? tv(a, i) : tv(b, i);
    return mkTab(c->tvar, a->w, t);
  }
  if (a->w == 1 && isC(a) && isC(b)) return a->val ? c : mkNot(c);
  if (a->w == 1 && isC(a)) return a->val ? mk2(E_OR, c, b) : mk2(E_AND, mkNot(c), b);
  if (a->w == 1 && isC(b)) return b->val ? mk2(E_OR, mkNot(c), a) : mk2(E_AND, c, a);
  return cons(E_ITE, a->w, 0, c, a, b, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  if (a->op == E_TAB) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (a->tab[i] >> lo) & maskw(w); return mkTab(a->tvar, w, t); }
  if (a->op == E_EXTRACT) return mkExtract(a->a, lo + a->val, w);
  if (a->op == E_CONCAT) { unsigned lw = a->b->w;
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  if (a->op == E_ZEXT) { unsigned aw = a->a->w;
    if (lo >= aw) return mkConst(0, w);
    if (lo + w <= aw) return mkExtract(a->a, lo, w);
    return mkZext(mkExtract(a->a, lo, aw - lo), w); }
  if (a->op == E_SEXT) { unsigned aw = a->a->w; if (lo + w <= aw) return mkExtract(a->a, lo, w); if (lo == 0) return mkSext(a->a, w); }
  if (a->op == E_AND || a->op == E_OR || a->op == E_XOR) return mk2(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  if (a->op == E_ITE) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  if (lo == 0 && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL)) return mk2(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  return cons(E_EXTRACT, w, lo, a, 0, 0, 0, 0);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->val, w);
  if (a->op == E_TAB) return mkTab(a->tvar, w, a->tab);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  return cons(E_ZEXT, w, 0, a, 0, 0, 0, 0);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u64)sx(a->val, a->w), w);
  if (a->op == E_TAB) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (u64)sx(a->tab[i], a->w) & maskw(w); return mkTab(a->tvar, w, t); }
  if (a->op == E_SEXT) return mkSext(a->a, w);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  return cons(E_SEXT, w, 0, a, 0, 0, 0, 0);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (tabbable(hi) && tabbable(lo) && (isC(hi) || isC(lo) || hi->tvar == lo->tvar)) {
    u64 t[256]; for (int i = 0; i < 256; i++) t[i] = (tv(hi, i) << lo->w) | tv(lo, i);
    return mkTab(hi->op == E_TAB ? hi->tvar : lo->tvar, w, t);
  }
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, lo->val, w);
  if (lo->op == E_CONCAT) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (lo->op == E_ZEXT) return mkConcat(mkConcat(hi, mkConst(0, lo->w - lo->a->w)), lo->a);
  if (hi->op == E_CONCAT) { // merge the last part of hi with lo
    Expr *h = hi->b;
    if ((tabbable(h) && tabbable(lo) && (isC(h) || isC(lo) || h->tvar == lo->tvar)) ||
        (h->op == E_EXTRACT && lo->op == E_EXTRACT && h->a == lo->a && h->val == lo->val + lo->w))
      return mkConcat(hi->a, mkConcat(h, lo));
  }
  return cons(E_CONCAT, w, 0, hi, lo, 0, 0, 0);
}

static std::vector<u64> memoV; static std::vector<u32> memoS; static u32 memoStamp = 0;
static u64 ev(Expr *e, const std::vector<u64> &m) {
  switch (e->op) {
  case E_CONST: return e->val;
  case E_VAR: return e->tvar < m.size() ? m[e->tvar] & maskw(e->w) : 0;
  case E_TAB: return e->tab[(e->tvar < m.size() ? m[e->tvar] : 0) & 255];
  default: break;
  }
  if (memoS[e->id] == memoStamp) return memoV[e->id];
  u64 r = 0;
  switch (e->op) {
  case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
  case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
  case E_EXTRACT: r = (ev(e->a, m) >> e->val) & maskw(e->w); break;
  case E_ZEXT: r = ev(e->a, m); break;
  case E_SEXT: r = (u64)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
  default: { u64 x = ev(e->a, m), y = ev(e->b, m); if (!fold2(e->op, e->a->w, x, y, r)) r = (e->op == E_UREM || e->op == E_SREM) ? x : maskw(e->w); }
  }
  memoS[e->id] = memoStamp; memoV[e->id] = r; return r;
}
u64 evalExpr(Expr *e, const std::vector<u64> &m) {
  if (e->op <= E_TAB) return ev(e, m);
  if (memoS.size() < g_nexpr) { memoS.resize(g_nexpr * 2, 0); memoV.resize(g_nexpr * 2, 0); }
  memoStamp++; return ev(e, m);
}
Expr *mkVarRef(u32 id, unsigned w) { return cons(E_VAR, w, 0, 0, 0, 0, id, 0); }
