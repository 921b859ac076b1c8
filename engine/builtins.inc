// external functions and intrinsics understood by the engine
#define BI(n) static Val n(State &s, DI &d, std::vector<Val> &a)
static u64 cz(State &s, std::vector<Val> &a, size_t i, unsigned w = 64) { return concretize(s, a[i], w); }
BI(bi_nop) { return C(0); }
BI(bi_malloc) { u64 n = cz(s, a, 0); if (n > (1u << 28)) return C(0); return C(mkaddr(heapAlloc(s, n, 0xAA))); }
BI(bi_calloc) { u64 n = cz(s, a, 0), m = cz(s, a, 1); if (n * m > (1u << 28)) return C(0); return C(mkaddr(heapAlloc(s, n * m, 0))); }
static void doFree(State &s, u64 p) {
  if (!p) return; u32 id = p >> 32; Obj *o = lookup(s, id);
  if (id >= STKBASE || (id < g_gname.size())) memError(s, "free of non-heap pointer"); if (o == FREED) memError(s, "double free"); if (!o || (p & 0xffffffff) != OFF0) memError(s, "invalid free");
  s.heap.set(id, FREED);
}
BI(bi_free) { doFree(s, cz(s, a, 0)); return C(0); }
BI(bi_realloc) { u64 p = cz(s, a, 0), n = cz(s, a, 1); if (!p) return C(mkaddr(heapAlloc(s, n, 0xAA))); chk(s, p, 1, false); Obj *o = lookup(s, p >> 32); u64 os = o->size; u64 q = mkaddr(heapAlloc(s, n, 0xAA)); copyBytes(s, q, p, std::min(os, n)); doFree(s, p); return C(q); }
BI(bi_memcpy) { u64 n = cz(s, a, 2), dd = cz(s, a, 0); if (n) { u64 sr = cz(s, a, 1); copyBytes(s, dd, sr, n); } return C(dd); }
BI(bi_memset) { u64 n = cz(s, a, 2), dd = cz(s, a, 0); Val c = a[1]; if (c.e && c.e->w > 8) c = fromE(mkExtract(c.e, 0, 8)); else if (!c.e) c.v &= 255; setBytes(s, dd, c, n); return C(dd); }
BI(bi_va_start) { u64 ap = cz(s, a, 0); storeC(s, ap, 4, 32, C(48)); storeC(s, ap + 4, 4, 32, C(304)); storeC(s, ap + 8, 8, 64, C(s.fr.back().va)); storeC(s, ap + 16, 8, 64, C(0)); return C(0); }
BI(bi_va_copy) { copyBytes(s, cz(s, a, 0), cz(s, a, 1), 24); return C(0); }
static unsigned rw(DI &d) { return d.w; }
BI(bi_bswap) { unsigned w = rw(d); if (!a[0].e) { u64 r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((a[0].v >> i) & 255) << (w - 8 - i); return C(r); } Expr *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(a[0].e, i, 8); r = r ? mkConcat(r, b) : b; } return fromE(r); }
BI(bi_umin) { unsigned w = rw(d); return fromE(mkIte(mk2(E_ULT, toE(a[0], w), toE(a[1], w)), toE(a[0], w), toE(a[1], w))); }
BI(bi_umax) { unsigned w = rw(d); return fromE(mkIte(mk2(E_ULT, toE(a[0], w), toE(a[1], w)), toE(a[1], w), toE(a[0], w))); }
BI(bi_smin) { unsigned w = rw(d); return fromE(mkIte(mk2(E_SLT, toE(a[0], w), toE(a[1], w)), toE(a[0], w), toE(a[1], w))); }
BI(bi_smax) { unsigned w = rw(d); return fromE(mkIte(mk2(E_SLT, toE(a[0], w), toE(a[1], w)), toE(a[1], w), toE(a[0], w))); }
BI(bi_iabs) { unsigned w = rw(d); Expr *x = toE(a[0], w); return fromE(mkIte(mk2(E_SLT, x, mkConst(0, w)), mk2(E_SUB, mkConst(0, w), x), x)); }
BI(bi_usubsat) { unsigned w = rw(d); Expr *x = toE(a[0], w), *y = toE(a[1], w); return fromE(mkIte(mk2(E_ULT, x, y), mkConst(0, w), mk2(E_SUB, x, y))); }
BI(bi_uaddsat) { unsigned w = rw(d); Expr *x = toE(a[0], w), *y = toE(a[1], w), *r = mk2(E_ADD, x, y); return fromE(mkIte(mk2(E_ULT, r, x), mkConst(maskw(w), w), r)); }
BI(bi_fsh) { unsigned w = rw(d); u64 sh = cz(s, a, 2, w) % w; bool l = d.callee->name.find("fshl") != std::string::npos; Expr *x = toE(a[0], w), *y = toE(a[1], w); if (!sh) return fromE(l ? x : y); unsigned L = l ? sh : w - sh; return fromE(mk2(E_OR, mk2(E_SHL, x, mkConst(L, w)), mk2(E_LSHR, y, mkConst(w - L, w)))); }
BI(bi_ctpop) { unsigned w = rw(d); if (!a[0].e) return C(__builtin_popcountll(a[0].v)); Expr *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mk2(E_ADD, r, mkZext(mkExtract(a[0].e, i, 1), w)); return fromE(r); }
BI(bi_ctlz) { unsigned w = rw(d); u64 v = cz(s, a, 0, w); return C(v ? __builtin_clzll(v) - (64 - w) : w); }
BI(bi_cttz) { unsigned w = rw(d); u64 v = cz(s, a, 0, w); return C(v ? __builtin_ctzll(v) : w); }
BI(bi_expect) { return a[0]; }
BI(bi_false) { return C(0); }
BI(bi_true) { return C(1); }
BI(bi_objsize) { return C(~0ull); }
BI(bi_trap) { violation(s, "trap", "trap executed", s.model); throw PathEnd{1}; }
static Val ovf(State &s, DI &d, std::vector<Val> &a, int op) { // concrete operands only
  unsigned w = d.aux[1]; u64 x = cz(s, a, 0, w), y = cz(s, a, 1, w); __int128 r; bool sg = d.callee->name.find(".s") != std::string::npos;
  __int128 X = sg ? (__int128)sx(x, w) : (__int128)(u128)x, Y = sg ? (__int128)sx(y, w) : (__int128)(u128)y; r = op == 0 ? X + Y : op == 1 ? X - Y : X * Y; u64 lo = (u64)r & maskw(w);
  bool o = sg ? (__int128)sx(lo, w) != r : (__int128)(u128)lo != r; s.locals = 1 | (o ? 2 : 0); return C(lo); }
BI(bi_addo) { return ovf(s, d, a, 0); }
BI(bi_subo) { return ovf(s, d, a, 1); }
BI(bi_mulo) { return ovf(s, d, a, 2); }

// ---- harness interface
static u32 newInput(State &s, const std::string &name, unsigned w) {
  static std::map<std::pair<size_t, std::pair<std::string, unsigned>>, u32> t; auto k = std::make_pair(s.inputs.size(), std::make_pair(name, w)); auto it = t.find(k); u32 id;
  if (it == t.end()) { id = g_vars.size(); mkVar(name.c_str(), w); t[k] = id; } else id = it->second;
  ensureVar(s, id); s.inputs.push_back(id); return id; }
static Expr *varExpr(u32 id) { static std::vector<Expr *> m; if (id >= m.size()) m.resize(id + 64, nullptr); if (!m[id]) { // rebuild through a fresh table / reuse
    unsigned w = g_vars[id].w; if (w == 8) { u64 t[256]; for (int i = 0; i < 256; i++) t[i] = i; m[id] = mkTab(id, 8, t); } else m[id] = mkVarRef(id, w); } return m[id]; }
BI(bi_vbyte) { return fromE(varExpr(newInput(s, cstr(s, a[0]), 8))); }
BI(bi_vbool) { u32 v = newInput(s, cstr(s, a[0]), 8); Dom dd = {{3, 0, 0, 0}}; s.dom[v] = dd; return fromE(mkZext(varExpr(v), 32)); }
BI(bi_vint) { return fromE(varExpr(newInput(s, cstr(s, a[0]), 32))); }
BI(bi_vlong) { return fromE(varExpr(newInput(s, cstr(s, a[0]), 64))); }
BI(bi_vrange) { i64 lo = sx(cz(s, a, 1, 32), 32), hi = sx(cz(s, a, 2, 32), 32); if (hi < lo) pathError(s, "vp_range: empty"); 
  if (lo >= 0 && hi <= 255) { u32 v = newInput(s, cstr(s, a[0]), 8); Dom dd = {{0, 0, 0, 0}}; for (int i = lo; i <= hi; i++) dd.b[i >> 6] |= 1ull << (i & 63); s.dom[v] = dd; s.model[v] = lo; return fromE(mkZext(varExpr(v), 32)); }
  u32 v = newInput(s, cstr(s, a[0]), 32); Expr *e = varExpr(v); s.model[v] = lo & 0xffffffff; addCons(s, mk2(E_SLE, mkConst(lo & 0xffffffff, 32), e)); addCons(s, mk2(E_SLE, e, mkConst(hi & 0xffffffff, 32))); return fromE(e); }
BI(bi_vmake) { u64 p = cz(s, a, 0), n = cz(s, a, 1); chk(s, p, n, true); std::string nm = cstr(s, a[2]); for (u64 i = 0; i < n; i++) { u32 v = newInput(s, nm, 8); storeC(s, p + i, 1, 8, fromE(varExpr(v))); } return C(0); }
BI(bi_vconc) { return C(cz(s, a, 0, 64)); }
BI(bi_vassume) { Val c = a[0]; if (!c.e) { if (!c.v) throw PathEnd{4}; return C(0); }
  Expr *e = mkNot(mk2(E_EQ, c.e, mkConst(0, c.e->w))); if (e->op == E_CONST) { if (!e->val) throw PathEnd{4}; return C(0); }
  std::vector<u64> m; Sat r = query(s, e, m); if (r == UNSAT) throw PathEnd{4}; if (r == UNKNOWN) { S.unexplored++; throw PathEnd{3}; } s.model = m; addCons(s, e); return C(0); }
BI(bi_vassert) { Val c = a[0]; std::string msg; S.asserts++; static std::unordered_map<u64, const char *> memo; const char *mm; if (!a[1].e) { auto it = memo.find(a[1].v); if (it == memo.end()) { mm = intern(cstr(s, a[1])); if (a[1].v >> 32 < g_gname.size()) memo[a[1].v] = mm; } else mm = it->second; } else mm = intern(cstr(s, a[1])); g_assertSeen[mm]++;
  if (!c.e) { if (!c.v) { violation(s, "assert", mm, s.model); throw PathEnd{1}; } return C(0); }
  Expr *e = mkNot(mk2(E_EQ, c.e, mkConst(0, c.e->w))); S.assertq++; if (std::find(s.asserted.begin(), s.asserted.end(), e) == s.asserted.end()) s.asserted.push_back(e);
  std::vector<u64> m; Sat r = query(s, mkNot(e), m);
  if (r == SAT) { violation(s, "assert", mm, m); std::vector<u64> m2; Sat r2 = query(s, e, m2); if (r2 != SAT) throw PathEnd{1}; s.model = m2; addCons(s, e); }
  else if (r == UNKNOWN) { S.unexplored++; g_errSeen[std::string("assertion undecided within the solver budget: ") + mm]++; s.model = s.model; if (!evalExpr(e, s.model)) throw PathEnd{3}; addCons(s, e); }
  return C(0); }
BI(bi_vreach) { std::string n = cstr(s, a[0]); g_reach[n]++; s.trace.push_back({intern(n), C(0)}); return C(0); }
BI(bi_vobserve) { s.trace.push_back({intern(cstr(s, a[0])), a[1]}); return C(0); }
BI(bi_vend) { S.instr += s.icount; finishPath(s); throw PathEnd{0}; }
BI(bi_vsym) { return C(a[0].e != nullptr); }
BI(bi_vprint) { std::string v; if (a[1].e) v = "sym(" + std::to_string(evalExpr(a[1].e, s.model)) + ")"; else v = std::to_string((i64)a[1].v); fprintf(stderr, "[sx] %s %s\n", cstr(s, a[0]).c_str(), v.c_str()); return C(0); }
BI(bi_vprints) { fprintf(stderr, "[sx] %s '%s'\n", cstr(s, a[0]).c_str(), cstr(s, a[1]).c_str()); return C(0); }
BI(bi_vnative) { return C(0); }
BI(bi_assertfail) { std::string m = "assertion failed: " + cstr(s, a[0]); violation(s, "assert", m, s.model); throw PathEnd{1}; }
BI(bi_abort) { violation(s, "abort", "abort() called", s.model); throw PathEnd{1}; }
BI(bi_exit) { violation(s, "exit", "process exit called", s.model); throw PathEnd{1}; }
// byte scanning helpers with concrete fast paths come from the bitcode libc
static void regBuiltins() {
  auto &g = g_builtins; g["malloc"] = bi_malloc; g["calloc"] = bi_calloc; g["realloc"] = bi_realloc; g["free"] = bi_free;
  g["memcpy"] = g["memmove"] = g["__memcpy_chk"] = g["__memmove_chk"] = bi_memcpy; g["memset"] = g["__memset_chk"] = bi_memset;
  g["vp_byte"] = bi_vbyte; g["vp_bool"] = bi_vbool; g["vp_int"] = bi_vint; g["vp_long"] = bi_vlong; g["vp_range"] = bi_vrange; g["vp_make"] = bi_vmake; g["vp_concrete"] = bi_vconc; g["vp_assume"] = bi_vassume; g["vp_assert"] = bi_vassert; g["vp_reach"] = bi_vreach; g["vp_observe"] = bi_vobserve; g["vp_end"] = bi_vend; g["vp_is_symbolic"] = bi_vsym; g["vp_print"] = bi_vprint; g["vp_prints"] = bi_vprints; g["vp_native"] = bi_vnative;
  g["__assert_fail"] = bi_assertfail; g["abort"] = bi_abort; g["exit"] = g["_exit"] = bi_exit;
}
static Builtin findBuiltin(DFunc *f) {
  auto it = g_builtins.find(f->name); if (it != g_builtins.end()) return it->second;
  StringRef n(f->name); auto sw = [&](const char *p) { return n.starts_with(p); };
  if (sw("llvm.memcpy") || sw("llvm.memmove")) return bi_memcpy; if (sw("llvm.memset")) return bi_memset;
  if (sw("llvm.va_start")) return bi_va_start; if (sw("llvm.va_copy")) return bi_va_copy; if (sw("llvm.va_end")) return bi_nop;
  if (sw("llvm.bswap")) return bi_bswap; if (sw("llvm.umin")) return bi_umin; if (sw("llvm.umax")) return bi_umax; if (sw("llvm.smin")) return bi_smin; if (sw("llvm.smax")) return bi_smax; if (sw("llvm.abs")) return bi_iabs;
  if (sw("llvm.usub.sat")) return bi_usubsat; if (sw("llvm.uadd.sat")) return bi_uaddsat; if (sw("llvm.fsh")) return bi_fsh; if (sw("llvm.ctpop")) return bi_ctpop; if (sw("llvm.ctlz")) return bi_ctlz; if (sw("llvm.cttz")) return bi_cttz;
  if (sw("llvm.expect")) return bi_expect; if (sw("llvm.is.constant")) return bi_false; if (sw("llvm.objectsize")) return bi_objsize; if (sw("llvm.trap") || sw("llvm.ubsantrap") || sw("llvm.debugtrap")) return bi_trap;
  if (sw("llvm.stacksave")) return bi_nop; if (sw("llvm.stackrestore")) return bi_nop;
  if (sw("llvm.uadd.with") || sw("llvm.sadd.with")) return bi_addo; if (sw("llvm.usub.with") || sw("llvm.ssub.with")) return bi_subo; if (sw("llvm.umul.with") || sw("llvm.smul.with")) return bi_mulo;
  return nullptr;
}
