// Bit-vector expression DAG with hash-consing.  Expressions that depend on one
// 8-bit symbolic variable only are kept as a 256-entry value table (TAB), so the
// common case of parser code (character classes, flags, small ranges) stays in a
// canonical form; everything else is a term handed to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef int32_t i32; typedef uint16_t u16; typedef __uint128_t u128;

enum Op : u8 { E_CONST, E_VAR, E_TAB, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT };

struct Expr {
  Op op; u8 w; u32 id; u32 tvar;    // tvar: variable of TAB / VAR
  u64 val;                          // const value / extract low bit
  Expr *a, *b, *c;
  const u64 *tab;                   // 256 values for TAB
  const std::vector<u32> *deps;     // sorted variable ids
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }

struct VarInfo { std::string name; u8 w; };
extern std::vector<VarInfo> g_vars;

struct Val { u64 v; Expr *e; };
static inline Val C(u64 v) { return Val{v, nullptr}; }

bool fold2(Op op, unsigned w, u64 a, u64 b, u64 &r); // w = operand width
Expr *mkConst(u64 v, unsigned w);
Expr *mkVar(const char *name, unsigned w);
Expr *mkTab(u32 var, unsigned w, const u64 *vals);
Expr *mk2(Op op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkNot(Expr *a); // width 1
u64 evalExpr(Expr *e, const std::vector<u64> &model);
Expr *mkVarRef(u32 id, unsigned w);
static inline Expr *toE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static inline Val fromE(Expr *e) { return e->op == E_CONST ? Val{e->val, nullptr} : Val{0, e}; }
