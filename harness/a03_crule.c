/* @property A03
 * @quick time=120 RUN=1 D=6 label=grammar j=8
 * @quick time=60 RUN=2 label=functions j=4
 * @quick time=100 RUN=3 D=3 label=bytes j=8
 * @quick time=60 RUN=4 label=effect j=4
 * @thorough time=2000 RUN=1 D=7 label=grammar j=8
 * @thorough time=60 RUN=2 label=functions j=4
 * @thorough time=900 RUN=3 D=4 label=bytes j=8
 * @thorough time=60 RUN=4 label=effect j=4
 * @reach grammar:accepted grammar:refused grammar:true grammar:false functions:true functions:false functions:refused bytes:accepted bytes:refused effect:blocked effect:allowed effect:auto effect:inbound
 * @bounds grammar: every rule of up to 6 (thorough 7) tokens out of true, false and undetermined functions, !, (, ), &&, ||, and malformed or surplus ones, each evaluated with the operator condition true and false; functions: each function with each of 17 argument lists on four networks; bytes: 3 (thorough 4) arbitrary bytes before, between or after functions; effect: rules for all or only automatic connections against CONNECT by a local and a remote operator, automatic connection and inbound link
 * @outside rules over 60 bytes; single & or | signs in odd places (accepted or refused as they are)
 */
#include "chan.inc"
#include "crule.h"
#ifndef RUN
#define RUN 1
#endif
#ifndef D
#define D 4
#endif
#if RUN == 4
const char *vp_conf_extra = "Class { name = \"Auto\"; pingfreq = 90; connectfreq = 60; maxlinks = 5; };\nConnect { name = \"far1.test.net\"; host = \"10.0.0.111\"; password = \"lpass\"; port = 4401; class = \"Auto\"; };\n"
 "CRule { server = \"far1.test.net\"; rule = \"directcon(leaf1.test.net) && !connected(leaf2*)\"; all = yes; };\n"
 "CRule { server = \"far1*\"; rule = \"directop()\"; };\nCRule { server = \"leaf3*\"; server = \"nope.test.net\"; rule = \"via(leaf1*,sub*)\"; all = yes; };\n";
#endif
void vp_scenario(void) {
#if RUN == 1
  L1 = w_server("leaf1.test.net", "AC", 101); bob = w_user("bob", "10.0.0.6"); w_oper(bob); struct Client *o = w_client(bob);
  static const char *tok[] = {"connected(leaf1*)", "connected(nope*)", "directop()", "!", "(", ")", "&&", "||", "7", "directop(x)", "nofunc()", ", ", "directop( ", "via(a)"};
  enum { T, F, S, NOT, OPEN, CLOSE, AND, OR }; char rule[200]; rule[0] = 0; int t[8], n = 0, depth = 0, prim = 1, bad = 0; /* prim: a primary is expected */
  for (int s = 0; s < D && !bad; s++) { int k = vp_pick("token", 15); if (k == 14) break; t[n++] = k; strcat(rule, tok[k]); if (vp_pick("space", s ? 1 : 2)) strcat(rule, " ");
    if (k > OR) bad = 1; else if (k <= S) { if (!prim) bad = 1; prim = 0; } else if (k == NOT) { if (!prim) bad = 1; } else if (k == OPEN) { if (!prim) bad = 1; depth++; } else if (k == CLOSE) { if (prim || !depth) bad = 1; depth--; } else { if (prim) bad = 1; prim = 1; } }
  int ok = !bad && n && !prim && !depth; struct CRuleNode *r = crule_parse(rule); vp_assert((r != 0) == ok, "a rule is accepted exactly if it is well formed"); vp_reach(ok ? "accepted" : "refused"); if (!r) return;
  for (int op = 0; op < 2; op++) { if (op) SetOper(o); else ClearOper(o);
    /* evaluate with explicit stacks: values and operators by precedence */
    int v[16], nv = 0, ops[16], no = 0; 
    for (int i = 0; i <= n; i++) { int k = i < n ? t[i] : CLOSE;
      if (k <= S) { int x = k == T ? 1 : k == F ? 0 : op; while (no && ops[no - 1] == NOT) { x = !x; no--; } v[nv++] = x; }
      else if (k == NOT || k == OPEN) ops[no++] = k;
      else { while (no && ops[no - 1] != OPEN && ops[no - 1] != NOT && (k == CLOSE || k == OR || ops[no - 1] == AND)) { int y = v[--nv], x = v[--nv]; v[nv++] = ops[--no] == AND ? x && y : x || y; }
        if (k == CLOSE) { if (i < n) { no--; while (no && ops[no - 1] == NOT) { v[nv - 1] = !v[nv - 1]; no--; } } } else ops[no++] = k; } }
    int e = crule_eval(r); vp_assert((e != 0) == v[0], "it is true exactly when its expression is"); vp_reach(v[0] ? "true" : "false"); }
  SetOper(o); crule_free(&r); vp_assert(!r, "and is freed");
#elif RUN == 2
  static const char *fn[] = {"connected", "DirectCon", "via", "directop", "nofunc", "directo"}; static const char *args[] = {"", "leaf1.test.net", "leaf1*", "LEAF2*", "sub*", "*", "vp.test.net", "nope", "leaf1*,sub*", "leaf2*,sub*", "sub*,leaf1*", "leaf1*, leaf1*", "*,*", "a,b,c", "a,b,c,d", "a,b,c,d,e,f,g,h,i,j,k", "leaf1.test.ne"};
  static const int na[] = {0, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 4, 11, 1}; int st = vp_pick("network", 4), f = vp_pick("function", 6), a = vp_pick("args", 17), op = vp_pick("oper", 3);
  bob = w_user("bob", "10.0.0.6"); if (st) { L1 = w_server("leaf1.test.net", "AC", 101); if (st == 2) { w_send(L1, "AC S sub.test.net 2 0 1600000000 J10 BA]]] +6 :s"); w_pump(); } if (st == 3) { L2 = w_server("leaf2.test.net", "AD", 102); w_send(L2, "AD S sub.test.net 2 0 1600000000 J10 BA]]] +6 :s"); w_pump(); } }
  if (op) { w_send(bob, op == 1 ? "OPER god secret" : "OPER loc secret"); w_pump(); vp_assert(IsAnOper(w_client(bob)), "harness: oper"); } if (st && op == 0) { w_send(L1, "AC N remo 1 1600000000 r h +io AKAgAB ACAAC :x"); w_pump(); }
  char rule[200]; strcpy(rule, fn[f]); strcat(rule, "("); strcat(rule, args[a]); strcat(rule, ")"); static const int need[] = {1, 1, 2, 0, 99, 99}; struct CRuleNode *r = crule_parse(rule); vp_assert((r != 0) == (need[f] == na[a]), "a function is accepted exactly with the arguments it takes"); if (!r) { vp_reach("refused"); return; }
  int l1 = st >= 1, l2 = st == 3, sb = st >= 2, s1 = st == 2, s2 = st == 3, want = 0;
  if (f == 0) want = a == 1 || a == 2 ? l1 : a == 3 ? l2 : a == 4 ? sb : a == 5 ? l1 : 0; else if (f == 1) want = a == 1 || a == 2 ? l1 : a == 3 ? l2 : a == 5 ? l1 : 0; else if (f == 2) want = a == 8 ? s1 : a == 9 ? s2 : a == 11 ? l1 : a == 12 ? l1 : 0; else want = op != 0;
  int e = crule_eval(r); vp_assert((e != 0) == want, "a condition is true exactly when the network is as it says"); vp_reach(want ? "true" : "false"); crule_free(&r);
#elif RUN == 3
  char rule[80]; rule[0] = 0; int w = vp_pick("where", 4), n = 0; static const char *pre[] = {"", "directop()", "directop() ||", "directop("}, *post[] = {"directop()", "directop()", "", ")"}; strcpy(rule, pre[w]); n = strlen(rule); for (int i = 0; i < D; i++) { unsigned char c = vp_byte("c"); rule[n++] = c; } rule[n] = 0; strcpy(rule + n, post[w]);
  struct CRuleNode *r = crule_parse(rule); vp_reach(r ? "accepted" : "refused"); if (r) { int e = crule_eval(r); (void)e; crule_free(&r); vp_assert(!r, "freed"); }
#else
  int l1 = vp_pick("leaf1", 2), l2 = vp_pick("leaf2", 2), op = vp_pick("oper", 2), how = vp_pick("how", 4), sub = l1 ? vp_pick("sub", 2) : 0; boss = w_user("boss", "10.0.0.9"); bob = w_user("bob", "10.0.0.6");
  if (l1) L1 = w_server("leaf1.test.net", "AC", 101); if (l2) L2 = w_server("leaf2.test.net", "AD", 102); if (sub) { w_send(L1, "AC S sub.test.net 2 0 1600000000 J10 BA]]] +6 :s"); w_pump(); }
  if (how == 0) { if (!op) return; w_oper(boss); w_advance(15); w_clear_all(); int k = w_outgoing; w_send(boss, "CONNECT far1.test.net"); w_pump(); int ok = !(l1 && !l2); vp_assert(w_outgoing == k + ok, "CONNECT is refused exactly while a rule for all connections holds"); vp_assert(w_count(boss, "Disallowed by rule: directcon(leaf1.test.net) && !connected(leaf2*)") == !ok, "and told which"); vp_reach(ok ? "allowed" : "blocked"); if (ok) vp_assert(w_rport(w_outfd) == 4401, "and goes to the port configured"); }
  else if (how == 1) { if (op) w_oper(boss); w_advance(15); w_clear_all(); int k = w_outgoing, m = 0; for (int i = 0; i < 30; i++) { w_advance(30); if (l1) w_send(L1, "AC Z x"); if (l2) w_send(L2, "AD Z x"); w_send(boss, "PONG x"); w_send(bob, "PONG x"); w_pump(); if (w_outgoing > k) { m = 1; break; } } int ok = !(l1 && !l2) && !op; vp_assert(m == ok, "an automatic connection is made exactly while no rule holds"); vp_reach("auto"); vp_reach(ok ? "allowed" : "blocked"); }
  else if (how == 2) { if (!l1) return; w_send(L1, "AC N remo 1 1600000000 r h +io AKAgAB ACAAC :x"); w_pump(); if (op) w_oper(boss); w_clear_all(); int k = w_outgoing; w_send(L1, "ACAAC CO far1.test.net 4401 AB"); w_pump(); int ok = l2; vp_assert(w_outgoing == k + ok, "nor can a remote operator override a rule"); vp_assert(w_count(L1, "Disallowed by rule: directcon(leaf1.test.net)") == !ok, "and told which"); vp_reach(ok ? "allowed" : "blocked"); }
  else { if (op) w_oper(boss); w_clear_all(); int c = w_connect(4400, "10.0.0.103", 40000); w_send(c, "PASS :lpass"); w_send(c, w_fmt("SERVER leaf3.test.net 1 %l %l J10 AE]]] +6 :the leaf", (long)w_now - 1000, (long)w_now - 5)); w_pump(); int ok = !sub; vp_assert((!w_closed(c) && IsServer(w_client(c))) == ok, "an inbound link is refused exactly while a rule for all connections holds"); vp_reach("inbound"); vp_reach(ok ? "allowed" : "blocked"); if (!ok) vp_assert(w_closed(c) && strstr(w_out(c), "Disallowed by connection rule") != 0, "and is told"); }
#endif
}
