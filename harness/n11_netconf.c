/* @property N11
 * @quick time=150 D=2 label=net j=4
 * @thorough time=2500 D=3 label=net j=8
 * @reach net:set net:changed net:same net:old net:deleted net:absent net:burst net:user
 * @bounds every sequence of two (thorough three) settings, changes and deletions of two keys (one written in either case) from two peers, with an older, equal or newer time, short and long values, spelled in either case, after which a server links and users look; the same from a user, an operator and an unregistered connection
 * @outside what each setting controls (U12, U13), a setting older than a deletion
 */
#include "chan.inc"
#include "ircd_netconf.h"
#ifndef D
#define D 2
#endif
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
void vp_scenario(void) {
  std_network(); w_oper(boss); w_advance(15); w_clear_all(); static const char *key[] = {"sasl.mechanisms", "SASL.Mechanisms", "some.other.key"}; char lng[300]; for (int i = 0; i < 280; i++) lng[i] = "PLAIN,"[i % 6]; lng[280] = 0; const char *val[] = {"PLAIN", "plain", "A B :c", 0, lng};
  struct { int on; long t; const char *v; const char *k; } m[2] = {{0}}; w_send(L1, "AC CF 1000 sasl.mechanisms :PLAIN"); w_send(L1, "AC CF 1600000000 sasl.server :leaf2.*"); w_pump(); m[0].on = 1; m[0].t = 1000; m[0].v = "PLAIN"; m[0].k = "sasl.mechanisms"; int extra = 1; vp_assert(eqc(L2, "AC CF 1000 sasl.mechanisms :PLAIN") == 1, "a setting is passed on");
  if (vp_pick("kind", 2)) { /* nobody but servers sets anything */ int u = vp_pick("user", 3), fd = u == 0 ? bob : u == 1 ? boss : w_connect(6667, "10.0.0.80", 5000); w_clear_all(); w_send(fd, "CF 2000 sasl.mechanisms :EVIL"); w_send(fd, "CONFIG 2000 sasl.mechanisms :EVIL"); w_pump(); vp_assert(w_eq(config_get("sasl.mechanisms"), "PLAIN") && !w_out(L1)[0] && !w_out(L2)[0], "only servers set anything"); vp_reach("user"); return; }
  for (int s = 0; s < D; s++) { int w = vp_pick("from", 2), k = vp_pick("key", 3), v = vp_pick("value", 5), d = vp_pick("time", 3), e = k == 2; long t = (m[e].on ? m[e].t : 1000) + d - 1; int fd = w ? L2 : L1, to = w ? L1 : L2; const char *n = w ? "AD" : "AC"; w_clear_all(); int was = m[e].on;
    if (!was && m[e].t && t <= m[e].t) vp_end(); /* a setting older than a deletion */
    w_send(fd, val[v] ? w_fmt("%s CF %l %s :%s", n, t, key[k], val[v]) : w_fmt("%s CF %l %s", n, t, key[k])); w_pump(); int ok = val[v] ? !m[e].on || t > m[e].t : m[e].on && t > m[e].t;
    if (ok) { m[e].on = val[v] != 0; m[e].t = t; m[e].v = val[v]; if (!was) m[e].k = key[k]; }
    vp_reach(ok ? val[v] ? was ? "changed" : "set" : "deleted" : was ? d == 1 ? "same" : "old" : "absent");
    const char *got = config_get(key[k]); vp_assert(!!got == m[e].on && (!got || w_eq((char *)got, m[e].v)), "the newest setting holds"); const char *oth = config_get(key[e ? 0 : 2]); vp_assert(!!oth == m[!e].on && (!oth || w_eq((char *)oth, m[!e].v)), "the others stay");
    vp_assert(!w_out(fd)[0] && w_lines(to) == ok && (!ok || eqc(to, val[v] ? w_fmt("%s CF %l %s :%s", n, t, key[k], val[v]) : w_fmt("%s CF %l %s", n, t, key[k])) == 1), "and is passed on once, never back, if it is news"); }
  w_clear_all(); int L3 = w_connect(4400, "10.0.0.103", 40000); w_send(L3, "PASS :lpass"); w_send(L3, w_fmt("SERVER leaf3.test.net 1 %l %l J10 AE]]] +h6 :leaf", (long)w_now - 1000, (long)w_now)); w_pump(); vp_assert(w_client(L3) && IsServer(w_client(L3)), "harness: linked");
  for (int e = 0; e < 2; e++) if (m[e].on) vp_assert(eqc(L3, w_fmt("AB CF %l %s :%s", m[e].t, m[e].k, m[e].v)) == 1, "a server that links is told every setting with its time"); vp_assert(w_count(L3, " CF ") == m[0].on + m[1].on + extra, "once, and no other"); vp_reach("burst"); vp_assert(!w_count(L1, " CF ") && !w_count(L2, " CF "), "nobody else is told again");
  w_clear_all(); w_send(boss, "CAP LS 302"); w_pump(); vp_assert(!!strstr(w_out(boss), "sasl") == m[0].on && (!m[0].on || strlen(m[0].v) > 250 || strstr(w_out(boss), w_fmt("sasl=%s", m[0].v))), "and it is in effect");
}
