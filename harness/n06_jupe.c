/* @property N06
 * @quick time=200 RUN=1 STEPS=2 label=merge j=8
 * @quick time=200 RUN=1 STEPS=3 FIRST label=three j=8
 * @quick time=100 RUN=2 label=oper j=4
 * @thorough time=1500 RUN=1 STEPS=3 label=merge j=8
 * @thorough time=100 RUN=2 label=oper j=4
 * @reach merge:active merge:inactive merge:older merge:resent merge:expired merge:local merge:dropped oper:set oper:refused oper:remote oper:global oper:list
 * @bounds every sequence of two (and three after a valid one from leaf1; thorough any three) JUPE messages from two peers about one server name, adding, activating or deactivating globally or locally with each relation of modification time and several durations, or time passing, with the server linked or not or only known behind a peer, and a new link afterwards; an operator's or user's JUPE with every combination of privileges, target and duration
 * @outside switching on a local jupe that was first created switched off, a global jupe of invalid duration over an existing one
 */
#include "chan.inc"
#include "jupe.h"
#include "querycmds.h"
const char *vp_features = "\"HUB\" = \"TRUE\"; \"CONFIG_OPERCMDS\" = \"TRUE\"; ";
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
static void idle(int t) { while (t > 0) { w_advance(t < 60 ? t : 60); t -= 60; if (!w_closed(boss)) w_send(boss, "PONG x"); if (!w_closed(bob)) w_send(bob, "PONG x"); w_send(L1, "AC Z AC :x"); w_send(L2, "AD Z AD :x"); w_pump(); } w_clear_all(); }
void vp_scenario(void) {
#if RUN == 1
  std_network(); int form = vp_pick("form", 3); /* linked, not linked, another server behind leaf1 */ const char *name = form == 2 ? "sub.test.net" : "leaf3.test.net"; long T0 = 1700000000; int L3 = -1;
  w_advance(15); if (form == 0) { L3 = w_server("leaf3.test.net", "AE", 103); w_pump(); } w_clear_all(); int linked = form == 0;
  int ex = 0, act = 0, off = 0, loc = 0; long exp = 0, mod = 0; const char *why = "";
  for (int s = 0; s < STEPS; s++) { w_clear_all(); if (ex && exp <= w_now) { ex = 0; vp_reach("expired"); } int first = 0;
#ifdef FIRST
    first = s == 0;
#endif
    int k = first ? vp_pick("kind", 4) : vp_pick("kind", 5), from = !first && k < 4 ? vp_pick("from", 2) : 0, fd = from ? L2 : L1, other = from ? L1 : L2; const char *sy = from ? "AD" : "AC"; long now = w_now; int told = 0;
    if (k == 4) { idle(300); if (linked && w_closed(L3)) linked = 0; continue; }
    long m = T0 + 10 * (first ? 1 : vp_pick("modified", 3)), e; { static const long ev[] = {300, 5000, 0, 604801}; e = ev[first || ex ? 0 : vp_pick("expiry", 4)]; } int on = !(k & 1), lo = k >= 2; const char *r = w_fmt("reason %d", s);
    vp_assume(!(ex && loc && !act && lo && on));
    w_send(fd, w_fmt("%s JU %s %s%s %l %l :%s", sy, lo ? "AB" : "*", on ? "+" : "-", name, e, m, r)); w_pump();
    if (ex && loc && !lo) ex = 0;
    if (!ex) { if (e > 0 && e <= 604800) { ex = 1; act = on; off = 0; loc = lo; exp = now + e; mod = m; why = r; told = !lo; if (told) vp_assert(eqc(other, w_fmt("%s JU * %s%s %l %l :%s", sy, on ? "+" : "-", name, e, m, r)) == 1, "a new jupe is passed on as given"); if (lo) vp_reach("local"); } }
    else if (m > mod) { if (lo) { if (loc) { if (!on) ex = 0; } else off = !on; vp_reach("local"); } else { told = act != on; act = on; mod = m; if (told) vp_assert(eqc(other, w_fmt("%s JU * %s%s %l %l :%s", sy, on ? "+" : "-", name, exp - now, m, why)) == 1, "a newer state is passed on"); else if (on && off) told = w_count(other, " JU ") != 0; } }
    else { if (m < mod && !loc) { vp_reach("older"); vp_assert(eqc(fd, w_fmt("AB JU * %s%s %l %l :%s", act ? "+" : "-", name, exp - now, mod, why)) == 1 && w_count(fd, " JU ") == 1, "the sender of an older version is sent the newer one"); } else vp_assert(!w_count(fd, " JU "), "the same version changes nothing"); }
    vp_assert(w_count(other, " JU ") == told, "other servers are told once, exactly of global changes"); if (!(ex && m < mod && !loc)) vp_assert(!w_count(fd, " JU "), "nothing comes back");
    int eff = ex && act && !off; if (linked) { vp_assert(w_closed(L3) == eff, "a jupe in effect ends the link of its server, and only that"); vp_assert(w_count(L1, "AB SQ leaf3.test.net ") + w_count(L2, "AB SQ leaf3.test.net ") == 2 * eff, "others are told"); if (eff) { linked = 0; vp_reach("dropped"); vp_assert(!FindServer(name), "it is gone"); } }
    vp_assert(!w_closed(L1) && !w_closed(L2), "no other link ends"); }
  w_clear_all(); if (ex && exp <= w_now) { ex = 0; vp_reach("expired"); } int eff = ex && act && !off; if (eff) vp_reach("active"); else if (ex) vp_reach("inactive"); long now = w_now; struct Jupe *j = jupe_find((char *)name); vp_assert((j != 0) == ex && (!j || (!!JupeIsActive(j)) == eff), "the jupe is in effect exactly if the latest version says so");
  if (linked) return; if (form == 2) { w_send(L1, w_fmt("AC S sub.test.net 2 0 %l P10 AH]]] +6 :sub", now)); w_pump(); vp_assert(FindServer("sub.test.net") != 0 && w_count(L2, " S sub.test.net ") == 1, "a server behind a peer is left to the peer's jupes"); w_clear_all(); }
  L3 = w_connect(4400, "10.0.0.103", 40000); w_send(L3, "PASS :lpass"); w_send(L3, w_fmt("SERVER leaf3.test.net 1 %l %l J10 AE]]] +6 :leaf", now - 1000, now)); w_pump(); int bad = form != 2 && eff; vp_assert((FindServer("leaf3.test.net") != 0) == !bad && w_closed(L3) == bad && w_count(L2, " S leaf3.test.net ") == !bad, "a juped server cannot link"); if (bad) vp_assert(w_count(L3, w_fmt("Juped: %s", why)) >= 1, "and is told why");
  if (!bad) { int tell = ex && !loc; vp_assert(w_count(L3, " JU ") == tell, "a new peer is told the global jupes"); if (tell) { vp_reach("resent"); vp_assert(eqc(L3, w_fmt("AB JU * %s%s %l %l :%s", act ? "+" : "-", name, exp - now, mod, why)) == 1, "exactly"); } }
#else
  std_network(); int who = vp_pick("who", 3); if (who) w_oper(boss); struct Client *s = w_client(boss); if (who == 2) { ClrFlag(s, FLAG_OPER); SetFlag(s, FLAG_LOCOP); UserStats.opers--; } int pg = vp_pick("jupe", 2), pl = vp_pick("localjupe", 2); if (who) { pg ? SetPriv(s, PRIV_JUPE) : ClrPriv(s, PRIV_JUPE); pl ? SetPriv(s, PRIV_LOCAL_JUPE) : ClrPriv(s, PRIV_LOCAL_JUPE); }
  w_advance(15); w_clear_all(); int tgt = vp_pick("target", 6), e = vp_pick("expiry", 3), on = vp_pick("on", 2), prior = vp_pick("prior", 3); static const long ev[] = {1000, 0, 604801}; static const char *tg[] = {"", " vp.test.net", " *", " leaf2.test.net", " nosuch.test.net", ""}; long m0 = w_now - 100;
  if (prior) { w_send(L1, w_fmt("AC JU %s +leaf3.test.net 500 %l :old", prior == 1 ? "AB" : "*", m0)); w_pump(); w_clear_all(); }
  if (tgt == 5) { static const char *q[] = {"JUPE", "JUPE leaf3.test.net", "JUPE +leaf3.test.net", "JUPE +leaf3.test.net 100"}; int i = vp_pick("query", 4); w_send(boss, q[i]); w_pump(); struct Jupe *j = jupe_find("leaf3.test.net"); vp_assert((j != 0) == (prior != 0) && !w_count(L1, " JU ") && !w_count(L2, " JU ") , "a query changes nothing"); vp_assert(w_count(boss, " 282 ") == (prior && who && i < 2), "and lists the jupes to operators"); vp_reach("list"); return; }
  w_send(boss, w_fmt("JUPE %sleaf3.test.net%s %l :the reason", on ? "+" : "-", tg[tgt], ev[e])); w_pump(); int perm = who && (tgt == 0 || tgt == 1 ? pl : pg); struct Jupe *j = jupe_find("leaf3.test.net"); long now = w_now;
  if (!perm || tgt == 4) { vp_reach("refused"); vp_assert((j != 0) == (prior != 0) && (!j || (JupeIsActive(j) && w_eq(JupeReason(j), "old") && JupeLastMod(j) == m0)), "who lacks the privilege changes nothing"); vp_assert(!w_count(L1, " JU ") && !w_count(L2, " JU "), "and reaches no server"); if (who) vp_assert(w_count(boss, ":vp.test.net 481 ") + w_count(boss, ":vp.test.net 402 ") == 1, "and is told"); return; }
  if (tgt == 3) { vp_reach("remote"); vp_assert(w_count(L2, w_fmt(" JU AD %sleaf3.test.net %l %l :the reason", on ? "+" : "-", ev[e], now)) == 1 && w_count(L2, " JU ") == 1 && !w_count(L1, " JU "), "a jupe for one other server is sent there only"); vp_assert((j != 0) == (prior != 0), "and not set here"); return; }
  int lo = tgt != 2, told; if (prior && !(prior == 1 && !lo)) { int gone = prior == 1 && !on; vp_assert((j != 0) == !gone && (gone || !!JupeIsActive(j) == on), "an existing jupe is switched"); told = !lo && !on; }
  else { int ok = e == 0; told = ok && !lo; vp_assume(ok || prior == 0); vp_assert((j != 0) == ok && (!ok || ((!!JupeIsActive(j)) == on && !JupeIsLocal(j) == !lo && j->ju_expire == now + 1000 && w_eq(JupeReason(j), "the reason"))), "a jupe of valid duration is set as given"); if (ok) vp_reach(lo ? "set" : "global"); if (!ok) vp_assert(w_count(boss, ":vp.test.net 515 ") == 1, "an invalid one is refused"); }
  vp_assert(w_count(L1, " JU ") == told && w_count(L2, " JU ") == told, "servers are told once, exactly of global changes");
#endif
}
