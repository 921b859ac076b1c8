/* @property N05
 * @quick time=200 RUN=1 STEPS=2 label=merge j=8
 * @quick time=300 RUN=1 STEPS=3 FIRST label=three j=8
 * @quick time=100 RUN=1 STEPS=3 LATE label=late j=8
 * @quick time=100 RUN=2 label=mask j=4
 * @quick time=100 RUN=3 label=oper j=4
 * @quick time=60 RUN=4 label=local j=4
 * @quick time=60 RUN=5 label=pair j=4
 * @thorough time=60 RUN=5 label=pair j=4
 * @thorough time=1500 RUN=1 STEPS=3 label=merge j=8
 * @thorough time=300 RUN=2 DEEP label=mask j=4
 * @thorough time=300 RUN=3 DEEP label=oper j=4
 * @thorough time=60 RUN=4 label=local j=4
 * @reach merge:active merge:inactive merge:older merge:resent merge:unknown merge:expired mask:killed mask:spared mask:badchan oper:set oper:refused oper:wide oper:remote local:set local:expired pair:same pair:other
 * @bounds every sequence of two (and three after a plain one from leaf1, or one whose record outlives it by the time of the third; thorough any three) G-line messages from two peers about one mask, adding, activating, deactivating or modifying with each relation of modification time, lifetime and expiry, or local overrides, or time passing, with the matching user present and a new link made afterwards; a family of masks of every kind against a family of users (one perhaps with a hidden host), present or arriving; every pair of a family of overlapping masks; an operator's G-lines with every combination of privileges and mask width
 * @outside new G-lines whose lifetime is shorter than their expiry, activation by a message that at the same time moves the expiry into the past, GLINE lists and stats, more than two overlapping G-lines, user count limits, disabled G-lines
 */
#include "chan.inc"
#ifdef LATE
#define LATE1 1
#else
#define LATE1 0
#endif
#include "gline.h"
#include "querycmds.h"
extern struct Gline *GlobalGlineList, *BadChanGlineList;
const char *vp_features = "\"HUB\" = \"TRUE\"; \"CONFIG_OPERCMDS\" = \"TRUE\"; ";
const char *vp_conf_extra = "UWorld { name = \"leaf2.test.net\"; };\n";
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
static int try_user(const char *nick, const char *user, const char *ip) { int fd = w_connect(6667, ip, 41000); if (fd < 0) return 0; w_send(fd, w_fmt("NICK %s", nick)); w_send(fd, w_fmt("USER %s 0 0 :real name", user)); w_pump(); char *p = w_closed(fd) ? 0 : strstr(w_out(fd), "PING :"); if (p) { char c[32]; int i = 0; p += 6; while (*p && *p != '\r' && i < 30) c[i++] = *p++; c[i] = 0; w_send(fd, w_fmt("PONG :%s", c)); } w_pump(); int ok = !w_closed(fd) && w_client(fd) && IsUser(w_client(fd)); if (ok) { w_send(fd, "QUIT"); w_pump(); } return ok; }
static void idle(int t) { while (t > 0) { w_advance(t < 60 ? t : 60); t -= 60; if (!w_closed(boss)) w_send(boss, "PONG x"); if (!w_closed(bob)) w_send(bob, "PONG x"); w_send(L1, "AC Z AC :x"); w_send(L2, "AD Z AD :x"); w_pump(); } w_clear_all(); }
void vp_scenario(void) {
#if RUN == 1
  std_network(); w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_pump(); w_advance(15); w_clear_all(); const char *mask = "*b@10.0.0.6"; long T0 = 1700000000;
  int ex = 0, act = 0, loc = 0; long exp = 0, mod = 0, life = 0; const char *why = ""; int alive = 1;
  for (int s = 0; s < STEPS; s++) { w_clear_all(); int first = 0, early = 0;
#ifdef FIRST
    first = s == 0; early = s < 2;
#endif
#ifdef LATE
    first = s == 0;
#endif
    int k = first ? vp_pick("kind", 3) : LATE1 && s == 1 ? 6 : vp_pick("kind", 7); int from = !first && k < 4 ? vp_pick("from", 2) : 0, fd = from ? L2 : L1, other = from ? L1 : L2; const char *sy = from ? "AD" : "AC"; long now = w_now;
    /* the record lives until its lifetime, is active until its expiry */
    if (ex && life <= now) ex = 0; if (ex && exp <= now) { act = 0; loc = 0; }
    if (k < 4) { static const char *sg[] = {"+", "-", "", "+"}; long m = T0 + 10 * (first ? 1 : vp_pick("modified", 3)), e = k == 3 ? 0 : first || vp_pick("expiry", 2) ? 500 : 5000, lw = LATE1 && first ? 1 : k == 3 || early ? 0 : vp_pick("lifetime", ex ? 3 : 2), lf = !lw ? 0 : lw == 1 ? now + 100000 : now + 200; const char *r = w_fmt("the very reason %d", s); int hadact = ex && act && !loc, hadex = ex; (void)hadact;
      if (k == 3) w_send(fd, w_fmt("%s GL * +%s %l", sy, mask, m)); else if (lf) w_send(fd, w_fmt("%s GL * %s%s %l %l %l :%s", sy, sg[k], mask, e, m, lf, r)); else w_send(fd, w_fmt("%s GL * %s%s %l %l :%s", sy, sg[k], mask, e, m, r)); w_pump();
      if (!ex) { if (k == 3) { vp_assert(eqc(other, w_fmt("%s GL * +%s %l", sy, mask, m)) == 1 && w_count(other, " GL ") == 1, "an activation of an unknown G-line is passed on"); vp_reach("unknown"); } else { ex = 1; act = k != 1; loc = 0; exp = now + e; mod = m; life = lf ? lf : exp; why = r; vp_assert(w_count(other, " GL ") == 1 && eqc(other, w_fmt("%s GL * %s%s %l %l %l :%s", sy, act ? "+" : "-", mask, e, mod, life, why)) == 1, "a new G-line is passed on once"); } vp_assert(!w_count(fd, " GL "), "and nothing comes back"); }
      else if (m < mod) { vp_assert(!w_count(other, " GL "), "an older change is not passed on"); vp_assert(w_count(fd, " GL ") == 1, "its sender is sent the newer version"); vp_reach("older"); if (exp > now) vp_assert(eqc(fd, w_fmt("AB GL * %s%s %l %l %l :%s", act ? "+" : "-", mask, exp - now, mod, life, why)) == 1, "exactly"); }
      else if (m == mod) vp_assert(!w_count(fd, " GL ") && !w_count(other, " GL "), "the same version changes nothing");
      else { int was = act; long e2 = exp, l2 = life; const char *r2 = why; if (k != 3) { e2 = now + e; if (lf > l2) l2 = lf; if (e2 > l2) l2 = e2; r2 = r; } int can = (exp > e2 ? exp : e2) > now; int a2 = can ? (k == 1 ? 0 : k == 2 ? act : 1) : act; int sc = a2 != was, ch = sc || e2 != exp || l2 != life || strcmp(r2, why); if (sc) loc = 0;
        act = a2; exp = e2; life = l2; why = r2; if (ch) mod = m; vp_assert(w_count(other, " GL ") == ch && !w_count(fd, " GL "), "a newer change is passed on once"); if (ch && exp > now) vp_assert(eqc(other, w_fmt("%s GL * %s%s %l %l %l :%s", sy, sc ? (act ? "+" : "-") : "", mask, exp - now, mod, life, why)) == 1, "exactly"); }
      (void)hadex; int eff = ex && (loc ? loc > 0 : act); if (eff) alive = 0; }
    else if (k == 4 || k == 5) { w_send(L1, w_fmt("AC GL AB %s%s", k == 4 ? "<" : ">", mask)); w_pump(); if (ex) { if (exp > now) loc = k == 4 ? -1 : 1; if (loc > 0) alive = 0; } vp_assert(!w_count(L2, " GL "), "a local override is not passed on"); if (ex && act && loc >= 0 && exp > now) alive = 0; }
    else idle((LATE1 && s == 1) || vp_pick("wait", 2) ? 600 : 100); 
    vp_assert(w_closed(bob) == !alive, "a matching user is disconnected exactly when the G-line takes effect"); vp_assert(!w_closed(boss), "nobody else"); if (!alive) vp_assert(w_count(bob, "G-lined") >= 0, ""); }
  long now = w_now; if (ex && life <= now) { ex = 0; vp_reach("expired"); } if (ex && exp <= now) { act = 0; loc = 0; } int eff = ex && (loc ? loc > 0 : act); if (eff) vp_reach("active"); else if (ex) vp_reach("inactive");
  vp_assert(try_user("newbob", "xb", "10.0.0.6") == !eff, "a matching newcomer is refused exactly while the G-line is in effect"); vp_assert(try_user("other", "xc", "10.0.0.6") && try_user("other2", "xb", "10.0.0.7"), "others are not");
  int L3 = w_connect(4400, "10.0.0.103", 40000); w_send(L3, "PASS :lpass"); w_send(L3, w_fmt("SERVER leaf3.test.net 1 %l %l J10 AE]]] +6 :leaf", w_now - 1000, w_now)); w_pump(); vp_assert(w_count(L3, " GL ") == ex, "a new peer is told of it"); if (ex && exp > now) { vp_reach("resent"); vp_assert(eqc(L3, w_fmt("AB GL * %s%s %l %l %l :%s", act ? "+" : "-", mask, exp - now, mod, life, why)) == 1, "exactly"); }
#elif RUN == 2
  static const char *mk[] = {"*@10.0.0.6", "bob@10.0.0.*", "b?b@*", "*@10.0.0.0/24", "*@10.0.0.0/29", "bo*@10.0.0.8/29", "$Rreal*", "$R*NAME", "$Rx*", "*@10.0.*.6", "BOB@10.0.0.6", "*@10.0.0.1??", "eve@10.0.1.0/25", "*.@10.0.0.6", "*@10.0.0.128/25", "10.0.1.*", "mal@0.0.0.0/0", "$Rre?l?name", "*@2001:db8::/32", "v6@2001:db8:*"};
  static const char *nick[] = {"boss", "bob", "eve", "mal", "six"}, *ip[] = {"10.0.0.9", "10.0.0.6", "10.0.1.6", "10.0.0.130", "2001:db8::5"}; 
  static const unsigned char hit[20][5] = {{0,1,0,0,0},{0,1,0,0,0},{0,1,0,0,0},{1,1,0,1,0},{0,1,0,0,0},{1,0,0,0,0},{1,1,1,1,1},{1,1,1,1,1},{0,0,0,0,0},{0,1,1,0,0},{0,1,0,0,0},{0,0,0,1,0},{0,0,1,0,0},{0,0,0,0,0},{0,0,0,1,0},{0,0,1,0,0},{0,0,0,1,0},{1,1,1,1,1},{0,0,0,0,1},{0,0,0,0,0}};
  std_network(); int fd[5]; fd[0] = boss; fd[1] = bob; fd[2] = w_user("eve", ip[2]); fd[3] = w_user("mal", ip[3]); fd[4] = w_user_on(6667, "six", "six", ip[4]); for (int i = 0; i < 5; i++) vp_assume(1); 
  w_advance(15); int bad = vp_pick("badchan", 2); if (bad) { static const char *bm[] = {"#bad", "#b*", "#*", "&bad", "#BAD", "#x"}; static const unsigned char bh[] = {1, 0, 0, 0, 1, 0}; int m = vp_pick("mask", 6), off = vp_pick("off", 2), oper = vp_pick("oper", 2); if (oper) w_oper(boss); w_send(L1, w_fmt("AC GL * +%s 1000 1700000000 :bad channel", bm[m])); if (off) w_send(L1, w_fmt("AC GL * -%s 1000 1700000010 :bad channel", bm[m])); w_pump(); for (int i = 0; i < 5; i++) vp_assert(!w_closed(fd[i]), "a channel ban disconnects nobody"); w_clear_all(); w_send(boss, "JOIN #bad"); w_pump(); int no = bh[m] && !off && !oper; vp_reach("badchan"); struct Channel *c = FindChannel("#bad"); vp_assert((c != 0) == !no, "a banned channel cannot be joined"); vp_assert(w_count(L2, " C #bad ") == !no && w_count(boss, " JOIN ") == !no && w_count(boss, " 474 ") == no, "which is told to nobody else"); return; }
  int hide = vp_pick("hidden", 2); if (hide) { w_send(bob, "MODE bob +x"); w_send(L2, w_fmt("AD AC AB%s bobsacct", cli_yxx(w_client(bob)))); w_pump(); vp_assert(w_eq(cli_user(w_client(bob))->host, "bobsacct.users.undernet.org"), "harness: hidden"); } int m = vp_pick("mask", 20); w_clear_all(); w_send(L1, w_fmt("AC GL * +%s 1000 1700000000 1700100000 :go away", mk[m])); w_pump(); int any = 0;
  for (int i = 0; i < 5; i++) { int h = hit[m][i] || (m == 19 && i == 4 && 0); any |= h; vp_assert(w_closed(fd[i]) == h, "exactly the matching users are disconnected"); if (h) { vp_assert(w_count(fd[i], "go away") >= 1, "and told why"); vp_assert(w_count(L2, w_fmt(" Q :G-lined (go away)")) >= 1, "servers are told"); } } vp_assert(w_count(L2, " Q :") == hit[m][0] + hit[m][1] + hit[m][2] + hit[m][3] + hit[m][4], "once each"); vp_assert(FindUser("carol") && FindUser("dave"), "remote users are left to their servers"); vp_reach(any ? "killed" : "spared");
  for (int i = 0; i < 5; i++) vp_assert(try_user(w_fmt("new%s", nick[i]), nick[i], ip[i]) == !hit[m][i], "and exactly matching newcomers are refused");
#elif RUN == 3
  std_network(); int who = vp_pick("who", 3); if (who) w_oper(boss); struct Client *s = w_client(boss); if (who == 2) { ClrFlag(s, FLAG_OPER); SetFlag(s, FLAG_LOCOP); UserStats.opers--; } int pg = vp_pick("gline", 2), pl = vp_pick("localgline", 2), pw = vp_pick("wide", 2), pb = vp_pick("badchan", 2); if (who) { pg ? SetPriv(s, PRIV_GLINE) : ClrPriv(s, PRIV_GLINE); pl ? SetPriv(s, PRIV_LOCAL_GLINE) : ClrPriv(s, PRIV_LOCAL_GLINE); pw ? SetPriv(s, PRIV_WIDE_GLINE) : ClrPriv(s, PRIV_WIDE_GLINE); pb ? SetPriv(s, PRIV_LOCAL_BADCHAN) : ClrPriv(s, PRIV_LOCAL_BADCHAN); }
  w_advance(15); w_clear_all(); static const char *mk[] = {"*@10.0.0.6", "*@10.0.*", "*@*", "*@*.bad.example.com", "*@*.com", "*@a*.x.y", "*@10.0.0.0/15", "*@10.0.0.0/16", "#chan", "*@x.y.*"}; static const int lvl[] = {0, 1, 2, 1, 2, 1, 2, 1, 3, 2}; int m = vp_pick("mask", 10), force = vp_pick("force", 2); int tgt = vp_pick("target", 4), nt = tgt == 3; if (nt) tgt = 0; /* 0 local, 1 global, 2 one other server, 3 none: local */ long e = vp_pick("expiry", 3); static const long ev[] = {1000, 0, 700000000};
  w_send(boss, w_fmt("GLINE %s+%s%s %l :the reason", force ? "!" : "", mk[m], nt ? "" : tgt == 0 ? " vp.test.net" : tgt == 1 ? " *" : " leaf2.test.net", ev[e])); w_pump(); int of = force && pw; int wide = lvl[m] == 2 || (lvl[m] == 1 && !of); if (lvl[m] == 3) wide = 0;
  int perm = who && (tgt == 0 ? pl : pg); if (tgt == 0 && lvl[m] == 3 && !pb) perm = 0; int ok; if (tgt == 2) { ok = perm; vp_assert(w_count(L2, " GL ") == ok && !w_count(L1, " GL ") && !GlobalGlineList && !BadChanGlineList, "a G-line for one other server is sent there only, if permitted"); if (ok) { vp_reach("remote"); vp_assert(w_count(L2, w_fmt(" GL AD %s+%s ", of ? "!" : "", mk[m])) == 1, "as given"); } else vp_assert(w_count(boss, ":vp.test.net 4") + w_count(boss, ":vp.test.net 5") == 1, "otherwise refused"); return; }
  int badexp = e != 0; ok = perm && !wide && !badexp; struct Gline *g = lvl[m] == 3 ? BadChanGlineList : GlobalGlineList; vp_assert((g != 0) == ok, "an operator sets a G-line exactly if permitted, not too wide and of valid duration"); 
  if (ok) { vp_assert(w_count(boss, "the reason") >= 0, ""); vp_assert(g->gl_expire == w_now + 1000 && w_eq(g->gl_reason, "the reason") && GlineIsLocal(g) == (tgt == 0 ? GLINE_LOCAL : 0), "as given"); vp_assert(w_count(L1, " GL ") == tgt && w_count(L2, " GL ") == tgt, "and tells other servers exactly if global"); if (tgt) vp_assert(w_count(L2, w_fmt("GL * +%s 1000 ", mk[m])) == 1, "as given"); vp_reach("set"); int hit = m == 0 || m == 1 || m == 7; vp_assert(w_closed(bob) == hit && (m == 0 ? !w_closed(boss) : w_closed(boss) == hit), "it takes effect"); }
  else { vp_reach("refused"); if (perm && wide) vp_reach("wide"); vp_assert(!w_closed(bob) && !w_closed(boss) && !w_out(L1)[0] && !w_out(L2)[0], "otherwise nothing happens"); vp_assert(w_count(boss, ":vp.test.net ") >= 1, "and it is told"); }
#elif RUN == 5
  /* two G-lines: only one with the same text, in whatever case, is the same */
  static const char *mk[] = {"*@10.0.0.6", "*@10.0.0.*", "b*@10.0.0.6", "*@10.0.0.0/24", "*@10.0.1.0/24", "10.0.0.6", "*@10.0.0.?", "B*@10.0.0.6", "$Rreal*", "$Rr*", "$RREAL*", "#bad", "#b*", "#BAD", "b*@host.example.com", "*@*.example.com", "b*@HOST.Example.com"}; static const unsigned char id[] = {0, 1, 2, 3, 4, 0, 6, 2, 8, 9, 8, 11, 12, 11, 14, 15, 14}, hit[] = {1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0};
  std_network(); w_advance(15); w_clear_all(); int m1 = vp_pick("mask1", 17), m2 = vp_pick("mask2", 17), off = vp_pick("off", 2), same = id[m1] == id[m2]; const char *t1 = m1 == 5 ? "*@10.0.0.6" : mk[m1], *t2 = m2 == 5 ? "*@10.0.0.6" : mk[m2]; long T = 1700000000, life = w_now + 100000;
  w_send(L1, w_fmt("AC GL * +%s 1000 %l %l :the first one", mk[m1], T, life)); w_pump(); w_clear_all(); w_send(L2, w_fmt("AD GL * %s%s 2000 %l %l :the second one", off ? "-" : "+", mk[m2], T + 10, life)); w_pump();
  vp_assert(w_count(L1, " GL ") == 1 && !w_count(L2, " GL ") && w_count(L1, w_fmt("AD GL * %s%s 2000 %l %l :the second one", same && !off ? "" : off ? "-" : "+", same ? t1 : t2, T + 10, life)) == 1, "a second G-line is told to the others as given");
  int L3 = w_connect(4400, "10.0.0.103", 40000); w_send(L3, "PASS :lpass"); w_send(L3, w_fmt("SERVER leaf3.test.net 1 %l %l J10 AE]]] +6 :leaf", w_now - 1000, w_now)); w_pump(); vp_assert(w_count(L3, " GL ") == 2 - same, "another mask is another G-line"); if (!same) vp_assert(w_count(L3, w_fmt("AB GL * +%s 1000 %l %l :the first one", t1, T, life)) == 1, "which leaves the first alone"); vp_assert(w_count(L3, w_fmt("AB GL * %s%s 2000 %l %l :the second one", off ? "-" : "+", same ? t1 : t2, T + 10, life)) == 1, "and is itself as given"); vp_reach(same ? "same" : "other");
  int in = (same ? !off && hit[m1] : hit[m1] || (hit[m2] && !off)); vp_assert(try_user("newbob", "bob", "10.0.0.6") == !in, "newcomers are refused by either"); 
#else
  std_network(); w_oper(boss); w_advance(15); w_clear_all(); int form = vp_pick("form", 3), dur = vp_pick("dur", 2) ? 600 : 100; if (form == 0) w_send(boss, w_fmt("GLINE +*@10.0.0.6 %d :local one", dur)); else if (form == 1) w_send(L1, w_fmt("AC GL AB +*@10.0.0.6 %d 1700000000 :local one", dur)); else w_send(L1, w_fmt("ACAAA GL AB +*@10.0.0.6 %d 1700000000 :local one", dur)); w_pump(); vp_assert(w_closed(bob) && !w_count(L1, " GL ") && !w_count(L2, " GL "), "a local G-line acts here only"); vp_reach("set"); vp_assert(!try_user("b2", "bb", "10.0.0.6"), "newcomers are refused"); 
  int end = vp_pick("end", 3); if (end == 0) { w_send(boss, "GLINE -*@10.0.0.6 1 :x"); w_send(boss, "GLINE -*@10.0.0.6 vp.test.net 100 :x"); } else if (end == 1) w_send(L1, "AC GL AB -*@10.0.0.6 1 1 :x"); else { for (int i = 0; i < dur; i += 60) { w_advance(60); w_send(boss, "PONG x"); w_send(L1, "AC Z AC :x"); w_send(L2, "AD Z AD :x"); if (i + 60 < dur) vp_assert(!try_user(w_fmt("c%d", i), "cc", "10.0.0.6"), "until it expires"); } w_advance(dur == 100 ? 1 : 2); vp_reach("expired"); } w_pump(); vp_assert(try_user("b3", "bb", "10.0.0.6"), "until it ends");
#endif
}
