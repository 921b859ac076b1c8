/* @property N08
 * @quick time=200 RUN=1 STEPS=3 label=alive j=8
 * @quick time=100 RUN=2 label=echo j=4
 * @quick time=60 RUN=3 label=alone j=4
 * @thorough time=60 RUN=3 label=alone j=4
 * @thorough time=1500 RUN=1 STEPS=4 label=alive j=8
 * @thorough time=300 RUN=2 DEEP label=echo j=8
 * @reach alive:dropped alive:survived alive:pinged alive:unregistered alone:user alone:server alone:unregistered echo:user echo:oper echo:server echo:forward echo:gone
 * @bounds a user, slow-class user, operator, peer server or unregistered connection with every sequence of three (thorough four) pauses around the class's ping interval and twice that, each ended by one of several kinds of traffic (an answer, another command, an incomplete line), the clock seen every second while others stay alive, or alone on the server after each delay; PING and PONG with three (thorough four) arbitrary bytes from users, operators and servers to each kind of destination
 * @outside delays of the event loop itself, WebSocket keepalives, round-trip measurements
 */
#include "chan.inc"
const char *vp_features = "\"HUB\" = \"TRUE\"; ";
const char *vp_conf_extra = "Class { name = \"Slow\"; pingfreq = 3 minutes; sendq = 160000; maxlinks = 100; };\nClient { ip = \"10.0.9.*\"; class = \"Slow\"; };\n";
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
void vp_scenario(void) {
#if RUN == 1
  std_network(); w_send(bob, "JOIN #x"); w_pump(); int kind = vp_pick("kind", 5), say = vp_pick("say", 4), fd; int P = kind == 1 ? 180 : 90; w_advance(20); w_send(bob, "PONG x"); w_send(boss, "PONG x"); w_send(L1, "AC Z AC :x"); w_send(L2, "AD Z AD :x"); w_pump();
  if (kind == 0) fd = w_user("eve", "10.0.0.7"); else if (kind == 1) fd = w_user("eve", "10.0.9.7"); else if (kind == 2) { fd = w_user("eve", "10.0.0.7"); w_oper(fd); } else if (kind == 3) { fd = w_server("leaf3.test.net", "AE", 103); } else { fd = w_connect(6667, "10.0.0.7", 40001); if (say & 1) w_send(fd, "NICK eve"); w_pump(); }
  if (kind < 3) { w_send(fd, "JOIN #x"); w_pump(); w_advance(25); w_send(fd, "PONG x"); w_pump(); } /* no backlog: PONG counts when it is processed */
  static const int gp[] = {1, -1, 0, 100001, 199999, 200000}; long start = w_now, last = w_now; int pinged = 0, alive = 1, since = 0; w_clear_all();
  for (int s = 0; s < STEPS && alive; s++) { int g = vp_pick("gap", 6), d = g == 0 ? 1 : g == 1 ? P - 1 : g == 2 ? P : g == 3 ? P + 1 : g == 4 ? 2 * P - 1 : 2 * P; (void)gp;
    for (int i = 0; i < d && alive; i++) { w_advance(1); if (w_now % 30 == 0) { w_send(bob, "PONG x"); w_send(boss, "PONG x"); w_send(L1, "AC Z AC :x"); w_send(L2, "AD Z AD :x"); w_pump(); }
      if (kind == 4) { if (w_now - start >= 90) alive = 0; } else { if (w_now - last >= 2 * P) alive = 0; else if (w_now - last >= P) since = 1; }
      if (w_closed(fd) || !alive || (since && !pinged)) { w_pump(); vp_assert(w_closed(fd) == !alive, kind == 4 ? "an unregistered connection ends exactly when its time is up" : "a connection ends exactly when it was silent for twice its ping interval"); if (alive && since && !pinged) { pinged = 1; vp_reach("pinged"); vp_assert(kind == 3 ? w_count(fd, "AB G ") >= 1 : w_count(fd, "PING :vp.test.net") == 1, "a silent connection is pinged after its ping interval"); } } }
    if (!alive) break; if (kind < 3 && !pinged) vp_assert(!w_count(fd, "PING"), "one that speaks is not pinged"); if (kind < 3 && pinged) vp_assert(w_count(fd, "PING") == 1, "nor pinged twice"); 
    if (kind < 3 || kind == 4) { static const char *sy[] = {"PONG :vp.test.net\r\n", "ISON x\r\n", "IS", "\r\n"}; { const char *z = sy[kind == 4 && say == 0 ? 1 : say]; w_feed(fd, z, strlen(z)); }; } else { static const char *sy[] = {"AE Z AE :AB\r\n", "AE DE :x\r\n", "AE D", "\r\n"}; w_feed(fd, sy[say], strlen(sy[say])); } w_pump(); last = w_now; pinged = since = 0; w_clear_all(); }
  if (alive) { vp_reach("survived"); vp_assert(!w_closed(fd), "and no other"); } else { vp_reach(kind == 4 ? "unregistered" : "dropped"); if (kind < 3) { vp_assert(w_count(bob, "QUIT :Ping timeout") == 1 && !FindUser("eve"), "users sharing a channel see it leave"); vp_assert(w_count(L1, " Q :Ping timeout") == 1 && w_count(L2, " Q :Ping timeout") == 1, "and servers once"); } if (kind == 3) vp_assert(w_count(L1, "AB SQ leaf3.test.net ") == 1 && w_count(L2, "AB SQ leaf3.test.net ") == 1 && !FindServer("leaf3.test.net"), "and servers once"); if (kind == 4) vp_assert(!w_out(L1)[0] || !strstr(w_out(L1), "eve"), "nobody is told"); }
  vp_assert(!w_closed(bob) && !w_closed(boss) && !w_closed(L1) && !w_closed(L2), "others stay");
#elif RUN == 3
  /* nobody else here: the only reason to wake up is this connection */
  static const int dl[] = {0, 1, 29, 30, 31, 60, 119, 120, 121}; int d = dl[vp_pick("delay", 9)], kind = vp_pick("kind", 4), P = kind == 1 ? 180 : 90, fd; w_advance(d); if (kind == 3) { fd = w_connect(6667, "10.0.0.7", 40001); w_pump(); } else if (kind == 2) fd = w_server("leaf3.test.net", "AE", 103); else fd = w_user("eve", kind ? "10.0.9.7" : "10.0.0.7"); w_pump(); w_advance(25); if (kind < 2) w_send(fd, "PONG x"); else if (kind == 2) w_send(fd, "AE Z AE :x"); w_pump(); w_clear_all(); long last = kind == 3 ? w_now - 25 : w_now; long pinged = 0;
  for (int i = 0; i < 120 + 2 * P + 5 && !w_closed(fd); i++) { w_advance(1); w_pump(); if (!pinged && kind < 3 && (kind == 2 ? w_count(fd, "AB G :") : w_count(fd, "PING :"))) { pinged = w_now; vp_assert(w_now - last >= P, "and not pinged before its ping interval"); } }
  vp_assert(w_closed(fd), "a silent connection ends even if nothing else happens"); long t = w_now - last; vp_reach(kind == 3 ? "unregistered" : kind == 2 ? "server" : "user"); if (kind == 3) vp_assert(t >= 90 && t <= 120, "an unregistered one by the next check after its time is up"); else { vp_assert(t >= 2 * P, "not before twice the interval"); vp_assert(t <= P + 120 + P, "nor a whole interval later"); if (pinged) vp_assert(w_now - pinged >= P && w_now - pinged <= P + 1, "one interval after the ping"); }
#else
  std_network(); w_advance(15); char t[8]; int n = 3;
#ifdef DEEP
  n = 4;
#endif
  for (int i = 0; i < n; i++) { t[i] = vp_byte("t"); vp_assume((t[i] != 0) & (t[i] != '\r') & (t[i] != '\n')); } t[n] = 0; int who = vp_pick("who", 4); static const char *ds[] = {"", "vp.test.net", "leaf2.test.net", "LEAF2.test.net", "nosuch.test.net", "VP.TEST.NET"}; int dst = vp_pick("dest", 6);
  if (who == 1) w_oper(boss); w_clear_all(); int me = dst == 0 || dst == 1 || dst == 5;
  if (who < 2) { if (dst == 0) w_send(boss, w_fmt("PING :%s", t)); else { vp_assume((t[0] != ':') & (t[0] != ' ') & (t[1] != ' ') & (t[2] != ' ')); if (n > 3) vp_assume(t[3] != ' '); w_send(boss, w_fmt("PING %s %s", t, ds[dst])); } w_pump();
    if (who == 0 || me) { vp_assert(eqc(boss, w_fmt(":vp.test.net PONG vp.test.net :%s", t)) == 1 && w_lines(boss) == 1, "a PING is answered with its text"); vp_assert(!w_out(L1)[0] && !w_out(L2)[0], "and concerns nobody else"); vp_reach(who ? "oper" : "user"); }
    else if (dst == 4) { vp_assert(w_count(boss, " 402 boss nosuch.test.net ") == 1 && !w_out(L1)[0] && !w_out(L2)[0], "or refused if there is no such server"); vp_reach("gone"); }
    else { vp_assert(w_lines(boss) == 0 && !w_out(L1)[0] && eqc(L2, w_fmt("ABAAA G %s :%s", t, ds[dst])) == 1 && w_lines(L2) == 1, "an operator's PING of another server is sent there"); vp_reach("forward"); w_clear_all(); w_send(L2, w_fmt("AD Z %s ABAAA", ds[2])); w_pump(); vp_assert(w_count(boss, ":leaf2.test.net PONG ") == 1 && !w_out(L1)[0], "and the answer comes back to it"); } }
  else { const char *src = who == 2 ? "ACAAA" : "AC"; vp_assume((t[0] != ':') & (t[0] != ' ') & (t[1] != ' ') & (t[2] != ' ')); if (n > 3) vp_assume(t[3] != ' '); if (dst == 0) w_send(L1, w_fmt("%s G :%s", src, t)); else w_send(L1, w_fmt("%s G %s :%s", src, t, ds[dst])); w_pump(); vp_assert(!w_out(boss)[0], "users are not told");
    if (me) { vp_reach("server"); vp_assert(eqc(L1, w_fmt("AB Z %s :%s", t, src)) == 1 && w_lines(L1) == 1 && !w_out(L2)[0], "a server's PING is answered with its text"); } else if (dst == 4) vp_assert(!w_out(L2)[0], "or refused"); else vp_assert(eqc(L2, w_fmt("%s G %s :%s", src, t, ds[dst])) == 1 && w_lines(L2) == 1 && !w_out(L1)[0], "or passed on"); }
#endif
}
