/* @property N04
 * @quick time=100 RUN=1 label=oper j=4
 * @quick time=100 RUN=2 label=peer j=4
 * @thorough time=300 RUN=1 DEEP label=oper j=4
 * @thorough time=300 RUN=2 DEEP label=peer j=4
 * @reach oper:local oper:remote oper:refused oper:chased oper:service oper:self peer:local peer:transit peer:ghost
 * @bounds KILL with arbitrary comment bytes by an operator with every combination of the kill privileges, a local operator or an ordinary user, of each kind of target (self, local, remote, service, server, unknown, recently renamed user, a nick in other case); KILL by a peer, its user or operator of a user here, behind another peer, behind itself or gone
 * @outside length limits of the comment (R01), server notices about kills
 */
#include "chan.inc"
#include "querycmds.h"
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
static int ends(const char *s, const char *e) { int a = strlen(s), b = strlen(e); return a >= b && w_eq(s + a - b, e); }
void vp_scenario(void) {
  std_network(); int joe = w_user("joe", "10.0.0.7"); w_send(L1, "AC N erin 1 1600000000 erin host.erin +io AKAABp ACAAB :erin real"); const char *ybob = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(bob)));
  w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_send(joe, "JOIN #x"); w_send(L1, w_fmt("ACAAA J #x %l", (long)w_now)); w_send(L2, w_fmt("ADAAA J #x %l", (long)w_now)); w_send(bob, "JOIN #only");
  char t[4]; for (int i = 0; i < 3; i++) { t[i] = vp_byte("t"); vp_assume((t[i] != 0) & (t[i] != '\r') & (t[i] != '\n')); if (!i) vp_assume(t[i] != ' '); } t[3] = 0;
#if RUN == 1
  int who = vp_pick("who", 3), pk = vp_pick("kill", 2), plk = vp_pick("localkill", 2); if (who) { w_oper(boss); } w_pump(); struct Client *s = w_client(boss); if (who == 2) { ClrFlag(s, FLAG_OPER); SetFlag(s, FLAG_LOCOP); UserStats.opers--; } if (who) { if (pk) SetPriv(s, PRIV_KILL); else ClrPriv(s, PRIV_KILL); if (plk) SetPriv(s, PRIV_LOCAL_KILL); else ClrPriv(s, PRIV_LOCAL_KILL); }
  if (vp_pick("renamed", 2)) { w_send(bob, "NICK bobby"); w_send(L1, w_fmt("ACAAA N caroline %l", (long)w_now)); } w_pump(); int svc = vp_pick("service", 3); if (svc) SetFlag(svc == 1 ? w_client(bob) : findNUser("ACAAA"), FLAG_CHSERV);
  w_advance(15); w_clear_all(); static const char *tn[] = {"bob", "carol", "Dave", "boss", "nobody", "leaf1.test.net", "vp.test.net", "bobby", "JOE"}; int k = vp_pick("target", 9); const char *nb = w_fmt("%s", cli_name(w_client(bob))), *nc = w_fmt("%s", cli_name(findNUser("ACAAA")));
  struct Client *v = k == 0 ? w_client(bob) : k == 1 ? findNUser("ACAAA") : k == 2 ? findNUser("ADAAA") : k == 3 ? s : k == 7 ? (w_eq(nb, "bobby") ? w_client(bob) : 0) : k == 8 ? w_client(joe) : 0; int loc = v && MyConnect(v), isrv = k == 5 || k == 6, priv = who && (isrv ? (k == 6 ? plk : plk) : loc ? plk : pk);
  int ok = v && priv && !HasFlag(v, FLAG_CHSERV); int chased = who && ((k == 0 && nb[3]) || (k == 1 && nc[5])); const char *vn = v ? w_fmt("%s", cli_name(v)) : 0, *vy = v ? w_fmt("%s%s", cli_yxx(cli_user(v)->server), cli_yxx(v)) : 0, *vh = v ? w_fmt("%s", cli_user(v)->host) : 0, *vu = v ? w_fmt("%s", cli_user(v)->username) : 0; int vfd = k == 8 ? joe : k == 3 ? boss : bob; int nus = UserStats.clients; int onch = v != 0;
  w_send(boss, w_fmt("KILL %s :%s", tn[k], t)); w_pump(); 
  vp_assert(UserStats.clients == (unsigned)(nus - ok), "exactly the target is removed"); for (int i = 0; i < 3; i++) { int f = i == 0 ? boss : i == 1 ? bob : joe; int mine = ok && loc && f == vfd; vp_assert(w_closed(f) == mine, "its connection, if local, is closed and no other"); if (mine) { vp_assert(w_count(f, w_fmt(" KILL %s :", vn)) == 1, "the victim is told it was killed"); vp_assert(w_count(f, w_fmt("(%s)", t)) >= 1, "and why"); continue; }
    vp_assert(w_count(f, " QUIT :") == (ok && onch), "users on its channels see it quit once"); if (ok) { char *q = w_find(f, " QUIT :"); vp_assert(w_starts(q, w_fmt(":%s!%s@%s QUIT :Killed (", vn, vu, vh)) && ends(q, w_fmt(" (%s))", t)), "with the reason"); } }
  for (int i = 0; i < 2; i++) { int f = i ? L2 : L1; vp_assert(w_lines(f) == ok, "each server is told once"); if (!ok) continue; char *l = w_line(f, 0); if (loc) vp_assert(w_starts(l, w_fmt("%s Q :Killed (", vy)) && ends(l, w_fmt(" (%s))", t)), "that the local user left"); else vp_assert(w_starts(l, w_fmt("%s%s D %s :", cli_yxx(&me), cli_yxx(s), vy)) && ends(l, w_fmt("!boss (%s)", t)), "to kill the remote user"); }
  if (ok) { vp_assert(!FindUser(vn) && !findNUser(vy), "it is gone"); vp_reach(loc ? "local" : "remote"); if (k == 3) vp_reach("self"); if (vfd == bob && loc && k != 3) vp_assert(!FindChannel("#only"), "from all its channels"); } else { vp_reach("refused"); vp_assert(!v || findNUser(vy) == v, "otherwise it stays"); vp_assert(w_count(boss, ":vp.test.net 4") == 1 && w_lines(boss) == 1 + (chased && 0 < w_count(boss, "Changed KILL")), "and the sender is told why"); if (v && findNUser(vy) == v && HasFlag(v, FLAG_CHSERV) && priv) vp_reach("service"); } if (chased && ok) vp_reach("chased"); if (chased) vp_assert(w_count(boss, "Changed KILL") == 1, "a kill follows a renamed user");
#else
  w_pump(); w_advance(15); w_clear_all(); static const char *src[] = {"AC", "ACAAA", "ACAAB"}; int s = vp_pick("source", 3), k = vp_pick("target", 5); const char *vy = k == 0 ? ybob : k == 1 ? "ADAAA" : k == 2 ? "ACAAA" : k == 3 ? "ACAAB" : "ADAAQ"; struct Client *v = findNUser(vy); const char *vn = v ? w_fmt("%s", cli_name(v)) : 0, *vh = v ? w_fmt("%s", cli_user(v)->host) : 0; int nus = UserStats.clients, nop = UserStats.opers, own = k == 2 || k == 3; int svc = vp_pick("service", 2); if (svc && v) SetFlag(v, FLAG_CHSERV);
  w_send(L1, w_fmt("%s D %s :some!path (%s)", src[s], vy, t)); w_pump(); int ok = v != 0; vp_assert(UserStats.clients == (unsigned)(nus - ok) && UserStats.opers == (unsigned)(nop - (k == 3)), "exactly the target is removed"); vp_assert(!findNUser(vy), "it is gone"); vp_assert(w_closed(bob) == (k == 0) && !w_closed(boss) && !w_closed(joe), "and no other");
  if (k == 0) { vp_assert(w_count(bob, " KILL bob :") == 1 && w_count(bob, w_fmt("(%s)", t)) >= 1, "the victim is told"); vp_reach("local"); }
  int sees = ok && k != 3; vp_assert(w_lines(boss) == sees && w_lines(joe) == sees && (k == 0 || w_lines(bob) == sees), "users on its channels see it once"); if (sees) vp_assert(w_starts(w_line(boss, 0), w_fmt(":%s!%s@%s QUIT :Killed (", vn, vn, vh)) && ends(w_line(boss, 0), w_fmt(" (%s))", t)), "quit with the reason");
  vp_assert(w_lines(L2) == ok && (!ok || (eqc(L2, w_fmt("%s D %s :leaf1.test.net!some!path (%s)", src[s], vy, t)) == 1)), "the other server is told once, with the path extended"); if (k == 1) vp_reach("transit"); 
  int back = k == 0 ? 1 : k == 4 ? s > 0 : 0; vp_assert(w_lines(L1) == back, "nothing comes back"); if (k == 0) { vp_reach("ghost"); vp_assert(w_starts(w_line(L1, 0), w_fmt("AB D %s :", ybob)), "but a kill for a local user, in case the numeric collided"); }
#endif
}
