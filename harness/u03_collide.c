/* @property U03
 * @quick time=100 RUN=1 label=intro j=4
 * @quick time=100 RUN=2 label=change j=4
 * @quick time=60 RUN=3 label=peer j=2
 * @quick time=60 RUN=4 label=bad j=2
 * @thorough time=60 RUN=4 label=bad j=2
 * @thorough time=200 RUN=1 label=intro j=4
 * @thorough time=200 RUN=2 label=change j=4
 * @thorough time=60 RUN=3 label=peer j=2
 * @reach intro:new intro:old intro:both change:new change:old change:both peer:changed peer:unreg bad:intro bad:change intro:exact change:exact
 * @bounds a new user or a nick change announced by a peer, for a nick held (same or other case) by a local user or a user behind another peer, with any relation of the two times, same (in either case) or different user name, same or different address, the holder a service or not; nick changes of a peer's user to a free nick, its own in another case, or one held by an unregistered connection; a new user or a nick change announced with an invalid name, the user's own nick being a valid nick or one that reads as another user's number
 * @outside three-way collisions, nicks held behind the same peer
 */
#include "chan.inc"
#include "querycmds.h"
static int told(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
void vp_scenario(void) {
  std_network(); const char *yb = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(boss))); w_send(bob, "JOIN #x"); w_send(L1, w_fmt("ACAAA J #x %l", (long)w_now)); w_send(bob, "JOIN #y"); w_send(boss, "JOIN #y"); w_send(L2, w_fmt("ADAAA J #y %l", (long)w_now)); w_pump();
#if RUN < 3
  int local = vp_pick("holder", 2); /* 1: boss (local), 0: dave (behind leaf2) */
  const char *hn = local ? "boss" : "dave", *hnum = local ? yb : "ADAAA"; struct Client *h = FindUser(hn); long T = 1650000000, T0 = vp_range("since", 1, 2147483647); h->cli_lastnick = T0;
  int su = vp_pick("sameuser", 3), svc = vp_pick("service", 2), si = vp_pick("sameip", 2), cs = vp_pick("case", 2); const char *nn = cs ? (local ? "BOSS" : "DavE") : hn;
  const char *user = su == 2 ? local ? "BOss" : "DAVE" : su ? hn : "other", *hip = local ? "AKAAAJ" : "AKAABo"; int same = su && si;
  if (svc) SetFlag(h, FLAG_CHSERV); int exact = T == T0; if (exact) vp_reach("exact"); const char *ts = "1650000000";
#if RUN == 1
  w_clear_all(); w_send(L1, w_fmt("AC N %s 1 %s %s host.new +i %s ACAAB :new real", nn, ts, user, si ? hip : "AKAABx")); w_pump(); const char *inum = "ACAAB";
#else
  w_send(L1, w_fmt("AC N cara 1 1600000000 %s host.cara +i %s ACAAB :cara", user, si ? hip : "AKAABx")); w_send(L1, w_fmt("ACAAB J #x %l", (long)w_now));
  w_clear_all(); w_send(L1, w_fmt("ACAAB N %s %s", nn, ts)); w_pump(); const char *inum = "ACAAB";
#endif
  int killnew = same ? T <= T0 : T >= T0, killold = exact || !killnew; 
  if (killnew) vp_reach("new"); if (killold) vp_reach("old"); if (killnew && killold) vp_reach("both");
  const char *why = same ? "nick collision from same user@host" : "overruled by older nick";
  const char *kn = w_fmt("AB D %s :vp.test.net (%s)", inum, why), *ko = w_fmt("AB D %s :%s (%s)", hnum, "*.test.net", why);
  ko = w_fmt("AB D %s :", hnum);
  int n1 = 0, n2 = 0, o1 = 0, o2 = 0; for (int i = 0, n = w_lines(L1); i < n; i++) { n1 += w_eq(w_line(L1, i), kn); o1 += w_starts(w_line(L1, i), ko); } for (int i = 0, n = w_lines(L2); i < n; i++) { n2 += w_eq(w_line(L2, i), kn); o2 += w_starts(w_line(L2, i), ko); }
  vp_assert(n1 == killnew, "the peer is told to remove its user exactly if that one loses"); vp_assert(n2 == (RUN == 2 && killnew), "the other servers are told exactly if they know the losing user");
  vp_assert(o1 == killold && o2 == killold, "every server is told to remove the earlier holder exactly if it loses");
  struct Client *x = FindUser(nn), *nu = findNUser(inum), *ol = findNUser(hnum);
  vp_assert((ol != 0) == !killold && (nu != 0) == !killnew, "exactly the loser is gone"); vp_assert(x == (killnew ? (killold ? 0 : ol) : nu), "the nick belongs to the winner"); if (x) vp_assert(strcmp(cli_name(x), x == nu ? nn : hn) == 0, "under its spelling");
  if (local) { vp_assert(w_closed(boss) == killold, "a local user who loses is disconnected"); vp_assert(w_count(boss, w_fmt(" 436 boss %s ", nn)) == killold, "and told of the collision"); }
  vp_assert(w_count(bob, w_fmt(":%s!%s@%s QUIT :Killed (", hn, hn, local ? "10.0.0.9" : "host.dave")) == killold, "channels see the loser quit, once");
#if RUN == 2
  vp_assert(w_count(bob, w_fmt(":cara!%s@host.cara QUIT :Killed (", user)) == killnew, "channels see the losing changer quit, once"); vp_assert(told(bob, w_fmt(":cara!%s@host.cara NICK :%s", user, nn)) == !killnew, "and a winning changer change nick"); vp_assert(told(L2, w_fmt("ACAAB N %s %s", nn, ts)) == !killnew, "which is passed on"); if (!killnew) vp_assert(cli_lastnick(nu) == T, "with its time");
#else
  vp_assert(w_count(L2, w_fmt("AC N %s 2 %s %s host.new +i %s ACAAB :new real", nn, ts, user, si ? hip : "AKAABx")) == !killnew, "a winning new user is passed on"); if (!killnew) vp_assert(cli_lastnick(nu) == T, "with its time");
#endif
  vp_assert(w_lines(L1) == n1 + o1 && w_lines(L2) == n2 + o2 + !killnew + (killold && !local) && w_count(L2, w_fmt("AB 436 ADAAA %s ", nn)) == (killold && !local), "servers are told nothing else");
  vp_assert(!w_count(L1, " N "), "nothing is echoed to the peer");
#elif RUN == 4
  static const char *bad[] = {"1digit", "b@d", "-dash", "averyveryverylongnick", "a!b"}; const char *nn = bad[vp_pick("name", 5)]; int change = vp_pick("change", 2), odd = vp_pick("odd", 2); const char *me_ = "carol"; if (odd) { w_send(L1, "ACAAA N ADAAA 1600000000"); me_ = "ADAAA"; w_pump(); vp_assert(FindUser("ADAAA") == findNUser("ACAAA"), "harness: odd nick"); } w_advance(10); w_clear_all(); int users = UserStats.clients;
  if (change) { vp_reach("change"); w_send(L1, w_fmt("ACAAA N %s 1600000999", nn)); } else { vp_reach("intro"); w_send(L1, w_fmt("AC N %s 1 1600000000 user host.new +i AKAABx ACAAB :new real", nn)); } w_pump();
  const char *gone = change ? "ACAAA" : "ACAAB"; vp_assert(!findNUser(gone) && !FindUser(nn) && UserStats.clients == (unsigned)(users - change), "a user with an invalid nick does not stay"); vp_assert(findNUser("ADAAA") == FindUser("dave") && FindUser("dave"), "nobody else is removed");
  vp_assert(w_count(L1, w_fmt("AB D %s :", gone)) == 1 && w_count(L1, "AB D ") == 1 && w_lines(L1) == 2 - !w_count(L1, " 432 "), "the peer is told to remove it"); vp_assert(w_lines(L2) == change && w_count(L2, "AB D ACAAA :") == change, "other servers are told once if they know it"); vp_assert(w_count(bob, w_fmt(":%s!carol@host.carol QUIT :", me_)) == change && w_lines(bob) == change && !w_lines(boss), "members see it quit once");
#else
  int unreg = w_connect(6667, "10.0.0.8", 5000); w_send(unreg, "NICK early"); w_clear_all(); static const char *nm[] = {"fresh", "CAROL", "early", "carol", "verylongnick123"}; int k = vp_pick("name", 5);
  w_send(L1, w_fmt("ACAAA N %s 1600000999", nm[k])); w_pump(); struct Client *c = findNUser("ACAAA"); vp_assert(c && w_eq(cli_name(c), nm[k]) && FindUser(nm[k]) == c, "the peer's user has the new nick"); int ch = k != 3; vp_reach("changed"); if (k == 2) { vp_reach("unreg"); vp_assert(w_closed(unreg), "an unregistered connection gives way"); } else vp_assert(!w_closed(unreg), "others stay");
  vp_assert(told(bob, w_fmt(":carol!carol@host.carol NICK :%s", nm[k])) == ch && told(L2, w_fmt("ACAAA N %s %d", nm[k], k == 1 ? 1600000000 : 1600000999)) == ch, "members and other servers are told once"); vp_assert(!w_out(L1)[0] && !w_out(boss)[0] && w_lines(L2) == ch && w_lines(bob) == ch, "nobody else is told");
#endif
}
