/* @property C05
 * @quick time=60 RUN=1 label=local j=4
 * @quick time=60 RUN=2 label=peer j=4
 * @quick time=60 RUN=3 label=again j=4
 * @reach again:own again:other again:left again:rejoined again:spoke local:kicked local:remote local:denied local:service local:level local:delayed peer:kicked peer:server peer:bounced peer:own
 * @bounds one KICK by a local user of {member, self, remote member, non-member, unknown nick} with a comment of two arbitrary bytes x operator status x oplevels {0 5 998 999} x service flag x delayed-join target; one KICK from a peer by {operator, plain member, non-member, server} of a member on {this server, another server, the same peer, a server behind the same peer} x operator and voice status of the victim; after a local kick of a remote user, one of {kick by its own server, kick by another server's operator, part, join, message} before and after the victim's server answers
 * @outside local (&) channels, kicks during a burst
 */
#include "chan.inc"
static int shown(int fd, const char *nick) { w_clear(fd); w_send(fd, "NAMES #x"); w_pump(); char *l = w_find(fd, " 353 "); if (!l) return 0; char *p = strstr(l, " :"); if (!p) return 0; for (p += 2; *p;) { if (*p == '@' || *p == '+') p++; int n = strlen(nick); if (!strncmp(p, nick, n) && (p[n] == 0 || p[n] == ' ')) return 1; while (*p && *p != ' ') p++; if (*p) p++; } return 0; }
void vp_scenario(void) {
  std_network(); std_channel("#x"); struct Client *carol = FindUser("carol"), *bobc = w_client(bob);
#if RUN == 1
  int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al); w_send(al, "JOIN #x"); w_pump(); struct Membership *m = find_member_link(CH, a);
  static const char *tn[] = {"bob", "alice", "carol", "dave", "nobody"}; static const int levs[] = {0, 5, 998, 999, 6}; int t = vp_pick("target", 5), mem = vp_pick("member", 2), lev = levs[vp_pick("mylevel", 4)], tlev = t == 0 || t == 2 ? levs[vp_pick("tlevel", 5)] : lev;
  if (!mem) { w_send(al, "PART #x"); w_pump(); m = 0; }
  struct Client *tc = t < 4 ? FindUser(tn[t]) : 0; struct Membership *tm = tc ? find_member_link(CH, tc) : 0; unsigned op = 0, svc = 0, del = 0;
  if (m) { op = vp_bool("op"); m->status = symsel(m->status, CHFL_CHANOP, op); SetOpLevel(m, lev); }
  if (tm && tm != m) { SetOpLevel(tm, tlev); svc = vp_bool("service"); SYMFLAG(tc, FLAG_CHSERV, svc); del = vp_pick("delayed", 2); if (del) { tm->status |= CHFL_DELAYED; CH->mode.mode |= MODE_DELJOINS; } }
  unsigned char c0 = vp_byte("text"), c1 = vp_byte("text"); vp_assume(c0 && c0 != 10 && c0 != 13 && c1 && c1 != 10 && c1 != 13);
  char line[64]; strcpy(line, w_fmt("KICK #x %s :ab", tn[t])); int k = strlen(line); line[k - 2] = c0; line[k - 1] = c1;
  int was = CH->users; w_clear_all(); w_send(al, line); w_pump();
  unsigned could = op & (tm != 0) & (svc ^ 1u) & (unsigned)((tlev > lev) | ((tlev == lev) & (lev >= MAXOPLEVEL)));
  if (tm == m && m) could = op & (unsigned)(lev >= MAXOPLEVEL);
  const char *key = w_fmt(" KICK #x %s :", tn[t]); int nB = w_count(boss, key), nb = w_count(bob, key), na = w_count(al, key), n1 = w_count(L1, " K #x "), n2 = w_count(L2, " K #x "), n4 = w_count(al, " 482 alice #x") + w_count(al, " 441 alice ") + w_count(al, " 401 alice nobody") + w_count(al, " 484 alice ") + w_count(al, " 560 alice ");
  char e[96]; strcpy(e, w_fmt(":alice!alice@10.0.0.5 KICK #x %s :ab", tn[t])); k = strlen(e); e[k - 2] = c0; e[k - 1] = c1;
  if (could) {
    vp_assert(na == 1 && n1 == 1 && n2 == 1, "a kick is announced once to the kicker and to every server"); vp_assert(nB == !del && nb == (t == 0 || !del), "a kick is announced once to every local member");
    vp_assert(w_eq(w_find(al, key), e), "a kick shows kicker, victim and comment"); char s[64]; strcpy(s, w_fmt("%s%s K #x %s%s :ab", cli_yxx(&me), cli_yxx(a), cli_yxx(cli_user(tc)->server), cli_yxx(tc))); k = strlen(s); s[k - 2] = c0; s[k - 1] = c1; vp_assert(w_eq(w_find(L1, " K #x "), s), "servers learn kicker, victim and comment");
    vp_assert(!shown(boss, tn[t]), "a kicked user is gone from the channel"); vp_assert(t == 2 || CH->users == was - 1, "the member count follows a kick");
    w_clear_all(); if (t != 2) w_send(FindUser(tn[t]) == bobc ? bob : al, "PRIVMSG #x :still"); else w_send(L1, "ACAAA P #x :still"); w_pump(); if (t != 2) { w_clear_all(); w_send(boss, "PRIVMSG #x :news"); w_pump(); vp_assert(w_count(t == 0 ? bob : al, ":news") == 0, "a kicked user hears nothing more"); }
    if (t == 2) { w_clear_all(); w_send(L1, "ACAAA L #x"); w_pump(); vp_assert(w_count(boss, " PART #x") == 0 && CH->users == was - 1 && !find_member_link(CH, carol), "the victim's own server completes a kick silently"); vp_reach("remote"); }
    vp_reach("kicked"); if (del) vp_reach("delayed");
  } else {
    vp_assert(na + nB + nb + n1 + n2 == 0, "a refused kick is announced to nobody"); vp_assert(n4 == 1, "a refused kick gets one explanation"); vp_assert(CH->users == was, "a refused kick changes nothing"); if (tm) vp_assert(find_member_link(CH, tc) == tm && !IsZombie(tm), "a refused kick leaves the member");
    if (svc && op) vp_reach("service"); if (!op) vp_reach("denied"); else if (tm && !svc) vp_reach("level");
  }
#elif RUN == 3
  struct Membership *mc; int other = vp_pick("other", 2), ev = vp_pick("event", 5), was; struct Client *boss_c = w_client(boss); (void)boss_c; (void)bobc;
  w_send(L2, w_fmt("ADAAA J #x %l", (long)w_now)); if (other) w_send(L2, w_fmt("AD M #x +o ADAAA %l", (long)CH->creationtime)); w_pump(); was = CH->users; mc = find_member_link(CH, carol); vp_assert(mc != 0, "harness: member");
  w_advance(20); w_clear_all(); w_send(boss, "KICK #x carol :out"); w_pump(); vp_assert(w_count(bob, " KICK #x carol :out") == 1 && w_count(L1, " K #x ACAAA :out") == 1, "the kick is announced"); vp_assert(find_member_link(CH, carol) == mc && IsZombie(mc), "a remote victim is remembered until its server answers");
  w_clear_all();
  if (ev == 0) { w_send(L1, "AC K #x ACAAA :rider"); w_pump(); vp_reach("own"); vp_assert(!find_member_link(CH, carol), "a kick by the victim's own server ends a pending one"); vp_assert(w_count(L2, "AC K #x ACAAA :rider") == 1, "and is passed on"); }
  if (ev == 1) { w_send(L2, "ADAAA K #x ACAAA :too"); w_pump(); vp_reach("other"); vp_assert(find_member_link(CH, carol) == mc && IsZombie(mc), "a second kick leaves the first pending"); vp_assert(w_count(L1, "ADAAA K #x ACAAA :too") == 1, "and is passed on"); vp_assert(!w_lines(L2), "with no answer"); }
  if (ev == 4) { w_send(L1, "ACAAA P #x :late"); w_pump(); vp_reach("spoke"); vp_assert(find_member_link(CH, carol) == mc, "the kick stays pending"); }
  if (ev == 1 || ev == 2 || ev == 4) { w_clear_all(); w_send(L1, "ACAAA L #x"); w_pump(); if (ev == 2) vp_reach("left"); vp_assert(!find_member_link(CH, carol), "the victim's server completes the kick"); vp_assert(!w_lines(L1), "the answer is not answered"); }
  if (ev == 3) { w_send(L1, w_fmt("ACAAA J #x %l", (long)CH->creationtime)); w_pump(); vp_reach("rejoined"); mc = find_member_link(CH, carol); vp_assert(mc && !IsZombie(mc) && !IsChanOp(mc) && !HasVoice(mc), "a victim may come back, without status"); vp_assert(w_count(bob, "JOIN #x") + w_count(bob, "JOIN :#x") == 1 && w_count(L2, "ACAAA J #x") == 1, "the return is shown once"); vp_assert(CH->users == was, "the member count follows"); }
  else vp_assert(CH->users == was - 1, "the member count follows a kick");
  vp_assert(w_count(boss, " KICK ") + w_count(bob, " KICK ") + w_count(boss, " PART ") + w_count(bob, " PART ") == 0, "members are told of a departure once");
#else
  w_send(L1, "AC S far3.test.net 2 0 1700000000 P10 AE]]] + :far"); w_send(L1, "AE N gina 2 1600000000 gina host.gina +i AKAABp AEAAA :gina"); w_send(L1, w_fmt("AEAAA J #x %l", (long)w_now)); w_send(L1, "AC N erin 1 1600000000 erin host.erin +i AKAABp ACAAB :erin"); w_send(L1, w_fmt("ACAAB J #x %l", (long)w_now)); w_send(L2, w_fmt("ADAAA J #x %l", (long)w_now)); w_send(L1, "AC N frank 1 1600000000 frank host.f +i AKAABp ACAAC :frank"); w_pump();
  int auth = vp_pick("author", 4), t = vp_pick("target", 4); static const char *src[] = {"ACAAA", "ACAAA", "ACAAC", "AC"}, *tn[] = {"bob", "dave", "erin", "gina"}; struct Client *tc = FindUser(tn[t]); struct Membership *tm = find_member_link(CH, tc), *cm = find_member_link(CH, carol);
  if (auth == 0) cm->status |= CHFL_CHANOP; else cm->status &= ~CHFL_CHANOP; unsigned top = vp_bool("top"), tvo = vp_bool("tvoice"); tm->status = symsel(symsel(tm->status, CHFL_CHANOP, top), CHFL_VOICE, tvo); int was = CH->users;
  const char *num = w_fmt("%s%s", cli_yxx(cli_user(tc)->server), cli_yxx(tc)); w_clear_all(); w_send(L1, w_fmt("%s K #x %s :why", src[auth], num)); w_pump();
  int may = auth == 0 || auth == 3 || t >= 2; /* a victim behind the same link was already kicked there */
  const char *key = w_fmt(" KICK #x %s :why", tn[t]); int nB = w_count(boss, key), n2 = w_count(L2, w_fmt("%s K #x %s :why", src[auth], num)), n1 = w_count(L1, " K #x "), nj = w_count(L1, w_fmt("%s J #x", num));
  if (may) { vp_assert(nB == 1 && n2 == 1 && n1 == 0, "a peer's kick is shown to members and passed on, not sent back"); vp_assert(!shown(boss, tn[t]), "the victim is gone"); if (t == 0) { vp_assert(w_count(L1, w_fmt("%s L #x", num)) == 1 && !find_member_link(CH, tc), "the victim's server acknowledges a kick by parting it"); vp_assert(CH->users == was - 1, "the member count follows"); } vp_reach(t >= 2 ? "own" : auth == 3 ? "server" : "kicked"); }
  else { vp_assert(nB == 0 && n2 == 0, "a kick by a peer's non-operator is not shown or passed on"); vp_assert(find_member_link(CH, tc) == tm && !IsZombie(tm) && CH->users == was, "a kick by a peer's non-operator changes nothing"); vp_assert(nj == 1, "a refused kick is undone at the peer by joining the victim again");
    char *l = w_find(L1, " M #x "); vp_assert((l != 0) == (top | tvo), "a refused kick gives the victim's status back"); if (l) { char *q = strstr(l, " M #x ") + 6, want[4], got[4]; int wn = 0, gn = 0, na = 0, add = 0; char *a = strchr(q, ' '); for (; *q && *q != ' '; q++) { if (*q == '+') add = 1; else if (*q == '-') add = 0; else if (*q == 'o' || *q == 'v') { char *b = a ? a + 1 : 0; vp_assert(b != 0, "each mode has its argument"); a = strchr(b, ' '); int n = a ? a - b : (int)strlen(b), k = strlen(num); if (n >= k && !strncmp(b, num, k) && (n == k || b[k] == ':')) { vp_assert(add && gn < 2, "a refused kick takes nothing from the victim"); got[gn++] = *q; na++; } } } got[gn] = 0; if (top) want[wn++] = 'o'; if (tvo) want[wn++] = 'v'; want[wn] = 0; vp_assert(w_eq(got, want), "a refused kick gives exactly the victim's status back"); } vp_reach("bounced"); }
#endif
}
