/* @property U05
 * @quick time=150 RUN=1 label=local j=8
 * @quick time=100 RUN=2 label=remote j=4
 * @quick time=100 RUN=3 NT=3 label=list j=4
 * @quick time=60 RUN=4 label=mask j=4
 * @thorough time=900 RUN=1 DEEP label=local j=8
 * @thorough time=300 RUN=2 DEEP label=remote j=4
 * @thorough time=600 RUN=3 NT=4 label=list j=8
 * @thorough time=60 RUN=4 label=mask j=4
 * @reach local:delivered local:silenced local:unauth local:common local:away local:echo remote:delivered remote:transit remote:gone list:dup list:nosuch mask:oper mask:refused mask:directed mask:peer
 * @bounds PRIVMSG or NOTICE of three arbitrary text bytes between a local user and a local or remote user, and from a peer's user to a local user or one behind another peer, with every combination of +R, +c, +k, silence, away, account, operator status, common channel and echo-message; target lists of three (thorough four) out of users in any spelling, channel, unknown names; server and host masks, nick@server and nick%host@server, by users, operators and a peer's operator
 * @outside spam filters (A09), target limits (U07), message tags (W04), CPRIVMSG
 */
#include "chan.inc"
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
void vp_scenario(void) {
  std_network(); const char *yb = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(boss))), *yo = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(bob))); (void)yb; (void)yo;
#if RUN == 1 || RUN == 2
  int notice = vp_pick("notice", 2); const char *cmd = notice ? "NOTICE" : "PRIVMSG", *tok = notice ? "O" : "P"; char t[4]; for (int i = 0; i < 3; i++) { t[i] = vp_byte("t"); vp_assume((t[i] != 0) & (t[i] != '\r') & (t[i] != '\n')); } t[3] = 0;
  int common = vp_pick("common", 4); /* 3: no channel at all, 1: shared channel, 2: shared but sender hidden there (delayed join) */
  int rt; const char *tn, *ty; struct Client *s, *tc; int sfd, tfd;
#if RUN == 1
  rt = vp_pick("target", 2); tn = rt ? "dave" : "bob"; ty = rt ? "ADAAA" : yo; s = w_client(boss); tc = FindUser(tn); sfd = boss; tfd = rt ? L2 : bob;
  if (common < 3) w_send(rt ? L2 : bob, rt ? w_fmt("ADAAA C #c %l", (long)w_now) : "JOIN #c"); if (common == 2) w_send(tfd, rt ? "ADAAA M #c +D" : "MODE #c +D"); if (common == 1 || common == 2) w_send(boss, "JOIN #c");
#else
  int tt = vp_pick("target", 3); rt = tt == 1; tn = rt ? "dave" : "bob"; ty = tt == 2 ? "ABAAQ" : rt ? "ADAAA" : yo; s = FindUser("carol"); tc = FindUser(tn); sfd = L1; tfd = rt ? L2 : bob;
  if (common < 3) w_send(rt ? L2 : bob, rt ? w_fmt("ADAAA C #c %l", (long)w_now) : "JOIN #c"); if (common == 2) w_send(tfd, rt ? "ADAAA M #c +D" : "MODE #c +D"); if (common == 1 || common == 2) w_send(L1, w_fmt("ACAAA J #c %l", (long)w_now));
#endif
  w_pump(); int sil = 0, away = 0, echo = 0;
  if (RUN == 1 || rt || 1) { sil = vp_pick("silence", 3); if (sil) w_send(tfd, rt ? w_fmt("ADAAA U %s +%s!*@*", RUN == 1 ? yb : "*", sil == 1 ? cli_name(s) : "other") : w_fmt("SILENCE +%s!*@*", sil == 1 ? cli_name(s) : "other")); }
  int R = vp_bool("R"), c = vp_bool("c"), acct = vp_bool("account"), op = 0, k = vp_bool("service"); 
#ifdef DEEP
  op = vp_bool("oper"); SYMFLAG(s, FLAG_LOCOP, op);
#endif
  SYMFLAG(tc, FLAG_BLOCK_UNAUTH_USERS, R); SYMFLAG(tc, FLAG_COMMONCHANS, c); SYMFLAG(s, FLAG_ACCOUNT, acct); SYMFLAG(s, FLAG_CHSERV, k);
#if RUN == 1
  away = vp_pick("away", 2); if (away) w_send(tfd, rt ? "ADAAA A :gone fishing" : "AWAY :gone fishing"); echo = vp_pick("echo", 2); if (echo) w_send(boss, "CAP REQ :echo-message");
#endif
  w_pump(); w_advance(15); w_clear_all();
#if RUN == 1
  w_send(boss, w_fmt("%s %s :%s", cmd, w_eq(tn, "bob") ? "BOB" : tn, t)); w_pump();
  int unauth = R && !acct; if (unauth && (op || k)) unauth = 0; int silenced = sil == 1, drop = c && common != 1 && !op && !k, ok = !unauth && !silenced && !drop; 
  const char *got = rt ? w_fmt("%s %s ADAAA :%s", yb, tok, t) : w_fmt(":boss!boss@10.0.0.9 %s bob :%s", cmd, t);
  vp_assert(eqc(tfd, got) == ok && w_lines(tfd) == ok, "the message is delivered once, unmodified, exactly if the target accepts it"); vp_assert(!w_out(L1)[0] && (rt ? !w_out(bob)[0] : !w_out(L2)[0]), "and to nobody else");
  vp_assert(eqc(boss, w_fmt(":boss!boss@10.0.0.9 %s %s :%s", cmd, tn, t)) == (ok && echo), "it is echoed exactly on request"); int aw = w_count(boss, w_fmt(":vp.test.net 301 boss %s :gone fishing", tn)); vp_assert(aw == (ok && away && !notice), "the sender learns that the target is away");
  vp_assert(w_lines(boss) == (ok && echo) + (ok && away && !notice) + (unauth && !notice), "and nothing else"); if (unauth && !notice) { vp_reach("unauth"); vp_assert(w_starts(w_line(boss, 0), ":vp.test.net 4"), "a refusal is explained"); }
  if (ok) vp_reach("delivered"); if (silenced) vp_reach("silenced"); if (drop) vp_reach("common"); if (aw) vp_reach("away"); if (echo && ok) vp_reach("echo");
#else
  w_send(L1, w_fmt("ACAAA %s %s :%s", tok, ty, t)); w_pump(); int exists = tt != 2, unauth = R && !acct && !op && !k, silenced = sil == 1, drop = c && common != 1 && !op && !k, ok = exists && !unauth && !silenced && !drop;
  const char *got = rt ? w_fmt("ACAAA %s ADAAA :%s", tok, t) : w_fmt(":carol!carol@host.carol %s bob :%s", cmd, t); vp_assert(eqc(tfd, got) == ok && w_lines(tfd) == ok, "a peer's message is delivered once, unmodified, exactly if the target accepts it"); vp_assert(!w_out(boss)[0] && (rt ? !w_out(bob)[0] : !w_out(L2)[0]), "and to nobody else");
  int back = exists ? (unauth && !notice) || (silenced && !unauth) : !notice; vp_assert(w_lines(L1) == back, "the peer hears only refusals"); if (back && exists && !unauth) { vp_assert(w_eq(w_line(L1, 0), w_fmt("%s U ACAAA carol!*@*", ty)), "a silenced sender's server is told of the silence"); } if (ok) vp_reach(rt ? "transit" : "delivered"); if (!exists) vp_reach("gone");
#endif
#elif RUN == 3
  static const char *nm[] = {"bob", "BOB", "dave", "Dave", "carol", "boss", "nobody", "#x", "#nowhere"}; static const int id[] = {0, 0, 1, 1, 2, 3, 4, 5, 6}; char l[100]; strcpy(l, "PRIVMSG "); int n[7] = {0, 0, 0, 0, 0, 0, 0}; w_send(bob, "JOIN #x"); w_send(boss, "JOIN #x"); w_pump(); w_advance(15); w_clear_all();
  int pre = vp_pick("comma", 2); if (pre) strcpy(l + strlen(l), ","); for (int i = 0; i < NT; i++) { int k = vp_pick("name", 9); if (n[id[k]]) vp_reach("dup"); n[id[k]] = 1; if (i) strcpy(l + strlen(l), pre ? ",," : ","); strcpy(l + strlen(l), nm[k]); } strcpy(l + strlen(l), " :hello all"); w_send(boss, l); w_pump();
  vp_assert(eqc(bob, ":boss!boss@10.0.0.9 PRIVMSG bob :hello all") == n[0] && eqc(bob, ":boss!boss@10.0.0.9 PRIVMSG #x :hello all") == n[5] && w_lines(bob) == n[0] + n[5], "each named local target gets it once"); vp_assert(eqc(L2, w_fmt("%s P ADAAA :hello all", yb)) == n[1] && w_lines(L2) == n[1], "a remote target once"); vp_assert(eqc(L1, w_fmt("%s P ACAAA :hello all", yb)) == n[2] && w_lines(L1) == n[2], "and another"); vp_assert(eqc(boss, ":boss!boss@10.0.0.9 PRIVMSG boss :hello all") == n[3], "also oneself"); vp_assert(w_count(boss, " 401 boss nobody ") == n[4] && w_count(boss, " 403 boss #nowhere ") == n[6] && w_lines(boss) == n[3] + n[4] + n[6], "unknown targets are reported once"); if (n[4]) vp_reach("nosuch");
#else
  w_send(L1, "AC N erin 1 1600000000 erin host.erin +io AKAABp ACAAB :erin real"); int who = vp_pick("sender", 3), notice = vp_pick("notice", 2); if (who == 1) w_oper(boss); w_pump(); w_advance(15); w_clear_all(); const char *cmd = notice ? "NOTICE" : "PRIVMSG", *tok = notice ? "O" : "P";
  static const char *mk[] = {"$*.test.net", "$vp.test.net", "$leaf1.test.net", "$leaf2.*.net", "$@10.0.0.*.x", "$@*.0.9", "$@host.dave", "$*", "$*.n?t", "bob@vp.test.net", "dave@leaf2.test.net", "bob%10.0.*@vp.test.net", "bob%11.0.*@vp.test.net", "dave%x.y@leaf2.test.net"}; static const int onboss[] = {1, 1, 0, 0, 0, 1, 0, 0, 0}, onbob[] = {1, 1, 0, 0, 0, 0, 0, 0, 0}, onc[] = {1, 0, 1, 0, 0, 0, 0, 0, 0}, ond[] = {1, 0, 0, 1, 0, 0, 1, 0, 0};
  int m = vp_pick("mask", 14), far = m == 10 || m == 13, mine = m >= 9 && !far;
  if (m >= 9) { int svc = vp_pick("isservice", 2), k = vp_pick("service", 2); vp_assume(who < 2); if (svc) { SetFlag(mine ? &me : FindServer("leaf2.test.net"), FLAG_SERVICE); } if (k) SetFlag(w_client(bob), FLAG_CHSERV); w_send(boss, w_fmt("%s %s :hi", cmd, mk[m])); w_pump(); vp_reach("directed"); int ok = svc && (far || (k && m != 12));
    vp_assert(eqc(bob, w_fmt(":boss!boss@10.0.0.9 %s %s :hi", cmd, mk[m])) == (ok && mine) && eqc(L2, w_fmt("%s %s %s :hi", yb, tok, mk[m])) == (ok && far), "a message to nick@server reaches only services"); vp_assert(w_lines(bob) == (ok && mine) && w_lines(L2) == (ok && far) && !w_out(L1)[0], "and nobody else"); (void)onboss; return; }
  if (who < 2) { w_send(boss, w_fmt("%s %s :hi", cmd, mk[m])); w_pump(); int ok = who == 1; if (!ok) { vp_reach("refused"); vp_assert(!w_out(bob)[0] && !w_out(L1)[0] && !w_out(L2)[0] && !w_count(boss, cmd), "an ordinary user cannot message by mask"); return; } vp_reach("oper");
    vp_assert(eqc(bob, w_fmt(":boss!boss@10.0.0.9 %s %s :hi", cmd, mk[m])) == onbob[m] && w_lines(bob) == onbob[m], "each matching local user gets it once"); vp_assert(eqc(boss, w_fmt(":boss!boss@10.0.0.9 %s %s :hi", cmd, mk[m])) == onboss[m], "also the sender"); vp_assert(eqc(L1, w_fmt("%s %s %s :hi", yb, tok, mk[m])) == onc[m] && w_lines(L1) == onc[m] && eqc(L2, w_fmt("%s %s %s :hi", yb, tok, mk[m])) == ond[m] && w_lines(L2) == ond[m], "each server with a matching user gets it once"); if (m == 7) vp_assert(w_count(boss, " 413 ") == 1, "a mask without a domain is refused"); if (m == 8) vp_assert(w_count(boss, " 414 ") == 1, "a mask with wildcard domain is refused"); }
  else { vp_assume(m < 7); int oper = vp_pick("isoper", 2); w_send(L1, w_fmt("%s %s %s :hi", oper ? "ACAAB" : "ACAAA", tok, mk[m])); w_pump(); vp_reach("peer"); const char *who_ = oper ? "erin!erin@host.erin" : "carol!carol@host.carol"; vp_assert(eqc(bob, w_fmt(":%s %s %s :hi", who_, cmd, mk[m])) == (oper && onbob[m]) && w_lines(bob) == (oper && onbob[m]) && eqc(boss, w_fmt(":%s %s %s :hi", who_, cmd, mk[m])) == (oper && onboss[m]), "a peer's operator reaches matching local users once"); vp_assert(eqc(L2, w_fmt("%s %s %s :hi", oper ? "ACAAB" : "ACAAA", tok, mk[m])) == (oper && ond[m]) && w_lines(L2) == (oper && ond[m]) && w_lines(L1) <= !oper, "and other servers once, never back"); }
#endif
}
