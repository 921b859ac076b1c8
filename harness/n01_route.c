/* @property N01
 * @quick time=200 RUN=1 label=direct j=8
 * @quick time=100 RUN=2 label=reply j=4
 * @quick time=100 RUN=3 label=wall j=8
 * @thorough time=900 RUN=1 DEEP label=direct j=8
 * @thorough time=300 RUN=2 DEEP label=reply j=4
 * @thorough time=300 RUN=3 DEEP label=wall j=8
 * @reach direct:here direct:there direct:nowhere direct:denied reply:local reply:remote reply:dropped reply:low wall:ops wall:users wall:desynch
 * @bounds every server query command with each form of target (server or nick, exact, other case, mask, local, behind a peer, unknown) from a user, an operator and a user behind a peer; each of ten numerics from a peer or a server behind it to each kind of target with two arbitrary bytes of text; WALLOPS, WALLUSERS and DESYNCH with two (thorough three) arbitrary bytes from every kind of source against every combination of the recipients' modes
 * @outside STATS, TRACE, RPING, UPING and SETTIME contents
 */
#include "chan.inc"
const char *vp_features = "\"HUB\" = \"TRUE\"; ";
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
void vp_scenario(void) {
  std_network(); w_send(L2, w_fmt("AD S sub.test.net 2 0 %l P10 AGAAP +6 :sub", (long)w_now - 10)); w_send(L2, "AG N greg 2 1600000001 greg ghost AKAAAH AGAAA :greg"); w_pump(); w_advance(40); w_clear_all();
#if RUN == 1
  static const char *cm[] = {"VERSION %s", "ADMIN %s", "TIME %s", "MOTD %s", "INFO %s", "LUSERS x %s", "WHOIS %s boss", "WHOWAS boss 1 %s", "NAMES #x %s", "LINKS %s *", "STATS u %s"};
  static const char *sm[] = {"V :%s", "AD :%s", "TI :%s", "MO %s", "F :%s", "LU x :%s", "W %s :boss", "X boss 1 :%s", "E #x %s", "LI %s :*", "R u :%s"};
  static const unsigned char op[] = {1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1}; /* asking another server is for operators */
  static const char *tg[] = {"leaf2.test.net", "LEAF2.test.net", "leaf2*", "*2.test.net", "dave", "sub.test.net", "greg", "sub*", "*.test.net", "vp.test.net", "VP.TEST.net", "vp*", "bob", "nosuch.test.net", "nosuch*", "*"};
  static const unsigned char de[] = {2, 2, 2, 2, 2, 3, 3, 3, 9, 1, 1, 1, 1, 0, 0, 9}; static const char *dn[] = {"", "AB", "AD", "AG"};
  int c = vp_pick("command", 11), who = vp_pick("who", 3); if (who < 2) { if (who) w_oper(boss); w_send(boss, "JOIN #x"); w_pump(); w_advance(20); w_clear_all(); int t = vp_pick("target", 16), d = de[t]; w_send(boss, w_fmt(cm[c], tg[t])); w_pump(); int a = w_lines(L1), b = w_lines(L2), z = w_lines(boss);
    if (!who && (op[c] || c == 9)) { vp_assert(!a && !b, "only operators can question other servers"); vp_reach("denied"); if (d != 1 && d != 9 && c != 9 && c != 8) vp_assert(w_count(boss, " 481 boss ") == 1 && z == 1, "others are told so"); return; }
    if (!who && c == 6) d = 1; /* an ordinary user asks the server of the nick */
    if (d == 0) { vp_reach("nowhere"); vp_assert(!a && !b && w_count(boss, ":vp.test.net 402 boss ") == 1, "an unknown target is reported and reaches nobody"); return; }
    if (d == 9) { vp_assert(a + b <= 1, "a mask reaches at most one server"); vp_assert((a + b) + (z > 0) == 1, "or is answered here"); return; }
    if (d == 1) { vp_reach("here"); vp_assert(!a && !b && z >= 1, "a query of this server is answered here"); for (int i = 0; i < z; i++) vp_assert(w_starts(w_line(boss, i), ":vp.test.net "), "by this server"); return; }
    vp_reach("there"); vp_assert(!a && !z && b == 1 && eqc(L2, w_fmt("ABAAA %s", w_fmt(sm[c], dn[d]))) == 1, "a query of another server is sent there, once, and nowhere else"); }
  else { static const char *rt[] = {"AB", "AD", "AG", "AZ"}; int t = vp_pick("target", 4); w_send(L1, w_fmt("ACAAA %s", w_fmt(sm[c], rt[t]))); w_pump(); int a = w_lines(L1), b = w_lines(L2); int mustoper = c == 4 || c == 9 || c == 7 || c == 8; vp_assert(!w_out(boss)[0], "users are not told"); if (t == 0) { vp_reach("here"); vp_assert(!b, "the answer goes back only"); for (int i = 0; i < a; i++) vp_assert(w_starts(w_line(L1, i), "AB "), "from this server"); if (c < 5 && c != 4) vp_assert(a >= 1, "and there is one"); } else if (t == 3) { vp_reach("nowhere"); vp_assert(!b, "an unknown server is not asked"); } else if (mustoper || op[c]) { vp_assert(b <= 1, "once at most"); if (b) { vp_reach("there"); vp_assert(eqc(L2, w_fmt("ACAAA %s", w_fmt(sm[c], rt[t]))) == 1 && !a, "a remote query is passed on unchanged"); } } else { vp_reach("there"); vp_assert(b == 1 && !a && eqc(L2, w_fmt("ACAAA %s", w_fmt(sm[c], rt[t]))) == 1, "a remote query is passed on unchanged"); } }
#elif RUN == 2
  int oper = vp_pick("oper", 2); if (oper) w_oper(boss); w_advance(20); w_clear_all(); static const char *nn[] = {"001", "005", "042", "099", "100", "311", "401", "999", "109", "190"}; const char *n = nn[vp_pick("numeric", 10)]; char t[3]; for (int i = 0; i < 2; i++) { t[i] = vp_byte("t"); vp_assume((t[i] != 0) & (t[i] != '\r') & (t[i] != '\n')); } t[2] = 0;
  static const char *src[] = {"AD", "AG", "ADAAA"}; int s = vp_pick("source", 3), to = vp_pick("target", 6); static const char *tn[] = {"ABAAA", "ACAAA", "ABAAB", "ADAAA", "ABAZZ", "AGAAA"};
  w_send(L2, w_fmt("%s %s %s :%s", src[s], n, tn[to], t)); w_pump(); char m[4]; strcpy(m, n); if (m[0] == '0') m[0] = '1'; if (n[0] == '0') vp_reach("low"); int b = w_lines(L2);
  vp_assert(!b, "nothing comes back"); if (s == 2 || to > 2) { vp_reach("dropped"); vp_assert(!w_out(boss)[0] && !w_out(bob)[0] && !w_out(L1)[0], "a reply that is not from a server or not for a user here or beyond is dropped"); return; }
  int fd = to == 0 ? boss : to == 1 ? L1 : bob; for (int i = 0; i < 3; i++) { int f = i == 0 ? boss : i == 1 ? L1 : bob; if (f != fd) vp_assert(!w_out(f)[0], "a reply reaches nobody else"); }
  const char *sn = oper && to == 0 ? (s ? "sub.test.net" : "leaf2.test.net") : "vp.test.net"; if (to == 1) { vp_reach("remote"); vp_assert(eqc(L1, w_fmt("%s %s ACAAA :%s", "AB", m, t)) + eqc(L1, w_fmt("%s %s ACAAA :%s", src[s], m, t)) == 1 && w_lines(L1) == 1, "a reply is passed on towards its user"); } else { vp_reach("local"); vp_assert(w_lines(fd) == 1 && eqc(fd, w_fmt(":%s %s %s :%s", sn, m, to ? "bob" : "boss", t)) == 1, "a reply reaches its user unchanged"); }
#else
  int fd[3]; fd[0] = boss; fd[1] = bob; fd[2] = w_user("eve", "10.0.0.7"); int isop[3], w[3], g[3]; w_oper(boss); isop[0] = 1; isop[1] = isop[2] = 0; int type = vp_pick("type", 3), who = vp_pick("who", 6); if (type == 2 && who < 2) return;
  for (int i = 0; i < 3; i++) { w[i] = vp_pick("wallops", 2); g[i] = vp_pick("debug", 2); w[i] ? SetWallops(w_client(fd[i])) : ClrFlag(w_client(fd[i]), FLAG_WALLOP); g[i] ? SetDebug(w_client(fd[i])) : ClrFlag(w_client(fd[i]), FLAG_DEBUG); } int lo = vp_pick("locop", 2); if (lo) { SetFlag(w_client(bob), FLAG_LOCOP); isop[1] = 1; }
  w_advance(20); w_clear_all(); static const char *tk[] = {"WA", "WU", "DS"}, *cn[] = {"WALLOPS", "WALLUSERS"}; char t[4]; int n = 2;
#ifdef DEEP
  n = 3;
#endif
  for (int i = 0; i < n; i++) { t[i] = vp_byte("t"); vp_assume((t[i] != 0) & (t[i] != '\r') & (t[i] != '\n')); } t[n] = 0; static const char *sr[] = {"", "", "AC", "ACAAA", "AD", "AGAAA"}, *sn[] = {"boss!boss@10.0.0.9", "", "leaf1.test.net", "carol!carol@host.carol", "leaf2.test.net", "greg!greg@ghost"}; int in = who < 2 ? -1 : who < 4 ? L1 : L2; 
  if (who == 0) w_send(boss, w_fmt("%s :%s", cn[type], t)); else if (who == 1) w_send(fd[2], w_fmt("%s :%s", cn[type], t)); else w_send(in, w_fmt("%s %s :%s", sr[who], tk[type], t)); w_pump();
  if (who == 1) { vp_assert(!w_out(L1)[0] && !w_out(L2)[0] && !w_count(boss, "WALLOPS") && !w_count(bob, "WALLOPS") && !w_count(fd[2], "WALLOPS"), "an ordinary user cannot send one"); return; } 
  vp_reach(type == 0 ? "ops" : type == 1 ? "users" : "desynch"); for (int i = 0; i < 3; i++) { int r = type == 2 ? g[i] : type == 1 ? w[i] : w[i] && isop[i]; vp_assert(w_count(fd[i], "WALLOPS") == r, "exactly those who asked for it get it once"); if (r) { char *l = w_find(fd[i], "WALLOPS"); vp_assert(l && w_eq(l, w_fmt(":%s WALLOPS :%s%s", type == 2 && 0 ? "" : sn[who], type == 0 ? "* " : type == 1 ? "$ " : "", t)), "unchanged"); } }
  const char *ex = w_fmt("%s %s :%s", who == 0 ? "ABAAA" : sr[who], tk[type], t); vp_assert(in == L1 ? !w_out(L1)[0] : w_lines(L1) == 1 && eqc(L1, ex) == 1, "each other link gets it once, not the one it came from"); vp_assert(in == L2 ? !w_out(L2)[0] : w_lines(L2) == 1 && eqc(L2, ex) == 1, "each other link gets it once, not the one it came from");
#endif
}
