/* @property U04
 * @quick time=150 RUN=1 N=2 label=mode j=8
 * @quick time=60 RUN=2 N=2 label=user j=4
 * @quick time=60 RUN=3 N=2 label=peer j=4
 * @thorough time=900 RUN=1 N=3 label=mode j=8
 * @thorough time=400 RUN=2 N=3 label=user j=4
 * @thorough time=400 RUN=3 N=3 label=peer j=4
 * @reach mode:changed mode:nothing mode:deop mode:grab mode:other user:registered peer:changed peer:oper
 * @bounds a MODE by an ordinary user, operator or local operator with two (thorough three) signed letters out of all user modes and an unknown one, with or without further arguments, from a state where the letters' modes are set or not; the same letters in the USER command; the same by a peer's user; MODE for another user
 * @outside modes set by operators' privileges, +x host change details (U08)
 */
#include "chan.inc"
#include "querycmds.h"
static const char L[] = "oOiwsdkgrxzRIc?"; static const int FL[] = {FLAG_OPER, FLAG_LOCOP, FLAG_INVISIBLE, FLAG_WALLOP, FLAG_SERVNOTICE, FLAG_DEAF, FLAG_CHSERV, FLAG_DEBUG, FLAG_ACCOUNT, FLAG_HIDDENHOST, FLAG_TLS, FLAG_BLOCK_UNAUTH_USERS, FLAG_HIDEIDLE, FLAG_COMMONCHANS};
#define NL 14
static int idx(char c) { for (int i = 0; L[i]; i++) if (L[i] == c) return i; return -1; }
static int has(struct Client *c, int i) { return HasFlag(c, FL[i]) ? 1 : 0; }
static void diff(const char *s, int *d) { int w = 1; for (int i = 0; i < 15; i++) d[i] = 0; for (; *s; s++) if (*s == '+') w = 1; else if (*s == '-') w = -1; else { int i = idx(*s); vp_assert(i >= 0 && i < NL && !d[i], "each mode is announced once"); d[i] = w; } }
void vp_scenario(void) {
  std_network(); int old[15], want[15], d[15]; const char *arg2;
#if RUN == 1 || RUN == 3
  int oper = vp_pick("oper", 3); struct Client *c; int fd = boss; const char *pre;
#if RUN == 1
  c = w_client(boss); if (oper) { if (oper == 2) { w_send(boss, "OPER loc secret"); w_pump(); vp_assert(IsLocOp(c), "harness: local oper"); } else w_oper(boss); } w_send(bob, "JOIN #z"); w_send(boss, "JOIN #z"); pre = "MODE boss";
#else
  vp_assume(oper < 2); c = FindUser("carol"); if (oper) w_send(L1, "ACAAA M carol +o"); w_send(bob, "JOIN #z"); w_send(L1, w_fmt("ACAAA J #z %l", (long)w_now)); pre = "ACAAA M carol"; fd = L1;
#endif
  w_pump(); w_advance(20);
  char ms[20]; int n = 0, sg[4], li[4]; for (int i = 0; i < N; i++) { sg[i] = vp_pick("sign", 2); li[i] = vp_pick("letter", 15); ms[n++] = sg[i] ? '+' : '-'; ms[n++] = L[li[i]]; if (li[i] >= 2 && li[i] < NL) { int init = vp_pick("initially", 2); if (li[i] == 2) { if (!init == !!IsInvisible(c)) { if (init) { SetInvisible(c); ++UserStats.inv_clients; } else { ClearInvisible(c); --UserStats.inv_clients; } } } else if (li[i] == 4) { if (init) { SetServNotice(c); if (RUN == 1) set_snomask(c, SNO_DEFAULT, SNO_SET); } else { ClearServNotice(c); if (RUN == 1) set_snomask(c, 0, SNO_SET); } } else if (init) SetFlag(c, FL[li[i]]); else ClrFlag(c, FL[li[i]]); if (li[i] == 8) strcpy(cli_user(c)->account, init ? "own" : ""); } } ms[n] = 0;
  int a = vp_pick("argument", 2); arg2 = a ? " Q77" : ""; int canprop = HasPriv(c, PRIV_PROPAGATE); w_clear_all(); for (int i = 0; i < NL; i++) want[i] = old[i] = has(c, i); int wasop = old[0] || old[1];
  w_send(fd, w_fmt("%s %s%s", pre, ms, arg2)); w_pump();
  for (int i = 0; i < N; i++) { int k = li[i]; if (k >= NL) continue; if ((k == 8 || k == 10) && !sg[i]) continue; if (k == 9) { want[9] |= sg[i]; continue; } if (k == 8 && !a) continue; if ((k == 0 || k == 1) && !sg[i]) { want[0] = want[1] = 0; continue; } want[k] = sg[i]; }
#if RUN == 1
  /* what a user may not give to oneself */
  int still; if (!old[0]) want[0] = 0; if (!old[1]) want[1] = 0; if (!old[6]) want[6] = 0; want[8] = old[8]; want[10] = old[10]; still = want[0] || want[1]; if (!still && !old[7]) want[7] = 0; if (!still && !old[4]) want[4] = 0;
  for (int i = 0; i < NL; i++) vp_assert(has(c, i) == want[i], "exactly the permitted changes are made"); if (!old[8]) vp_assert(!cli_user(c)->account[0], "no account is forged"); else vp_assert(w_eq(cli_user(c)->account, "own"), "the account stays"); vp_assert(!cli_tls_fingerprint(c)[0], "no certificate is forged");
  int any = 0, glob = 0; for (int i = 0; i < NL; i++) if (want[i] != old[i]) { any = 1; if (i != 1 && i != 4 && !(i == 0 && !canprop)) glob = 1; }
  int m = 0; const char *line = 0; for (int i = 0, k = w_lines(boss); i < k; i++) if (strstr(w_line(boss, i), " MODE boss :")) { m++; line = w_line(boss, i); }
  vp_assert(m == any, "the user is told of the change once"); if (line) { diff(strstr(line, " MODE boss :") + 12, d); for (int i = 0; i < NL; i++) vp_assert(d[i] == want[i] - old[i], "exactly as it is"); vp_reach("changed"); } else vp_reach("nothing");
  for (int s = 0; s < 2; s++) { int l = s ? L2 : L1; vp_assert(w_lines(l) == glob, "every server is told once of a change that concerns it"); if (glob) { const char *p = strstr(w_line(l, 0), " M boss :"); vp_assert(p != 0, "as a mode change"); diff(p + 9, d); for (int i = 0; i < NL; i++) vp_assert(d[i] == (i == 1 || i == 4 || (i == 0 && !canprop) ? 0 : want[i] - old[i]), "exactly of it"); } }
  if (wasop && !still) { vp_reach("deop"); w_clear_all(); w_send(boss, "KILL bob :x"); w_pump(); vp_assert(!w_closed(bob) && w_count(boss, " 481 ") == 1, "an operator who resigned has no powers"); }
  if (!wasop) { vp_reach("grab"); w_clear_all(); w_send(boss, "KILL bob :x"); w_pump(); vp_assert(!w_closed(bob) && w_count(boss, " 481 ") == 1, "no user can become operator by MODE"); }
  if (!still) { static const char *sm[] = {"65535", "+65535", "+1", "-1", "=9"}; vp_assert(!(cli_snomask(c) & ~SNO_DEFAULT) || !(cli_snomask(c) & SNO_OPER), "only operators get operators' notices"); w_send(boss, w_fmt("MODE boss +s %s", sm[vp_pick("snomask", 5)])); w_pump(); vp_assert(!(cli_snomask(c) & ~SNO_USER), "nobody else can ask for operators' notices"); }
  w_clear_all(); w_send(boss, "MODE bob +i"); w_send(boss, "MODE carol -i"); w_pump(); vp_reach("other"); vp_assert(w_count(boss, " 502 ") == 2 && !IsInvisible(w_client(bob)) && IsInvisible(FindUser("carol")) && !w_out(bob)[0] && !w_out(L1)[0], "nobody can change another's modes");
#else
  if (!wasop) { } if (a) { } for (int i = 0; i < N; i++) { }
  for (int i = 0; i < NL; i++) if (i != 1) vp_assert(has(c, i) == want[i] || (i == 8 && want[8]) || (i == 0), "a peer's change is taken over"); if (want[0] && has(c, 0)) vp_reach("oper"); int glob = 0; for (int i = 0; i < NL; i++) if (i != 1 && i != 4 && i != 0 && has(c, i) != old[i]) glob = 1; int oc = has(c, 0) != old[0];
  vp_assert(w_lines(L1) == 0 || w_starts(w_line(L1, 0), ":vp.test.net 501") || w_starts(w_line(L1, 0), "AB 501"), "it is not sent back"); vp_assert(w_count(L2, " M carol :") == glob || (oc && w_count(L2, " M carol :") == 1), "it is passed on once if anything changed"); if (glob) { vp_reach("changed"); diff(strstr(w_find(L2, " M carol :"), " M carol :") + 10, d); for (int i = 2; i < NL; i++) if (i != 4) vp_assert(d[i] == has(c, i) - old[i], "unaltered"); } vp_assert(has(c, 0) == want[0], "operator status is the peer's word"); vp_assert(!w_out(boss)[0] && (!w_out(bob)[0] || (has(c, 8) && has(c, 9) && !(old[8] && old[9]))), "local users hear nothing but a change of host"); 
#endif
#else
  int fd = w_connect(6667, "10.0.0.8", 5000); char ms[20]; int n = 0; ms[n++] = '+'; for (int i = 0; i < N; i++) { int s = vp_pick("sign", 2); ms[n++] = s ? '+' : '-'; ms[n++] = L[vp_pick("letter", 15)]; } ms[n] = 0; int sp = vp_pick("extra", 3); w_send(fd, "NICK newbie"); w_pump(); char *q = strstr(w_out(fd), "PING :"); vp_assert(q != 0, "harness: cookie"); char ck[24]; int k = 0; for (q += 6; *q >= '0' && *q <= '9';) ck[k++] = *q++; ck[k] = 0;
  w_clear_all(); w_send(fd, w_fmt("USER u %s x :real", sp == 2 ? w_fmt("%s%s", ms, "r+oOkz") : ms)); (void)arg2; if (sp == 1) { w_send(fd, w_fmt("USER u %s x :real", ms)); } w_send(fd, w_fmt("PONG %s", ck)); w_pump(); struct Client *c = w_client(fd); vp_assert(c && IsUser(c), "the user registers"); vp_reach("registered");
  for (int i = 0; i < NL; i++) if (i == 0 || i == 1 || i == 6 || i == 8 || i == 10 || i == 4 || i == 7) vp_assert(!has(c, i), "no privileged mode is gained"); vp_assert(!cli_user(c)->account[0], "no account");
  for (int s = 0; s < 2; s++) { int l = s ? L2 : L1; vp_assert(w_count(l, "AB N newbie 1 ") == 1 && w_lines(l) == 1, "servers learn of the user once"); }
  { char *p = strstr(w_out(L1), "10.0.0.8 "); p += 9; int got[15]; for (int i = 0; i < 15; i++) got[i] = 0; if (*p == '+') { for (p++; *p != ' '; p++) got[idx(*p)] = 1; } for (int i = 0; i < NL; i++) vp_assert(got[i] == (has(c, i) && i != 1 && i != 4), "with its modes"); }
  w_clear_all(); w_send(fd, "KILL bob :x"); w_pump(); vp_assert(!w_closed(bob), "and is no operator"); vp_assert(UserStats.opers == 0, "nor counted as one"); (void)old; (void)want; (void)d; (void)diff;
#endif
}
