/* @property U06
 * @quick time=150 RUN=1 K=2 label=list j=8
 * @quick time=150 RUN=1 K=2 TIGHT label=full j=8
 * @quick time=150 RUN=2 K=2 label=peer j=8
 * @quick time=60 RUN=3 label=length j=4
 * @thorough time=60 RUN=3 label=length j=4
 * @thorough time=1500 RUN=1 K=3 label=list j=8
 * @thorough time=300 RUN=1 K=2 TIGHT label=full j=8
 * @thorough time=900 RUN=2 K=3 label=peer j=8
 * @reach list:added list:covered list:removed full:full list:wide list:silenced list:exempt list:told list:view length:many length:long length:wide peer:added peer:removed peer:silenced peer:directed peer:passed
 * @bounds sequences of two (thorough three) SILENCE commands of one or two updates, adding or removing plain or exception entries among six masks that partly cover each other (nick, user, host, address range, everything), by a local user with at most two entries or one allowed, or by a peer's user for everyone, for a local or for another peer's user; three entries of three lengths against a list of three entries and 30 bytes; entries of address ranges at the width limit for IPv4 and IPv6; then messages from a local user and two peers' users
 * @outside lists longer than one line, lowering the limit while lists are longer
 */
#include "chan.inc"
#include "r_glob.inc"
#if RUN == 3
const char *vp_features = "\"MAXSILES\" = \"3\"; \"AVBANLEN\" = \"10\"; ";
enum { MAXS = 3 };
#elif defined TIGHT
const char *vp_features = "\"MAXSILES\" = \"1\"; ";
enum { MAXS = 1 };
#else
const char *vp_features = "\"MAXSILES\" = \"2\"; ";
enum { MAXS = 2 };
#endif
enum { NEW = 1, GONE = 2 };
static struct { int x, m, f; } L[32]; static int nl;
static const char *in[] = {"dave", "*!*@*", "dave@host.dave", "dave!dave@*", "host.dave", "10.0.0.96/29"}, *pm[] = {"dave!*@*", "*!*@*", "*!dave@host.dave", "dave!dave@*", "*!*@host.dave", "*!*@10.0.0.96/29"};
static int cov(int ax, int a, int bx, int b) { static const char c[6][7] = {"100100", "111111", "001000", "000100", "001010", "000001"}; return !(!ax && bx) && c[a][b] == '1'; }
static int hits(int m, const char *who) { int d = w_eq(who, "dave"); return m == 1 ? 1 : m == 5 ? w_eq(who, "carol") : d; }
static int silenced(const char *who, int *by) { int s = 0; for (int i = 0; i < nl; i++) if (hits(L[i].m, who)) { if (L[i].x) return 0; if (!s) *by = L[i].m; s = 1; } return s; }
static struct { int del, x, m, i; } A[4]; static int na; static char upd[100], fwd[200];
static void one(int local) { int del = vp_pick("remove", 2), x = vp_pick("exception", 2), m = vp_pick("mask", 6); strcpy(upd + strlen(upd), w_fmt("%s%s%s%s", upd[0] ? "," : "", del ? "-" : "+", x ? "~" : "", local ? in[m] : pm[m]));
  int ok = 0; if (del) { for (int i = 0; i < nl; i++) if (cov(x, m, L[i].x, L[i].m)) { L[i].f |= GONE; ok = 1; } if (ok) vp_reach("removed"); }
  else { for (int i = 0; i < nl; i++) if (!(L[i].f & GONE) && cov(L[i].x, L[i].m, x, m)) { vp_reach("covered"); return; } for (int i = 0; i < nl; i++) if (cov(x, m, L[i].x, L[i].m)) L[i].f |= GONE; L[nl].x = x; L[nl].m = m; L[nl++].f = NEW; vp_reach("added"); ok = 1; }
  if (ok && (del || x)) { A[na].del = del; A[na].x = x; A[na].m = m; A[na++].i = del ? -1 : nl - 1; } }
static void forwards(void) { fwd[0] = 0; for (int k = 0; k < na; k++) if (A[k].del || !(L[A[k].i].f & GONE)) strcpy(fwd + strlen(fwd), w_fmt("%s%s%s%s", fwd[0] ? "," : "", A[k].del ? "-" : "+", A[k].x ? "~" : "", pm[A[k].m])); na = 0; }
static void settle(void) { int j = 0; for (int i = 0; i < nl; i++) if (!(L[i].f & GONE)) { L[j] = L[i]; L[j++].f = 0; } nl = j; }
void vp_scenario(void) {
  std_network(); const char *yb = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(boss))), *yo = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(bob))); (void)yo; w_advance(15); w_clear_all();
#if RUN == 1
  for (int s = 0; s < K; s++) { upd[0] = fwd[0] = 0; one(1); if (s == K - 1 && vp_pick("two", 2)) one(1); forwards(); if (s) w_advance(15); w_clear_all();
    int full = 0, n = 0; for (int i = 0; i < nl; i++) if (!(L[i].f & GONE)) { if (L[i].f & NEW) { if (n >= MAXS) { full++; for (int k = i; k < nl - 1; k++) L[k] = L[k + 1]; nl--; i--; continue; } } n++; }
    if (full) { vp_assume(full == 1 && !strchr(upd, ',')); fwd[0] = 0; vp_reach("full"); }
    char echo[200]; echo[0] = 0; for (int i = 0; i < nl; i++) if (L[i].f) strcpy(echo + strlen(echo), w_fmt("%s%s%s%s", echo[0] ? "," : "", L[i].f & GONE ? "-" : "+", L[i].x ? "~" : "", pm[L[i].m]));
    w_send(boss, w_fmt("SILENCE %s", upd)); w_pump(); vp_assert(w_lines(boss) == (echo[0] != 0) + full, "the user is told of each change, and of nothing else"); if (echo[0]) { vp_reach("told"); vp_assert(w_eq(w_line(boss, 0), w_fmt(":boss!boss@10.0.0.9 SILENCE %s", echo)), "exactly"); } if (full) vp_assert(w_count(boss, ":vp.test.net 511 boss ") == 1, "a full list is reported");
    const char *f = w_fmt("%s U * %s", yb, fwd); vp_assert(w_lines(L1) == (fwd[0] != 0) && w_lines(L2) == (fwd[0] != 0) && (!fwd[0] || (w_eq(w_line(L1, 0), f) && w_eq(w_line(L2, 0), f))), "servers are told of removals and exceptions, once"); vp_assert(!w_out(bob)[0], "other users are not told"); settle(); }
  w_advance(15); w_clear_all(); int wide = vp_pick("wide", 2); if (wide) { vp_reach("wide"); w_send(boss, "SILENCE +10.0.0.0/15"); w_pump(); vp_assert(w_lines(boss) == 1 && w_count(boss, ":vp.test.net 520 boss ") == 1 && !w_out(L1)[0] && !w_out(L2)[0], "a mask of too many addresses is refused"); w_clear_all(); }
  vp_reach("view"); w_send(boss, "SILENCE"); w_pump(); vp_assert(w_lines(boss) == nl + 1, "the list has each entry once"); for (int i = 0; i < nl; i++) vp_assert(w_eq(w_line(boss, i), w_fmt(":vp.test.net 271 boss boss %s%s", L[i].x ? "~" : "", pm[L[i].m])), "exactly those in effect"); w_clear_all();
  if (vp_pick("viewer", 2)) { w_oper(bob); w_clear_all(); }
  w_send(bob, "SILENCE boss"); w_pump(); vp_assert(w_lines(bob) == 1 && w_count(bob, ":vp.test.net 272 bob boss ") == 1, "nobody sees the list of another user"); w_clear_all();
  int by = 0, q; w_send(L2, w_fmt("ADAAA P %s :hi", yb)); w_send(L1, w_fmt("ACAAA P %s :hi", yb)); w_send(bob, "PRIVMSG boss :hi"); w_pump(); q = silenced("dave", &by); vp_assert(w_count(boss, ":dave!dave@host.dave PRIVMSG ") == !q, "a sender is silenced exactly if an entry matches it and no exception does"); vp_assert(w_lines(L2) == q, "its server is told"); if (q) { vp_reach("silenced"); char b[200]; strcpy(b, w_fmt("%s U ADAAA %s", yb, pm[by])); for (int i = 0; i < nl; i++) if (L[i].x) strcpy(b + strlen(b), w_fmt(",+~%s", pm[L[i].m])); vp_assert(w_eq(w_line(L2, 0), b), "with all exceptions"); } else for (int i = 0; i < nl; i++) if (!L[i].x && hits(L[i].m, "dave")) vp_reach("exempt");
  q = silenced("carol", &by); vp_assert(w_count(boss, ":carol!carol@host.carol PRIVMSG ") == !q && w_lines(L1) == q, "so is another"); q = silenced("bob", &by); vp_assert(w_count(boss, ":bob!bob@") == !q && w_lines(bob) == 0, "and a local one, who is not told");
#elif RUN == 3
  (void)in; (void)yb; (void)one; (void)forwards; (void)settle; (void)silenced; (void)upd; (void)fwd; static const char *nk[3][3] = {{"aaa", "aaaaaaaa", "aaaaaaaaaaaa"}, {"bbb", "bbbbbbbb", "bbbbbbbbbbbb"}, {"ccc", "cccccccc", "cccccccccccc"}}; int n = 0, tot = 0, has[3][3]; memset(has, 0, sizeof has); if (vp_pick("ranges", 2)) { static const char *r[] = {"10.9.0.0/16", "10.8.0.0/15", "2001:db8::/32", "2001:db8::/31", "2001:d00::/24"}; int k = vp_pick("range", 5), ok = k == 0 || k == 2; w_send(boss, w_fmt("SILENCE +%s", r[k])); w_pump(); vp_assert(w_count(boss, ":vp.test.net 520 boss ") == !ok && w_count(boss, ":boss!boss@10.0.0.9 SILENCE +*!*@") == ok && w_lines(boss) == 1, "ranges of too many addresses, and only those, are refused"); vp_reach("wide"); return; }
  for (int i = 0; i < 4; i++) { w_advance(15); w_clear_all(); int l = vp_pick("length", 3), k = i == 3 ? 0 : i, len = strlen(nk[k][l]) + 4; if (i == 3 && has[0][l]) return; int many = n >= 3, lng = tot + len >= 30; w_send(boss, w_fmt("SILENCE +%s", nk[k][l])); w_pump(); int ok = !many && !lng; if (many) vp_reach("many"); else if (lng) vp_reach("long");
    vp_assert(w_count(boss, w_fmt(":boss!boss@10.0.0.9 SILENCE +%s!*@*", nk[k][l])) == ok && w_count(boss, ":vp.test.net 511 boss ") == !ok && w_lines(boss) == 1, "an entry is taken exactly if the list has room for it"); if (ok) { n++; tot += len; has[k][l] = 1; } w_advance(15); w_clear_all(); w_send(boss, "SILENCE"); w_pump(); vp_assert(w_lines(boss) == n + 1, "and the list is as it was otherwise"); }
#else
  const char *cn = "carol"; (void)cn; for (int s = 0; s < K; s++) { upd[0] = fwd[0] = 0; one(0); if (s == K - 1 && vp_pick("two", 2)) one(0); forwards(); int to = vp_pick("for", 3); w_clear_all(); w_send(L1, w_fmt("ACAAA U %s %s", to == 0 ? "*" : to == 1 ? yb : "ADAAA", upd)); w_pump(); settle(); vp_assert(!w_out(boss)[0] && !w_out(bob)[0] && !w_out(L1)[0], "nobody here is told");
    int pass = to != 1 && fwd[0]; if (pass) vp_reach("passed"); if (to) vp_reach("directed"); vp_assert(w_lines(L2) == pass && (!pass || w_eq(w_line(L2, 0), w_fmt("ACAAA U %s %s", to ? "ADAAA" : "*", fwd))), "other servers are told of removals and exceptions as they concern them"); }
  w_clear_all(); int by = 0, q = silenced("boss", &by); w_send(boss, "PRIVMSG carol :hi"); w_pump(); if (q) vp_reach("silenced"); vp_assert(w_lines(L1) == !q && (q || w_eq(w_line(L1, 0), w_fmt("%s P ACAAA :hi", yb))), "a message is stopped exactly if an entry matches and no exception does"); vp_assert(!w_out(boss)[0], "its sender is not told"); w_clear_all();
  q = silenced("dave", &by); w_send(L2, "ADAAA P ACAAA :hi"); w_pump(); vp_assert(w_lines(L1) == !q && w_lines(L2) == q, "so is one passing through"); if (q) { char b[200]; strcpy(b, w_fmt("ACAAA U ADAAA %s", pm[by])); for (int i = 0; i < nl; i++) if (L[i].x) strcpy(b + strlen(b), w_fmt(",+~%s", pm[L[i].m])); vp_assert(w_eq(w_line(L2, 0), b), "and its server is told"); }
#endif
}
