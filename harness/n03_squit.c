/* @property N03
 * @quick time=200 RUN=1 label=split j=8
 * @thorough time=900 RUN=1 DEEP label=split j=8
 * @reach split:loss split:ignored split:local split:refused split:deep split:empty split:reversed
 * @bounds two peers with a chain of up to three servers behind one and one behind the other, in either arrangement; five remote users each on either of two channels (thorough: any of two or none); any cause of a split: connection lost, SQUIT by any peer or a remote user with right, wrong or zero link time, by an operator, local operator or user, by name, numeric, mask (of several, the closest), or of this server itself
 * @outside loss of several links at the same instant, connection errors while writing (W02)
 */
#include "chan.inc"
#include "querycmds.h"
const char *vp_features = "\"HIS_NETSPLIT\" = \"TRUE\"; ";
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
extern struct Client *GlobalClientList;
#define NS 5
static const char *sn[NS] = {"leaf1.test.net", "leaf2.test.net", "far3.test.net", "far4.test.net", "far5.test.net"}, *sy[NS] = {"AC", "AD", "AE", "AF", "AG"}, *un[NS] = {"carol", "dave", "erin", "frank", "gina"};
static int up[NS] = {-1, -1, 0, 2, 1}, on[NS], gone[NS];
static int under(int s, int r) { while (s >= 0) { if (s == r) return 1; s = up[s]; } return 0; }
void vp_scenario(void) {
  std_network(); up[3] = vp_pick("up4", 2) ? 2 : 0; 
  for (int k = 2; k < NS; k++) { int i = k == 2 ? 2 : 7 - k, l = under(i, 0) ? L1 : L2; w_send(l, w_fmt("%s S %s %d 0 170000000%d P10 %s]]] + :far", sy[up[i]], sn[i], up[i] < 2 ? 2 : 3, i, sy[i])); w_send(l, w_fmt("%s N %s %d 1600000000 %s host.%s +%s AKAAB%d %sAAA :real", sy[i], un[i], 2, un[i], un[i], i == 3 ? "o" : "i", i, sy[i])); }
  w_send(boss, "JOIN #x"); w_send(bob, "JOIN #y"); w_pump();
#ifdef DEEP
  int nch = 3;
#else
  int nch = 2;
#endif
  for (int i = 0; i < NS; i++) { on[i] = nch == 2 && (i == 1 || i == 4) ? i / 4 : vp_pick("channel", nch); int l = under(i, 0) ? L1 : L2; if (on[i] < 2) w_send(l, w_fmt("%sAAA J #%s %l", sy[i], on[i] ? "y" : "x", (long)w_now)); }
  int solo = vp_pick("solo", nch == 2 ? 3 : NS); w_send(under(solo, 0) ? L1 : L2, w_fmt("%sAAA C #solo %l", sy[solo], (long)w_now)); w_send(boss, "JOIN #solo"); if (solo & 1) w_send(boss, "PART #solo"); else w_send(under(solo, 0) ? L1 : L2, "ACAAA I boss #none 1"); w_pump();
  int users0 = UserStats.clients, opers0 = UserStats.opers, srv0 = UserStats.servers, inv0 = UserStats.inv_clients; int cause = vp_pick("cause", 9), v = -1, from = -1; const char *why = "the reason"; int ignored = 0, refused = 0;
  if (cause == 6 || cause == 7) { w_oper(boss); w_pump(); opers0 = UserStats.opers; if (cause == 7) { ClrFlag(w_client(boss), FLAG_OPER); SetFlag(w_client(boss), FLAG_LOCOP); UserStats.opers--; opers0--; } }
  w_advance(15); w_clear_all(); long ts[NS]; for (int i = 0; i < NS; i++) ts[i] = cli_serv(FindServer(sn[i]))->timestamp;
  if (cause == 0) { v = vp_pick("victim", 2); w_eof(v ? L2 : L1); }
  else if (cause <= 4) { /* 1: by leaf1, 2: by leaf2, 3: by a user behind leaf1, 4: numeric */
    from = cause == 2 ? 1 : 0; v = vp_pick("victim", NS); int t = vp_pick("time", 3); ignored = t == 2; long tt = t == 0 ? ts[v] : t == 1 ? 0 : ts[v] + 1; w_send(from ? L2 : L1, w_fmt("%s SQ %s %l :%s", cause == 3 ? "ACAAA" : cause == 2 ? "AD" : "AC", cause == 4 ? sy[v] : sn[v], tt, why)); }
  else if (cause == 5) { from = vp_pick("peer", 2); v = from; int num = vp_pick("byname", 2), t = vp_pick("time", 3); ignored = t == 2; long tt = t == 0 ? ts[v] : t == 1 ? 0 : ts[v] + 1; w_send(from ? L2 : L1, w_fmt("%s SQ %s %l :%s", sy[from], num ? "vp.test.net" : "AB", tt, why)); vp_reach("reversed"); }
  else { static const char *mk[] = {"leaf1.test.net", "leaf2.test.net", "far3.test.net", "far4.test.net", "far5.test.net", "f*3*", "*3.test.net", "nosuch.net", "vp.test.net", "LEAF1.TEST.NET", "leaf?.test.ne?", "*.test.net", "far*"}; int m = vp_pick("mask", 13); v = m < 5 ? m : m == 5 || m == 6 ? 2 : m == 9 ? 0 : m == 10 || m == 11 ? -2 : m == 12 ? -3 : -1; w_send(boss, w_fmt("SQUIT %s :%s", mk[m], why)); refused = cause == 8 || (cause == 7 && (v >= 2 || v == -3)); if (v == -2) { w_pump(); v = w_closed(L1) ? 0 : 1; } else if (v == -3) { w_pump(); v = !FindServer(sn[2]) ? 2 : !FindServer(sn[3]) ? 3 : 4; if (!refused) vp_assert(v != 3 || up[3] != 2, "of several servers matching, one behind the other, the closest is split off"); } }
  w_pump(); if (ignored || refused) v = -1; int noone = v < 0; if (ignored) vp_reach("ignored"); if (refused) vp_reach("refused");
  int ngone = 0, nop = 0, ninv = 0; for (int i = 0; i < NS; i++) { gone[i] = !noone && under(i, v); ngone += gone[i]; nop += gone[i] && i == 3; ninv += gone[i] && i != 3; }
  for (int i = 0; i < NS; i++) { vp_assert((FindServer(sn[i]) != 0) == !gone[i] && (FindNServer(sy[i]) != 0) == !gone[i], "exactly the servers behind the split are gone"); struct Client *u = FindUser(un[i]); vp_assert((u != 0) == !gone[i] && (findNUser(w_fmt("%sAAA", sy[i])) == u), "with exactly their users");
    for (int f = 0; f < 2; f++) { int n = eqc(f ? bob : boss, w_fmt(":%s!%s@host.%s QUIT :*.net *.split", un[i], un[i], un[i])); int sees = gone[i] && (on[i] == f || (!f && i == solo && !(solo & 1))); vp_assert(n == sees, "each user sharing a channel with one of them sees it quit once"); } }
  vp_assert(UserStats.clients == users0 - ngone && UserStats.servers == srv0 - ngone && UserStats.opers == opers0 - nop && UserStats.inv_clients == inv0 - ninv, "the counts are right");
  for (struct Client *c = GlobalClientList; c; c = cli_next(c)) for (int i = 0; i < NS; i++) if (gone[i]) vp_assert(strcmp(cli_name(c), sn[i]) && strcmp(cli_name(c), un[i]), "nothing of them is left in the client list");
  for (int x = 0; x < 3; x++) { struct Channel *ch = FindChannel(x == 2 ? "#solo" : x ? "#y" : "#x"); int n = x < 2; for (int i = 0; i < NS; i++) { int in = !gone[i] && (x == 2 ? i == solo : on[i] == x); n += in; if (ch && FindUser(un[i])) vp_assert((find_member_link(ch, FindUser(un[i])) != 0) == in, "memberships of the others stay"); } if (x == 2) n += !(solo & 1); vp_assert(ch ? ch->users == n : n == 0, "channels have exactly the remaining members"); if (x == 2 && !n) vp_reach("empty"); }
  for (int p = 0; p < 2; p++) { int fd = p ? L2 : L1; int cl = !noone && gone[p]; vp_assert(w_closed(fd) == cl, "exactly the link of the split is closed"); if (cl) { if (cause) vp_assert(w_lines(fd) == (from != p), "the other side is told if it did not ask"); if (from != p && cause != 0) vp_assert(w_count(fd, " SQ vp.test.net 0 :the reason") == 1, "with the reason"); continue; }
    int told = !noone && from != p; vp_assert(w_lines(fd) == told, "each other server is told once of the split, and nothing else"); if (told) { char *l = w_line(fd, 0); const char *q = strchr(l, ' '); vp_assert(cause == 0 ? w_starts(q, w_fmt(" SQ %s %l :", sn[v], ts[v])) : w_eq(q, w_fmt(" SQ %s %l :%s", sn[v], ts[v], why)), "of exactly that server and link"); } }
  if (cause >= 6) vp_assert(noone == (w_count(boss, ":vp.test.net 4") == 1), "an operator is told if nothing was done"); 
  if (ngone) vp_reach("loss"); if (cause >= 6 && ngone) vp_reach("local"); if (ngone >= 3) vp_reach("deep");
  if (!noone) { int l = under(v, 0) ? L1 : L2; if (!w_closed(l)) { w_clear_all(); w_send(l, w_fmt("%sAAA P #x :late", sy[v])); w_send(l, w_fmt("%s SQ %s %l :again", sy[v], sn[v], ts[v])); w_pump(); vp_assert(!w_out(boss)[0] && !w_out(bob)[0] && !w_out(L1)[0] && !w_out(L2)[0], "lagged messages from the split are ignored");
      w_send(l, w_fmt("%s S %s %d 0 1700000100 P10 %s]]] + :again", sy[up[v]], sn[v], up[v] < 2 ? 2 : 3, sy[v])); w_pump(); vp_assert(FindServer(sn[v]) && w_count(l == L1 ? L2 : L1, w_fmt(" S %s ", sn[v])) == 1, "and the server can come back"); } }
}
