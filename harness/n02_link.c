/* @property N02
 * @quick time=200 RUN=1 label=gate j=8
 * @quick time=100 RUN=2 label=intro j=8
 * @quick time=60 RUN=3 label=pass j=4
 * @thorough time=900 RUN=1 DEEP label=gate j=8
 * @thorough time=400 RUN=2 DEEP label=intro j=8
 * @thorough time=400 RUN=3 DEEP label=pass j=8
 * @reach gate:linked gate:refused gate:ghost gate:juped gate:rule gate:tls intro:known intro:hubmask intro:nothub intro:hops intro:same intro:numeric pass:right pass:wrong
 * @bounds a SERVER message from an unregistered connection for every combination of port, address, name, password state, fingerprint, jupe, connection rule, protocol, link time and numeric out of small families; a password of as many arbitrary bytes as the right one (thorough: one more) ; introductions of a server behind a peer with every relation of hub permission, hop limit, name and numeric to what is known
 * @outside outgoing connections, DNS names of Connect blocks, clock adjustment
 */
#include "chan.inc"
#include "querycmds.h"
#include "jupe.h"
const char *vp_features = "\"HUB\" = \"TRUE\"; ";
const char *vp_conf_extra = "Connect { name = \"tls4.test.net\"; host = \"10.0.0.104\"; password = \"lpass\"; port = 4400; class = \"Server\"; hub; autoconnect = no; tls fingerprint = \"AABBCCDDEEFF00112233445566778899AABBCCDDEEFF00112233445566778899\"; };\n"
 "Connect { name = \"rule5.test.net\"; host = \"10.0.0.105\"; password = \"lpass\"; port = 4400; class = \"Server\"; hub; autoconnect = no; };\nCRULE { server = \"rule5.*\"; rule = \"connected(leaf2.*)\"; all = yes; };\n"
 "Connect { name = \"hub6.test.net\"; host = \"10.0.0.106\"; password = \"lpass\"; port = 4400; class = \"Server\"; hub = \"*.ok.net\"; maxhops = 3; autoconnect = no; };\n";
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
/* the servers another peer believes in, from S and SQ lines */
static int view(int fd, const char *name, int start) { int n = w_lines(fd), v = start; char a[80], b[80]; strcpy(a, w_fmt(" S %s ", name)); strcpy(b, w_fmt(" SQ %s ", name)); for (int i = 0; i < n; i++) { char *l = w_line(fd, i); if (strstr(l, a)) { vp_assert(!v, "no server is introduced twice"); v = 1; } if (strstr(l, b)) { vp_assert(v, "no unknown server is withdrawn"); v = 0; } } return v; }
void vp_scenario(void) {
#if RUN == 1
  std_network(); int l2 = vp_pick("leaf2", 2); if (!l2) { w_eof(L2); w_pump(); } w_advance(100); w_clear_all(); long old1 = cli_serv(FindServer("leaf1.test.net"))->timestamp;
  static const char *nm[] = {"leaf3.test.net", "tls4.test.net", "rule5.test.net", "leaf1.test.net", "nosuch.test.net", "vp.test.net", "LEAF3.test.net", "nodot", "hub6.test.net"}; static const int ip[] = {103, 104, 105, 101, 107, 108, 103, 103, 106}; int n = vp_pick("name", 9);
  int port = vp_pick("clientport", 2), wip = vp_pick("wrongaddress", 2), pw = vp_pick("password", 3), proto = vp_pick("protocol", 6), dev = vp_pick("deviation", 4);
#ifndef DEEP
  vp_assume(port + wip + (pw != 0) + (proto > 1) + (dev != 0) <= 1);
#else
  vp_assume(port + wip + (pw != 0) + (proto > 1) + (dev != 0) <= 2);
#endif
  static const char *pr[] = {"J10", "P10", "J08", "X10", "J1", "P99"}; int jupe = dev == 1, fp = n == 1 ? vp_pick("fingerprint", 3) : 0; int num = dev == 2, ts = dev == 3; const char *nn = num ? "AC" : n == 3 ? "AC" : "AE"; 
  if (jupe) { w_send(L1, w_fmt("AC JU * +%s 1000 1700000000 :no", nm[n])); w_pump(); w_clear_all(); }
  if (jupe && n == 3) { vp_assume(0); }
  int fd = w_connect(port ? 6667 : 4400, w_fmt("10.0.0.%d", wip ? 109 : ip[n]), 40000); if (fd >= 0 && n == 1 && fp) w_tls_fp[fd] = 0; if (fp) strcpy(cli_tls_fingerprint(w_client(fd)), fp == 1 ? "AABBCCDDEEFF00112233445566778899AABBCCDDEEFF00112233445566778899" : "AABBCCDDEEFF00112233445566778899AABBCCDDEEFF00112233445566778890");
  int srv0 = UserStats.servers, unk0 = UserStats.unknowns; if (pw != 2) w_send(fd, pw ? "PASS :lpasS" : "PASS :lpass"); int newer = 0; long t = ts ? 100000 : (long)w_now - 5; if (n == 3) { newer = vp_pick("newer", 2); t = ts ? 100000 : newer ? (long)w_now - 5 : old1 - 50; }
  w_send(fd, w_fmt("SERVER %s 1 %l %l %s %s]]] +h6 :the leaf", nm[n], (long)w_now - 1000, t, pr[proto], nn)); w_pump();
  int known = n == 3, badrule = n == 2 && l2; int ok = !port && !wip && !pw && proto != 2 && proto != 3 && proto != 4 && !jupe && !ts && n != 4 && n != 5 && n != 7 && !(n == 1 && fp != 1) && !badrule && (!num || known) && !(port);
  /* reached only through its own link: a known server may replace its older link */
  struct Client *c = w_client(fd); int linked = !w_closed(fd) && c && IsServer(c); if (known && ok) { vp_reach("ghost"); vp_assert(linked + !w_closed(L1) == 1, "of two links to one server one remains"); }
  else { vp_assert(linked == ok, "a connection becomes a server link exactly if it is entitled to"); vp_assert(ok || w_closed(fd), "otherwise it is closed"); vp_assert(UserStats.servers == (unsigned)(srv0 + ok), "and not counted"); if (!ok) vp_assert(n == 3 || n == 5 || n == 8 || !FindServer(nm[n]), "nor found"); vp_assert(num || !w_closed(L1), "other links stay"); }
  if (linked) vp_reach("linked"); else vp_reach("refused"); if (jupe && !linked) vp_reach("juped"); if (badrule) vp_reach("rule"); if (fp == 1 && linked) vp_reach("tls");
  if (!w_closed(L1)) { int v = view(L1, n == 6 ? "LEAF3.test.net" : nm[n], known); vp_assert(known || v == linked, "other servers are told of exactly the links that exist"); if (linked && !known) vp_assert(w_count(L1, w_fmt("AB S %s 2 0 %l J10 AE]]] +h6 :the leaf", n == 6 ? "LEAF3.test.net" : nm[n], t)) + w_count(L1, w_fmt("AB S %s 2 0 ", n == 6 ? "LEAF3.test.net" : nm[n])) >= 1, "with its data"); }
  if (l2) { vp_assert(view(L2, n == 6 ? "LEAF3.test.net" : nm[n], known) == (FindServer(nm[n]) && n != 5), "each other server too"); }
  if (!linked) { vp_assert(!w_count(fd, " EB") && !w_count(fd, "AB N ") && !w_count(fd, "SERVER vp"), "a refused peer learns nothing of the network"); w_send(fd, "AE N evil 1 1600000000 e h AKAABn AEAAA :x"); w_pump(); vp_assert(!FindUser("evil"), "and cannot speak"); return; }
  /* the burst */
  vp_assert(w_count(fd, "SERVER vp.test.net 1 ") == 1 && w_count(fd, "PASS :lpass") == 1, "it is greeted once"); vp_assert(w_count(fd, "AB EB") == 1, "the burst ends"); vp_assert(w_count(fd, " N boss ") == 1 && w_count(fd, " N bob ") == 1 && w_count(fd, " N dave ") == l2 && w_count(fd, " N carol ") == !known, "and told of each user once"); vp_assert(w_count(fd, "AB S leaf2.test.net 2 ") == l2 && w_count(fd, "AB S leaf1.test.net 2 ") == !known, "and each server once");
#elif RUN == 3
  std_network(); 
#ifdef DEEP
  int n = 4 + vp_pick("len", 3);
#else
  int n = 5;
#endif
  char p[10]; for (int i = 0; i < n; i++) { p[i] = vp_byte("p"); vp_assume((p[i] != 0) & (p[i] != '\r') & (p[i] != '\n')); } p[n] = 0; int right = n == 5; { static const char rp[] = "lpass"; int r = n == 5; for (int i = 0; i < 5; i++) r &= p[i] == rp[i]; right = r; }
  int fd = w_connect(4400, "10.0.0.103", 40000); w_send(fd, w_fmt("PASS :%s", p)); w_send(fd, w_fmt("SERVER leaf3.test.net 1 %l %l J10 AE]]] +h6 :the leaf", (long)w_now - 1000, (long)w_now - 5)); w_pump(); struct Client *c = w_client(fd); int linked = !w_closed(fd) && c && IsServer(c);
  vp_assert(linked == right, "only the right password links"); if (linked) vp_reach("right"); else vp_reach("wrong"); vp_assert(w_count(L1, " S leaf3") == linked, "and is announced");
#else
  std_network(); int h6 = w_server("hub6.test.net", "AF", 106), l3 = w_server("leaf3.test.net", "AE", 103); w_advance(30); w_clear_all(); int by = vp_pick("by", 4); int fd = by == 0 ? L1 : by == 1 ? h6 : by == 2 ? l3 : L1; const char *sy = by == 0 ? "AC" : by == 1 ? "AF" : by == 2 ? "AE" : "AG";
  if (by == 3) { w_send(L1, "AC S far7.x.net 2 0 1700000000 P10 AGAAP +h6 :seven"); w_pump(); w_clear_all(); }
  static const char *nm[] = {"new8.ok.net", "new8.bad.net", "leaf2.test.net", "vp.test.net", "far7.x.net", "New8.OK.net"}; int n = vp_pick("name", 6); int hops = 2 + vp_pick("hops", 3); static const char *num[] = {"AI", "AD", "AB"}; int k = vp_pick("numeric", 3); static const char *pr[] = {"J10", "P10", "J08"}; int p = vp_pick("protocol", 3); int flags = vp_pick("flags", 3); static const char *fl[] = {"+", "+hs6", "+z"}; static const char *flo[] = {"+", "+hs6", "+z"};
  long ts = 1700000000 + vp_pick("newer", 2) * 100000000; 
  w_send(fd, w_fmt("%s S %s %d 0 %l %s %sAAP %s :new one", sy, nm[n], hops, ts, pr[p], num[k], fl[flags])); w_pump(); int known = n == 2 || (n == 4 && by == 3), me_ = n == 3, numclash = !known && !me_ && (k == 1 || k == 2); if (p == 2) { vp_assert(!w_count(L2, " S "), "an unsupported server is not introduced"); return; }
  if (known || me_) { vp_reach("known"); struct Client *c = FindServer(nm[n]); if (me_) vp_assert(c == &me && w_closed(fd), "this server cannot be introduced by others"); else { int cnt = 0; for (struct Client *a = GlobalClientList; a; a = cli_next(a)) cnt += IsServer(a) && !ircd_strcmp(cli_name(a), nm[n]); vp_assert(cnt <= 1 && (cnt == 1) == (c != 0), "a server exists once"); if (!w_closed(L2)) view(L2, nm[n], n == 4); } return; }
  if (numclash) { vp_reach("numeric"); vp_assert(!FindServer(nm[n]) && !w_count(L2, w_fmt(" S %s ", nm[n])), "a numeric belongs to one server"); vp_assert(k == 2 || (FindNServer("AD") && !ircd_strcmp(cli_name(FindNServer("AD")), "leaf2.test.net")), "which keeps it"); return; }
  int ok = by == 0 || by == 3 ? 1 : by == 1 ? hops <= 3 && (n == 0 || n == 5) : 0; struct Client *c = FindServer(nm[n]); vp_assert((c != 0) == ok, "a server is accepted exactly if its uplink may hub for it"); if (by == 1 && hops <= 3 && !ok) vp_reach("hubmask"); if (by == 1 && hops > 3) vp_reach("hops"); if (by == 2) { vp_reach("nothub"); vp_assert(w_closed(l3), "a leaf that introduces servers is closed"); }
  if (ok) { vp_reach("same"); vp_assert(cli_from(c) == w_client(fd) && cli_serv(c)->up == FindNServer(sy) && FindNServer("AI") == c && cli_hopcount(c) == hops && cli_serv(c)->timestamp == ts && w_eq(cli_info(c), "new one") && b2i(IsHub(c)) == (flags == 1) && b2i(IsService(c)) == (flags == 1) && b2i(IsTLS(c)) == (flags == 2), "and known as described"); for (int i = 0; i < 4; i++) { int f = i == 0 ? L1 : i == 1 ? L2 : i == 2 ? h6 : l3; if (f == fd) vp_assert(!w_out(f)[0], "nothing is sent back"); else vp_assert(w_lines(f) == 1 && eqc(f, w_fmt("%s S %s %d 0 %l %s AIAAP %s :new one", sy, nm[n], hops + 1, ts, pr[p], flo[flags])) == 1, "every other server is told once, one hop further"); } }
  else { vp_assert(!w_closed(L1) && !w_closed(L2), "the other links stay"); vp_assert(!w_count(L2, " S "), "and is not announced"); }
#endif
}
