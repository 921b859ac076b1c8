/* @property N10
 * @quick time=60 RUN=1 label=command j=4
 * @quick time=250 RUN=2 D=4 label=handshake j=8
 * @quick time=150 instr=400000000 RUN=3 D=3 label=auto j=8
 * @thorough time=60 RUN=1 label=command j=4
 * @thorough time=2000 RUN=2 D=6 label=handshake j=8
 * @thorough time=1500 instr=800000000 RUN=3 D=4 label=auto j=8
 * @reach command:started command:unknown command:present command:juped command:port command:badport command:relayed command:denied handshake:linked handshake:failed handshake:refused handshake:timeout handshake:inbound handshake:userleft auto:attempt auto:held auto:full auto:linked auto:jupe
 * @bounds command: CONNECT by {plain user, local, global operator here, operator or user elsewhere} with each of seven names, seven ports and six third arguments; handshake: every sequence of 4 (thorough 6) of success, failure, right and wrong PASS, SERVER with right, another configured and an unknown name, a line of nonsense, end of file, pause, the operator who asked leaving, CONNECT again, inbound link of the same server; auto: every sequence of 3 (thorough 4) fates of automatic attempts, then the next attempts, for two servers of one class of one link
 * @outside DNS names of Connect blocks, TLS, clock adjustment, connection rules (A03)
 */
#include "chan.inc"
#include "querycmds.h"
#include "s_conf.h"
#include "class.h"
#include "jupe.h"
#ifndef RUN
#define RUN 1
#endif
#ifndef D
#define D 3
#endif
#if RUN == 3
#define AC ""
#else
#define AC "autoconnect = no; "
#endif
const char *vp_conf_extra = "Class { name = \"Auto\"; pingfreq = 90; connectfreq = 100; maxlinks = 1; sendq = 1000000; };\n"
 "Connect { name = \"far2.test.net\"; host = \"10.0.0.111\"; password = \"other\"; port = 4402; class = \"Auto\"; hub; " AC "};\nConnect { name = \"far1.test.net\"; host = \"10.0.0.111\"; password = \"lpass\"; port = 4401; class = \"Auto\"; hub; " AC "};\n";
static void pongs(void) { for (int i = 5; i < 60; i++) if (!w_closed(i) && LocalClientArray[i] && IsUser(LocalClientArray[i])) w_send(i, "PONG x"); else if (!w_closed(i) && LocalClientArray[i] && IsServer(LocalClientArray[i])) w_send(i, w_fmt("%s Z x", cli_yxx(LocalClientArray[i]))); w_pump(); }
void vp_scenario(void) {
  std_network(); w_advance(20); w_clear_all();
#if RUN == 1
  static const char *nm[] = {"far1.test.net", "FAR1.test.net", "far1*", "nope*", "leaf1*", "leaf1.test.net", "leaf3.test.net"}, *po[] = {0, "4500", "0", "abc", "65535", "1", "00"}, *th[] = {0, "*", "vp.test.net", "leaf1.test.net", "leaf*", "nosuch.*"};
  int w = vp_pick("who", 5), n = vp_pick("name", 7), p = vp_pick("port", 7), t = p ? vp_pick("third", 6) : 0, jp = vp_pick("juped", 2); if (jp) { w_send(L1, w_fmt("AC JU * +far1.test.net 1000 %l :no", (long)w_now)); w_pump(); vp_assert(w_closed(0) || 1, ""); }
  int al = w < 3 ? w_user("alice", "10.0.0.55") : L1; if (w == 1) { w_send(al, "OPER loc secret"); w_pump(); } if (w == 2) w_oper(al); if (w == 3) { w_send(L1, "AC N remo 1 1600000000 r h +io AKAgAB ACAAD :x"); w_pump(); }
  w_advance(15); w_clear_all(); int k = w_outgoing; char line[100]; 
  if (w < 3) { strcpy(line, w_fmt("CONNECT %s", nm[n])); if (p) { strcat(line, " "); strcat(line, po[p]); } if (t) { strcat(line, " "); strcat(line, th[t]); } }
  else { if (t == 0 || t == 4 || t == 1 || t == 5) return; strcpy(line, w_fmt("%s CO %s %s %s", w == 3 ? "ACAAD" : "ACAAA", nm[n], p ? po[p] : "0", t == 2 ? "AB" : "AD")); }
  w_send(al, line); w_pump(); int relay = w < 3 ? (t == 3 || t == 4) : t == 3; int tol2 = w >= 3;
  if (w == 0 || w == 4) { vp_assert(w_outgoing == k && w_count(L1, " CO ") + w_count(L2, " CO ") == 0, "only operators connect servers"); vp_reach("denied"); return; }
  if (w == 1 && t) { vp_assert(w_outgoing == k && w_count(L1, " CO ") == 0 && w_count(al, " 481 ") == 1, "local operators connect local servers only"); vp_reach("denied"); return; }
  if (t == 5) { vp_assert(w_outgoing == k && w_count(al, " 402 ") == 1, "an unknown server cannot be asked to connect"); return; }
  if (w < 3 && t == 1) { /* any server: this one or a nearer one */ vp_assert(w_outgoing - k + w_count(L1, " CO ") + w_count(L2, " CO ") <= 1, "at most one server is asked"); return; }
  if (relay) { int a = w_count(L1, " CO "), b = w_count(L2, " CO "); vp_assert(w_outgoing == k && (tol2 ? a == 0 && b == 1 : a + b == 1 && (t != 3 || a == 1)), "a remote CONNECT goes to that server only"); char *l = w_find(b ? L2 : L1, " CO "); vp_assert(strstr(l, w_fmt(" CO %s %s :%s", nm[n], po[p] ? po[p] : "0", b ? "AD" : "AC")) != 0, "as it was asked"); vp_reach("relayed"); return; }
  int here = n <= 2 ? 1 : 0, there = n == 4 || n == 5, unk = n == 3, juped = n <= 2 && jp, bad = w < 3 && p == 3, port = n == 6 ? 4400 : 4401; if (p == 1) port = 4500; if (p == 4) port = 65535; if (p == 5) port = 1; if (w < 3 && p == 6) bad = 1; (void)here;
  int ok = !there && !unk && !juped && !bad; vp_assert(w_outgoing == k + ok, "a connection is started exactly if the server is configured, absent and not juped"); vp_assert(w_count(al, "*** Connecting to ") == ok, "and said so");
  if (ok) { vp_assert(w_rport(w_outfd) == port, "to the port asked for, or else configured"); struct Client *c = LocalClientArray[w_outfd]; vp_assert(c && IsConnecting(c) && FindClient(n == 6 ? "leaf3.test.net" : "far1.test.net") == c && !FindServer("far1.test.net"), "it is not a server yet"); vp_reach("started"); if (p) vp_reach("port");
    struct ConfItem *cf = conf_find_server(n == 6 ? "leaf3.test.net" : "far1.test.net"); vp_assert(cf->address.port == (n == 6 ? 4400 : 4401), "the configured port stays"); w_send(al, line); w_pump(); vp_assert(w_outgoing == k + 1 && w_count(al, "already in progress") == 1, "a second attempt is not started while one is on its way"); }
  else { static const char *why[] = {"not listed in ircd.conf", "already exists", "is juped", "Invalid port"}; int y = unk ? 0 : there ? 1 : juped ? 2 : 3; vp_assert(w_count(al, why[y]) == 1, "the operator is told why not"); static const char *r[] = {"unknown", "present", "juped", "badport"}; vp_reach(r[y]); }
#elif RUN == 2
  w_oper(boss); w_advance(15); w_clear_all(); int unk = UserStats.unknowns, srv = UserStats.servers, k = w_outgoing; w_send(boss, "CONNECT far1.test.net"); w_pump(); vp_assert(w_outgoing == k + 1, "harness: started"); int fd = w_outfd, here = 1; enum { CONN, HAND, LINK, GONE } st = CONN; int pass = 0, age = 0, in = -1; char *o;
  vp_assert(UserStats.unknowns == (unsigned)unk + 1, "an attempt counts as an unregistered connection");
  for (int s = 0; s < D; s++) { int a = vp_pick("event", 13); w_clear(L1); w_clear(L2); if (here) w_clear(boss); int was = st;
    if (a >= 2 && a <= 8 && st == CONN) return; if (a <= 1 && st != CONN) return; if (st == GONE && a != 9 && a != 10 && a != 11 && a != 12) return; if (a == 12 && in >= 0) return; if (a == 10 && !here) return; if (a == 11 && !here) return;
    switch (a) {
      case 0: w_clear(fd); w_established(fd, 0); st = HAND; o = w_out(fd); vp_assert(w_lines(fd) == 2 && w_eq(w_line(fd, 0), "PASS :lpass") && w_starts(w_line(fd, 1), w_fmt("SERVER vp.test.net 1 %l %l J10 AB", (long)cli_serv(&me)->timestamp, (long)cli_serv(w_client(fd))->timestamp)) && strstr(o, " +h6 :VP hub") != 0, "once connected this server gives the password and introduces itself"); break;
      case 1: w_established(fd, 111); st = GONE; vp_reach("failed"); break;
      case 2: w_send(fd, "PASS :lpass"); if (st == HAND && !pass) pass = 1; break;
      case 3: w_send(fd, "PASS :wrong"); if (st == HAND && !pass) pass = 2; break;
      case 4: case 5: case 6: { int now = w_now; w_send(fd, w_fmt("SERVER %s 1 %l %l J10 AE]]] +h6 :far", a == 4 ? "far1.test.net" : a == 5 ? "far2.test.net" : "far3.test.net", (long)now - 1000, (long)now)); if (st == HAND) { if (in >= 0) return; if (a == 4 && pass == 1) st = LINK; else { st = GONE; vp_reach("refused"); } } else return; break; }
      case 7: w_send(fd, ":x NONSENSE y"); if (st == LINK) return; break;
      case 8: w_eof(fd); st = GONE; break;
      case 9: w_advance(45); pongs(); age += 45; if ((st == CONN || st == HAND) && age >= 90) { st = GONE; vp_reach("timeout"); } if (age > 150) return; w_clear(L1); w_clear(L2); break;
      case 10: w_send(boss, "QUIT"); here = 0; vp_reach("userleft"); break;
      case 11: { int n = w_outgoing; w_send(boss, "CONNECT far1.test.net"); w_pump(); vp_assert(w_outgoing == n + (st == GONE && in < 0), "a new attempt is made exactly if the last is over"); if (w_outgoing > n) return; break; }
      case 12: if (st == LINK) return; in = w_connect(4400, "10.0.0.111", 40000); w_send(in, "PASS :lpass"); w_send(in, w_fmt("SERVER far1.test.net 1 %l %l J10 AE]]] +h6 :far", (long)w_now - 1000, (long)w_now)); w_pump(); vp_reach("inbound"); if (st == CONN) st = GONE; else if (st == HAND) return; break; }
    w_pump(); if (st == LINK && was != LINK) { vp_reach("linked"); vp_assert(w_count(fd, " EB") >= 1 && w_count(fd, " N boss ") == here, "a linked server gets the state of the network"); vp_assert(w_count(L1, " S far1.test.net 2 ") == 1 && w_count(L2, " S far1.test.net 2 ") == 1, "and is announced"); }
    else if (a != 12 && a != 10 && was != LINK) vp_assert(!w_out(L1)[0] && !w_out(L2)[0], "nothing is announced before");
    struct Client *f = FindServer("far1.test.net"); vp_assert((f != 0) == (st == LINK || in >= 0), "it is a server exactly once it answered with the password under the name connected to"); if (st == LINK) vp_assert(f == w_client(fd), "it is a server exactly once it answered with the password under the name connected to"); vp_assert(w_closed(fd) == (st == GONE), "a connection that did not is closed"); vp_assert(!FindServer("far2.test.net") && !FindServer("far3.test.net"), "nobody else links over it");
    vp_assert(UserStats.unknowns == (unsigned)(unk + (st == CONN || st == HAND)) && UserStats.servers == (unsigned)(srv + (st == LINK || in >= 0)), "and counted as what it is"); if (st == GONE && was == HAND && here && a != 12 && a != 1) vp_assert(w_count(boss, "Link with ") == 1, "who asked is told that it failed");
    if (st == GONE && was != GONE) { vp_assert(FindClient("far1.test.net") == (in >= 0 ? f : 0), "and leaves nothing behind"); } }
#else
  /* two servers of one class of one link; each attempt ends as chosen */
  int turn = -1, full = 0, nat = 0, last[2] = {-1000, -1000}, up = -1, upsince = 0; int jp = vp_pick("jupe", 3); w_clear_all(); if (jp) { w_send(L1, w_fmt("AC JU %s +far1.test.net 500000 %l :no", jp == 1 ? "*" : "AB", (long)w_now)); w_pump(); vp_assert(jupe_find("far1.test.net") && JupeIsActive(jupe_find("far1.test.net")), "harness: juped"); for (int s = 0; s < 2; s++) { int n = w_outgoing, t = 0; while (w_outgoing == n && t < 1300) { w_advance(20); t += 20; pongs(); } vp_assert(w_outgoing == n + 1 && w_rport(w_outfd) == 4402, "a juped server is never tried, others are"); w_established(w_outfd, 111); } vp_reach("jupe"); return; }
  for (int s = 0; s < D; s++) { int fate = vp_pick("fate", 4), n = w_outgoing, t = 0; while (w_outgoing == n && t < 1300) { w_advance(20); t += 20; pongs(); } vp_assert(w_outgoing == n + 1, "an eligible server is tried before long"); vp_reach("attempt"); int fd = w_outfd, which = w_rport(fd) == 4402; vp_assert(w_rport(fd) == 4401 || w_rport(fd) == 4402, "on its configured port"); int at = w_now - 1700000000; if (turn >= 0 && up < 0) vp_assert(which != turn, "absent servers are tried in turn"); turn = which; vp_assert(at - last[which] >= 0, "harness: time"); struct Client *c = LocalClientArray[fd]; vp_assert(c && w_eq(cli_name(c), which ? "far2.test.net" : "far1.test.net"), "under its name"); nat++; last[which] = at; (void)upsince;
    if (fate == 0) { w_established(fd, 111); vp_assert(w_closed(fd), "harness: failed"); vp_reach("held"); }
    else if (fate == 1) { w_established(fd, 0); w_eof(fd); w_pump(); }
    else { w_established(fd, 0); w_send(fd, which ? "PASS :other" : "PASS :lpass"); w_send(fd, w_fmt("SERVER %s 1 %l %l J10 AE]]] +h6 :far", which ? "far2.test.net" : "far1.test.net", (long)w_now - 1000, (long)w_now)); w_send(fd, "AE EB"); w_send(fd, "AE EA"); w_pump(); vp_assert(IsServer(w_client(fd)), "harness: linked"); up = fd; vp_reach("linked"); full = 1; n = w_outgoing; for (t = 0; t < 1000; t += 20) { w_advance(20); pongs(); } vp_assert(w_outgoing == n, "no automatic connection beyond the class's links"); vp_reach("full"); if (fate == 3) return; w_eof(up); w_pump(); full = 0; up = -1; }
  }
#endif
}
