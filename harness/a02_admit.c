/* @property A02
 * @quick time=120 RUN=1 label=select j=6
 * @quick time=300 RUN=2 D=4 label=count j=8
 * @quick time=60 RUN=3 label=rehash j=4
 * @thorough time=120 RUN=1 label=select j=6
 * @thorough time=2500 RUN=2 D=6 label=count j=8
 * @thorough time=60 RUN=3 label=rehash j=4
 * @reach select:in select:noauth select:badpass select:badfp select:killed select:portblock select:hostblock select:v6 count:in count:classfull count:toomany count:freed count:badpass count:remote rehash:killed rehash:kept rehash:smaller rehash:gone
 * @bounds select: one client from one of 26 addresses (IPv4 and IPv6), on one of two ports, with {no, two arbitrary bytes of} password, fingerprint {none, right, other}, one of three user and real names, against eight Client and four Kill blocks; count: every sequence of 4 (thorough 6) of: a client from one of three addresses under two blocks of one class, one with a wrong password, one that leaves before registering, a remote user from the address coming or going, the oldest or newest client leaving or becoming an operator, REHASH; class limit 3, address limit 2; rehash: each of five changes of the configuration with clients present
 * @outside ident lookups and user names in Client blocks, host names from DNS, IAuth, WEBIRC, G-lines (N05), reasons read from files
 */
#include "chan.inc"
#include "querycmds.h"
#include "s_conf.h"
#include "class.h"
#include "listener.h"
#ifndef RUN
#define RUN 1
#endif
#ifndef D
#define D 4
#endif
#if RUN == 1
const char *vp_clients = "Port { port = 6668; };\n";
const char *vp_conf_extra = "Class { name = \"C0\"; pingfreq = 90; sendq = 160000; maxlinks = 10; };\nClass { name = \"C1\"; pingfreq = 90; sendq = 160000; maxlinks = 0; };\nClass { name = \"C2\"; pingfreq = 90; sendq = 160000; maxlinks = 10; };\nClass { name = \"C3\"; pingfreq = 90; sendq = 160000; maxlinks = 10; };\n"
 "Client { class = \"C0\"; ip = \"10.2.0.0/16\"; maxlinks = 2; };\n"
 "Client { class = \"C1\"; ip = \"10.2.5.*\"; port = 6668; password = \"pw\"; };\n"
 "Client { class = \"C2\"; host = \"10.3.0.?\"; tls fingerprint = \"AABB\"; };\n"
 "Client { class = \"C3\"; ip = \"2001:db8::/32\"; maxlinks = 1; };\n"
 "Client { class = \"C1\"; host = \"*.1\"; ip = \"10.4.7.0/24\"; };\n"
 "Client { class = \"C2\"; ip = \"10.5.0.0/20\"; password = \"pw\"; tls fingerprint = \"AABB\"; };\n"
 "Client { class = \"C3\"; ip = \"10.5.9.0/25\"; };\n"
 "Client { class = \"Local\"; ip = \"10.0.0.*\"; maxlinks = 50; };\n"
 "Kill { username = \"sub7\"; realname = \"s*7*\"; reason = \"trojan\"; };\n"
 "Kill { host = \"10.2.9.*\"; };\nKill { host = \"*luser@10.2.*\"; reason = \"luser\"; };\nKill { realname = \"*bad?*\"; reason = \"bad name\"; };\n";
#else
#define CL(mx, kl) "Class { name = \"Small\"; pingfreq = 90; sendq = 160000; maxlinks = " mx "; };\nClient { class = \"Small\"; ip = \"10.2.0.0/16\"; maxlinks = 2; };\nClient { class = \"Small\"; ip = \"10.2.5.*\"; password = \"pw\"; };\n" kl
const char *vp_conf_extra = CL("3", "");
#endif
static int conn(int port, const char *ip, const char *nick, const char *user, const char *real, const char *pass, const char *fp) {
  int fd = w_connect(port, ip, 40000); if (fp) strcpy(cli_tls_fingerprint(w_client(fd)), fp); if (pass) { w_send(fd, w_fmt("PASS :%s", pass)); } w_send(fd, w_fmt("NICK %s", nick)); w_send(fd, w_fmt("USER %s 0 0 :%s", user, real)); w_pump();
  char *p = strstr(w_out(fd), "PING :"); if (p && !w_closed(fd)) { char c[32]; int i = 0; p += 6; while (*p && *p != '\r' && i < 30) c[i++] = *p++; c[i] = 0; w_send(fd, w_fmt("PONG :%s", c)); } w_pump(); return fd; }
static int in(int fd) { return !w_closed(fd) && w_client(fd) && IsUser(w_client(fd)); }
#if RUN == 2
#define MAXC 16
static struct { int fd, ip; } q[MAXC]; static int nq;
static void drop(int i) { w_send(q[i].fd, "QUIT"); w_pump(); for (; i + 1 < nq; i++) q[i] = q[i + 1]; nq--; }
#endif
void vp_scenario(void) {
  std_network(); w_advance(20); w_clear_all(); int nu = UserStats.clients; (void)nu;
#if RUN == 1
  static const char *ips[] = {"10.2.0.1", "10.2.255.9", "10.2.5.1", "10.2.5.200", "10.2.4.255", "10.2.6.0", "10.1.255.255", "10.3.0.1", "10.3.0.22", "10.3.1.1", "10.13.0.1", "10.4.7.1", "10.4.7.2", "10.4.8.1", "10.4.7.11", "10.5.0.1", "10.5.15.255", "10.5.16.0", "10.5.9.127", "10.5.9.128", "10.0.0.77", "10.0.1.77", "10.2.9.3", "10.2.19.3", "2001:db8:1::1", "2001:db9::1"};
  /* the addresses each block is for, by place in the list above */
  static const int cls[26][2] = { {0, 0}, {0, 0}, {0, 1}, {0, 1}, {0, 0}, {0, 0}, {9, 9}, {2, 2}, {9, 9}, {9, 9}, {9, 9}, {1, 1}, {9, 9}, {9, 9}, {9, 9}, {2, 2}, {2, 2}, {9, 9}, {3, 3}, {2, 2}, {4, 4}, {9, 9}, {0, 0}, {0, 0}, {3, 3}, {9, 9} };
  static const int pw[26][2] = { [2] = {0, 1}, [3] = {0, 1}, [15] = {1, 1}, [16] = {1, 1}, [19] = {1, 1} }, fpr[26] = { [7] = 1, [15] = 1, [16] = 1, [19] = 1 };
  static const char *users[] = {"alice", "sub7", "aluser"}, *reals[] = {"real", "s 7", "is bad1"}, *fps[] = {0, "AABB", "AABC"}, *cn[] = {"C0", "C1", "C2", "C3", "Local"};
  int i = vp_pick("ip", 26), po = vp_pick("port", 2), u = vp_pick("user", 3), r = vp_pick("real", 3), f = vp_pick("fp", 3), hp = vp_pick("pass", 2); char b[3]; if (hp) { b[0] = vp_byte("p"); b[1] = vp_byte("p"); b[2] = 0; vp_assume(b[0] > ' ' && b[1] > ' ' && b[0] != ':' && b[0] < 127 && b[1] < 127); }
  int right = hp && b[0] == 'p' && b[1] == 'w', v6 = i >= 24, two = i <= 5 || i == 22 || i == 23; int kill = r == 2 ? 1 : two && u == 2 ? 2 : i == 22 ? 3 : u == 1 && r == 1 ? 4 : 0;
  int fd = conn(po ? 6668 : 6667, ips[i], "newbie", users[u], reals[r], hp ? b : 0, fps[f]); int c = cls[i][po], ok = in(fd); (void)v6; char *o = w_out(fd);
  int want = kill ? 1 : c == 9 ? 2 : pw[i][po] && !right ? 3 : fpr[i] && f != 1 ? 4 : 0;
  vp_assert(ok == !want, "admitted exactly if the first matching Client block's terms are met and no Kill block names it"); vp_assert(ok == !w_closed(fd), "others are closed"); vp_assert((UserStats.clients == (unsigned)nu + 1) == ok, "and counted");
  vp_assert((w_count(fd, " 465 ") == 1) == (want == 1) && (strstr(o, "No Authorization") != 0) == (want == 2) && (w_count(fd, " 464 ") == 1) == (want == 3) && (w_count(fd, " 532 ") == 1) == (want == 4), "and told why"); if (want == 1) vp_assert(strstr(o, kill == 1 ? ":bad name." : kill == 2 ? ":luser." : kill == 4 ? ":trojan." : ":Connection from your host is refused") != 0, "with the reason of the first Kill block");
  vp_assert(w_count(L1, " newbie ") == ok && w_lines(L1) == ok, "servers learn of users only"); if (ok) vp_assert(w_eq(get_client_class(w_client(fd)), cn[c]), "the client is in the class of the first matching block");
  static const char *t[] = {"in", "killed", "noauth", "badpass", "badfp"}; vp_reach(t[want]); if (ok && c == 1 && po) vp_reach("portblock"); if (ok && c == 2 && i == 7) vp_reach("hostblock"); if (ok && i == 24) vp_reach("v6");
#elif RUN == 2
  static const char *ip[] = {"10.2.0.1", "10.2.0.2", "10.2.5.1"}; int rem = 0, nn = 0; w_oper(bob); w_advance(20);
  for (int s = 0; s < D; s++) {
    static const char *nk[] = {"na", "nb", "nc", "nd", "ne", "nf", "ng", "nh"}; int a = vp_pick("step", 11), ncl = nq; w_advance(5); w_clear_all();
    if (a <= 2) { int cnt = a == 0 ? rem : 0; for (int k = 0; k < nq; k++) cnt += q[k].ip == a; int toomany = a != 2 && cnt + 1 > 2, full = ncl >= 3; int fd = conn(6667, ip[a], nk[nn++], "u", "r", a == 2 ? "pw" : 0, 0); int ok = in(fd); char *o = w_out(fd);
      vp_assert(ok == (!toomany && !full), "admitted exactly if the address and the class have room"); vp_assert(ok == !w_closed(fd), "others are closed"); vp_assert((strstr(o, "Too many connections from your host") != 0) == toomany && (strstr(o, "class is full") != 0) == (!toomany && full), "and told why");
      if (ok) { q[nq].fd = fd; q[nq++].ip = a; } vp_reach(ok ? "in" : toomany ? "toomany" : "classfull"); if (ok && s && ncl < 3) vp_reach("freed"); }
    else if (a == 3) { int fd = conn(6667, ip[2], nk[nn++], "u", "r", "pwx", 0); vp_assert(!in(fd) && w_closed(fd), "a wrong password never admits"); if (ncl < 3) { vp_assert(w_count(fd, " 464 ") == 1, "and is told"); vp_reach("badpass"); } }
    else if (a == 4) { int fd = w_connect(6667, ip[0], 40000); w_send(fd, "NICK half"); w_send(fd, "USER u 0 0 :r"); w_pump(); if (vp_pick("how", 2)) w_eof(fd); else w_send(fd, "QUIT"); w_pump(); vp_assert(w_closed(fd), "harness: half-open connection gone"); }
    else if (a == 5) { if (rem) { w_send(L1, "ACAAC Q :gone"); rem = 0; } else { w_send(L1, "AC N remy 1 1600000000 r h +i AKAgAB ACAAC :x"); rem = 1; vp_reach("remote"); } w_pump(); vp_assert((findNUser("ACAAC") != 0) == rem, "harness: remote user"); }
    else if (a == 6 || a == 7) { if (!nq) return; drop(a == 6 ? 0 : nq - 1); }
    else if (a == 8 || a == 9) { if (!nq) return; int fd = q[a == 8 ? 0 : nq - 1].fd; w_send(fd, "OPER god secret"); w_pump(); vp_assert(w_count(fd, " 381 ") + w_count(fd, " 491 ") == 1, "harness: oper"); }
    else { w_send(bob, "REHASH"); w_pump(); }
    for (int k = 0; k < nq; k++) vp_assert(in(q[k].fd), "those admitted stay"); vp_assert(UserStats.clients == (unsigned)(nu + nq + rem), "and are counted");
  }
  struct ConnectionClass *c = find_class("Small"); (void)c;
#else
  w_oper(bob); int a = conn(6667, "10.2.0.1", "na", "u", "r", 0, 0), b = conn(6667, "10.2.0.2", "nb", "luser", "some real", 0, 0), c = conn(6667, "10.2.5.1", "nc", "u", "bad name", "pw", 0), half = w_connect(6667, "10.2.0.9", 40000); w_send(half, "NICK half"); w_send(half, "USER luser 0 0 :r"); w_pump(); vp_assert(in(a) && in(b) && in(c), "harness: three clients"); w_advance(5); w_clear_all();
  static const char *cf[] = { CL("3", ""), CL("2", ""), CL("4", "Kill { host = \"luser@10.2.0.*\"; reason = \"new kill\"; };\n"), CL("5", "Kill { realname = \"bad*\"; };\nKill { host = \"10.2.0.9\"; };\n"), "" }; int k = vp_pick("config", 5), how = vp_pick("who", 2);
  w_setconf(cf[k]); if (how) { w_send(bob, "REHASH"); w_pump(); } else { rehash(&me, 1); w_pump(); }
  int kb = k == 2, kc = k == 3, kh = k == 2 || k == 3; vp_assert(in(a) && in(b) == !kb && in(c) == !kc && !w_closed(half) == !kh, "a rehash closes exactly those a Kill block now names"); vp_assert(w_closed(b) == kb && w_closed(c) == kc, "and closes their connections"); vp_assert(w_count(L1, " Q :K-lined") == kb + kc && w_count(L2, " Q :K-lined") == kb + kc && w_lines(L1) == kb + kc, "servers are told of those users");
  if (kb) vp_assert(w_count(b, " 465 nb :new kill.") == 1, "with the reason"); if (kc) vp_assert(w_count(c, " 465 nc :Connection from your host") == 1, "with the reason"); vp_reach(kb || kc ? "killed" : k == 4 ? "gone" : k == 1 ? "smaller" : "kept");
  int d = conn(6667, "10.2.0.3", "nd", "u", "r", 0, 0), e = conn(6667, "10.2.0.4", "ne", "u", "r", 0, 0); static const int dn[] = {0, 0, 1, 1, 1}, en[] = {0, 0, 1, 1, 1}; vp_assert(in(d) == dn[k] && in(e) == en[k], "newcomers meet the new limits");
  if (k < 2) { w_send(a, "QUIT"); w_pump(); int f = conn(6667, "10.2.0.5", "nf", "u", "r", 0, 0); vp_assert(in(f) == (k == 0), "counting those who were there before"); if (k == 1) { w_send(b, "QUIT"); w_pump(); f = conn(6667, "10.2.0.5", "nf", "u", "r", 0, 0); vp_assert(in(f), "until enough have left"); } }
#endif
}
