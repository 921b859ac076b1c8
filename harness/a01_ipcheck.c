/* @property A01
 * @quick time=150 RUN=1 N=2 SYM label=gap j=8
 * @quick time=150 RUN=1 N=3 label=throttle j=8
 * @quick time=150 RUN=2 N=3 label=count j=8
 * @thorough time=1500 RUN=1 N=3 SYM label=gap j=8
 * @thorough time=1500 RUN=1 N=4 label=throttle j=8
 * @thorough time=1500 RUN=2 N=4 label=count j=8
 * @reach gap:refused gap:accepted gap:grace gap:exempt throttle:refused throttle:accepted throttle:grace throttle:block throttle:exempt throttle:gone count:full count:on count:remote count:mixed count:left
 * @bounds two connections (thorough three) with any whole number of seconds up to 15, or three (thorough four) with 0, 5, 6, 10, 11 or 21, and once 700 more, between them, from one address, another of the same /64 or the same embedded IPv4 address, and a third of another /64, the same /48, an equal hash or outside an exempt block, each earlier connection staying or ending, before and after the grace time and across the point where the clock's low 16 bits wrap, limits 2 in 10 s per address and 3 in 5 s per /48; three steps (thorough four) of registering, only connecting, being introduced by a server, in or after its burst, and leaving, from an address, another of the same /64, one exempt within it, with at most two connections allowed
 * @outside limits changed while running, refusals undone after a nick collision, WEBIRC and websocket addresses, more than 255 attempts
 */
#include "chan.inc"
#include "numnicks.h"
#include "res.h"
#include "IPcheck.h"
#if RUN == 1
const char *vp_features = "\"IPCHECK_CLONE_LIMIT\" = \"2\"; \"IPCHECK_CLONE_PERIOD\" = \"10\"; \"IPCHECK_48_CLONE_LIMIT\" = \"3\"; \"IPCHECK_48_CLONE_PERIOD\" = \"5\"; \"IPCHECK_CLONE_DELAY\" = \"30\"; ";
#endif
const char *vp_conf_extra = "IPCheck { except \"192.0.2.0/28\"; except \"2001:db8:5:5::1\"; };\nClient { class = \"Local\"; ip = \"198.51.100.0/24\"; maxlinks = 2; };\nClient { class = \"Local\"; ip = \"2001:db8::/32\"; maxlinks = 2; };\n";
struct ent { int has, att, conn; long last; } e[3], b[3];
static int fd[8], key[8], open[8];
static void left(int k) { open[k] = 0; if (key[k] >= 0) { struct ent *x = &e[key[k]]; if (!--x->conn) { if (w_now - x->last > 20) x->att = 0; x->last = w_now; } } }
void vp_scenario(void) {
#if RUN == 1
  static const char *ad[6][3] = {{"198.51.100.7", "2002:c633:6407:1::1", "198.51.100.8"}, {"2001:db8:1:2::1", "2001:db8:1:2:ffff::9", "2001:db8:1:3::1"}, {"2001:db8:1:2::1", "2001:db8:1:2:0:1::", "2001:db8:2:1::1"}, {"2001:1:db8:2::1", "2001:1:db8:2::1", "2001:db8:1:2::1"}, {"192.0.2.5", "192.0.2.15", "192.0.2.16"}, {"2001:db8:1:2::1", "2001:db8:1:3::1", "2001:db8:1:4::1"}};
  int fam = vp_pick("family", 6);  int base = vp_pick("base", 3), lng = vp_pick("long", N + 1);
  if (base) w_advance(100); if (base == 2) { w_advance(65536 - (w_now & 65535) - 8); }
  for (int i = 0; i < N; i++) {
#ifdef SYM
    if (i) { int g = vp_range("gap", 0, 15); w_advance(g); }
#else
    if (i) { static const int gs[] = {0, 5, 6, 10, 11, 21}; w_advance(gs[vp_pick("gap", 6)]); }
#endif
    if (i && lng == i) w_advance(700); long now = w_now;
    for (int k = 0; k < i; k++) if (open[k] && w_closed(fd[k])) { vp_reach("gone"); left(k); }
    int w = i ? vp_pick("address", 3) : 0; const char *ip = ad[fam][w]; int six = fam != 4 && !(fam == 0 && w != 1), k64, k48;
    if (fam == 0) k64 = w == 2, k48 = 0; else if (fam == 1) k64 = w == 2, k48 = 0; else if (fam == 2 || fam == 3) k64 = k48 = w == 2; else if (fam == 5) k64 = w, k48 = 0; else k64 = w == 2 ? 0 : -1, k48 = 0;
    int ok = 1; long up = now - cli_since(&me); int lim = up > 30; struct ent *x = k64 < 0 ? 0 : &e[k64]; if (x && x->has && !x->conn && now - x->last > 600) memset(x, 0, sizeof *x);
    if (x) { int bad = 0; if (six) { struct ent *y = &b[k48]; if (!y->has || now - y->last > 5) y->att = 0; y->has = 1; y->last = now; y->att++; if (y->att >= 3) { if (lim) { bad = 1; vp_reach("block"); } else vp_reach("grace"); } }
      if (bad) { ok = 0; if (x->has) x->last = now; }
      else if (!x->has) { x->has = 1; x->att = x->conn = 1; x->last = now; }
      else { if (now - x->last > 10) x->att = 0; x->last = now; x->att++; if (x->att >= 2) { if (lim) ok = 0; else vp_reach("grace"); } if (ok) x->conn++; } }
    else vp_reach("exempt");
    fd[i] = w_connect(6667, ip, 40000); vp_assert(fd[i] >= 0, "accepted by the listener"); key[i] = k64; open[i] = ok; vp_reach(ok ? "accepted" : "refused");
    vp_assert(w_closed(fd[i]) == !ok, "a connection is refused exactly when its address or block connects too fast"); if (!ok) vp_assert(strstr(w_out(fd[i]), "throttled") != 0, "and is told why");
    if (ok && i < N - 1 && vp_bool("leave")) { w_eof(fd[i]); left(i); }
    for (int k = 0; k <= i; k++) if (open[k] && key[k] >= 0 && !w_closed(fd[k])) vp_assert(IPcheck_nr(w_client(fd[k])) == e[key[k]].conn, "the connections of an address are counted exactly");
  }
#else
  static const char *ad[3][3] = {{"198.51.100.7", "198.51.100.7", "198.51.100.8"}, {"2001:db8:1:2::1", "2001:db8:1:2:ffff::9", "2001:db8:1:3::1"}, {"2001:db8:5:5::1", "2001:db8:5:5::2", "2001:db8:5:5::3"}};
  std_network(); w_advance(15); w_clear_all(); int fam = vp_pick("family", 3), n = 0, att[2] = {0, 0}, stp[8], live[8], reg[8]; long last[2] = {0, 0}; int conn[2] = {0, 0}, has[2] = {0, 0}, rem = 0; memset(live, 0, sizeof live); char b64[30];
  for (int s = 0; s <= N; s++) { w_clear_all(); int what = s == N ? 0 : s ? vp_pick("what", 6) : vp_pick("what", 4); long now = w_now;
    if (what < 4) { int w = vp_pick("address", 3), k = fam == 2 ? (w ? 0 : -1) : w == 2, burst = what == 3; if (w == 0 && s && fam < 2 && what) vp_assume(0);
      if (k >= 0) { if (has[k] && !conn[k] && now - last[k] > 600) has[k] = 0; if (!has[k]) { has[k] = 1; conn[k] = 1; att[k] = !burst; last[k] = now; } else { conn[k]++; if (now - last[k] > 40) att[k] = 0; if (!burst) { att[k]++; last[k] = now; } } if (w == 1 && k == 0 && conn[0] > 1) vp_reach("mixed"); }
      else if (what >= 2) { } stp[n] = s; key[n] = k; reg[n] = 0; live[n] = 1;
      if (what < 2) { const char *nk = w_fmt("user%d", s); fd[n] = w_connect(6667, ad[fam][w], 40000); vp_assert(!w_closed(fd[n]), "accepted"); if (what == 0) { int c = k >= 0 ? conn[k] : 0; if (k < 0 && has[0]) c = conn[0];
          w_send(fd[n], w_fmt("NICK %s", nk)); w_send(fd[n], w_fmt("USER %s 0 0 :real", nk)); w_pump(); char *p = strstr(w_out(fd[n]), "PING :"); vp_assert(p != 0, "a ping is sent"); char q[40]; int i = 0; p += 6; while (*p && *p != '\r' && i < 30) q[i++] = *p++; q[i] = 0; w_send(fd[n], w_fmt("PONG :%s", q)); w_pump();
          vp_assert(w_closed(fd[n]) == (c > 2), "an address has at most as many connections as the client block allows"); vp_assert((FindUser(nk) != 0) == (c <= 2), "and registers otherwise"); if (c > 2) { vp_reach("full"); vp_assert(strstr(w_out(fd[n]), "Too many connections from your host") != 0, "and is told so"); live[n] = 0; if (k >= 0 && !--conn[k]) last[k] = now; }
          else { reg[n] = 1; if (k >= 0) { vp_reach("on"); vp_assert(w_count(fd[n], w_fmt("NOTICE %s :on %d ca %d(200) ft ", nk, conn[k], att[k])) == 1, "and is told the connections and recent attempts of its address"); } } } }
      else { unsigned char ipb[16]; const char *ip = ad[fam][w]; struct irc_in_addr a; vp_assert(ircd_aton(&a, ip), "address"); iptobase64(b64, &a, sizeof b64, 1); fd[n] = -1; if (burst) { if (!rem) { w_send(L1, w_fmt("AC S sub.test.net 2 0 %l J10 AH]]] +6 :sub", now)); rem = 1; } w_send(L1, w_fmt("AH N user%d 2 %l u host.x %s AH%s :real", s, now, b64, w_fmt("AA%c", 'A' + n))); } else w_send(L1, w_fmt("AC N user%d 1 %l u host.x %s AC%s :real", s, now, b64, w_fmt("AB%c", 'A' + n))); w_pump(); vp_assert(FindUser(w_fmt("user%d", s)) != 0, "a remote user is accepted"); reg[n] = 1; vp_reach("remote"); }
      n++; }
    else { int v = -1; for (int i = 0; i < n; i++) if (live[i]) { v = i; if (what == 4) break; } vp_assume(v >= 0); if (fd[v] >= 0) w_eof(fd[v]); else { struct Client *c = FindUser(w_fmt("user%d", stp[v])); w_send(L1, w_fmt("%s%s Q :bye", cli_yxx(cli_user(c)->server), cli_yxx(c))); w_pump(); vp_reach("left"); } live[v] = 0; int k = key[v]; if (k >= 0 && !--conn[k]) { if (now - last[k] > 8000) att[k] = 0; last[k] = now; } }
  }
#endif
}
