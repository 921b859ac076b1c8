/* @property U01
 * @quick time=200 RUN=1 D=5 label=order j=8
 * @quick time=100 RUN=2 D=5 label=password j=8
 * @quick time=100 RUN=3 label=gate j=4
 * @thorough time=1500 RUN=1 D=6 label=order j=8
 * @thorough time=800 RUN=2 D=6 label=password j=8
 * @thorough time=100 RUN=3 label=gate j=4
 * @reach order:registered order:waiting order:wrongpong order:cap password:registered password:refused gate:refused gate:timeout
 * @bounds every sequence of up to 5 (thorough 6) messages of NICK free / NICK used / USER / PONG right / PONG wrong / CAP LS / CAP END / JOIN; every sequence of 5 (thorough 6) of NICK / USER / PONG / PASS right / PASS wrong / PASS empty on a class with a password; every command of the message table before registration; silence
 * @outside DNS, ident, WEBIRC, IAuth, GLINEs at registration (N05), class limits (A02), clone limits (A01)
 */
#include "chan.inc"
#ifndef D
#define D 4
#endif
const char *vp_conf_extra = "Client { class = \"Local\"; ip = \"10.1.0.0/16\"; password = \"right word\"; maxlinks = 50; };\n";
static int spied; static int spy(struct Client *c, struct Client *s, int n, char **v) { (void)c; (void)s; (void)n; (void)v; spied++; return 0; }
static char *cookie(int fd) { char *p = strstr(w_out(fd), "PING :"); if (!p) return 0; char *o = malloc(20), *q = o; for (p += 6; *p >= '0' && *p <= '9';) *q++ = *p++; *q = 0; return o; }
void vp_scenario(void) {
  std_network(); w_send(boss, "JOIN #x"); w_pump(); w_advance(20); w_clear_all(); int fd = w_connect(6667, RUN == 2 ? "10.1.0.8" : "10.0.0.8", 5000); 
  const char *nick = 0, *ck = 0, *info = 0, *pass = 0; int ponged = 0, cap = 0, reg = 0;
#if RUN == 3
  int k = vp_pick("command", 90), i = 0; while (i < k && msgtab[i].cmd) i++; vp_assume(msgtab[i].cmd != 0); const char *c = msgtab[i].cmd;
  if (w_eq(c, "NOTICE") && 0) return; int own = w_eq(c, "NICK") || w_eq(c, "USER") || w_eq(c, "PASS") || w_eq(c, "CAP") || w_eq(c, "PONG") || w_eq(c, "QUIT") || w_eq(c, "POST") || w_eq(c, "AUTHENTICATE") || w_eq(c, "WEBIRC") || w_eq(c, "SERVER") || w_eq(c, "ERROR") || w_eq(c, "VERSION") || w_eq(c, "ADMIN") || w_eq(c, "PROTO");
  int stage = vp_pick("stage", 4); if (stage & 1) w_send(fd, "NICK newbie"); if (stage & 2) w_send(fd, "USER u x x :Real"); w_pump(); w_clear(fd); spied = 0; static const char *args[] = {"", " boss", " #x", " boss #x :y", " #x +o boss", " god secret"}; w_send(fd, w_fmt("%s%s", c, args[vp_pick("args", 6)])); w_pump(); (void)spy;
  vp_assert(!w_out(boss)[0] && !w_out(bob)[0] && !w_out(L1)[0] && !w_out(L2)[0], "no command of an unregistered connection reaches anyone"); vp_assert(!FindChannel("#y") && FindChannel("#x")->users == 1, "nor changes a channel");
  if (!own) { vp_reach("refused"); int n = w_lines(fd); for (int j = 0; j < n; j++) vp_assert(w_starts(w_line(fd, j), ":vp.test.net 451 ") || w_starts(w_line(fd, j), ":vp.test.net 421 "), "and gets no information"); vp_assert(!w_closed(fd), "and it stays"); }
  w_send(boss, "LUSERS"); w_pump(); vp_assert(w_count(boss, "I have 2 clients and 2 servers") == 1, "and is not counted as a user");
  if (!w_closed(fd)) { vp_assert(!IsUser(w_client(fd)), "it is not a user"); if (stage == 3 && i < 3) { w_advance(59); vp_assert(!IsUser(w_client(fd)), "nor later"); w_advance(32); w_send(boss, "PONG x"); w_advance(91); w_pump(); vp_reach("timeout"); vp_assert(w_closed(fd), "a connection that never registers is closed"); } }
#else
  static const int abc1[] = {0, 1, 2, 3, 4, 5, 6, 7}, abc2[] = {0, 2, 3, 8, 9, 10}; const int *abc = RUN == 1 ? abc1 : abc2; int na = RUN == 1 ? 8 : 6, n = 0, killed = 0;
  for (int s = 0; s < D && !reg && !killed; s++) {
    int a = abc[vp_pick("step", na)]; w_advance(4); w_clear(boss); w_clear(L1); w_clear(L2); ck = cookie(fd); char *o = w_out(fd); int olen = strlen(o); (void)olen;
    switch (a) {
      case 0: nick = nick ? "newbie2" : "newbie"; w_send(fd, w_fmt("NICK %s", nick)); break;
      case 1: w_send(fd, "NICK BOSS"); break;
      case 2: info = info ? "Second" : "Real Name"; w_send(fd, w_fmt("USER %s 0 * :%s", info[0] == 'S' ? "two" : "one", info)); break;
      case 3: if (ck && nick) { w_send(fd, w_fmt("PONG :%s", ck)); ponged = 1; } else w_send(fd, "PONG :0"); break;
      case 4: w_send(fd, "PONG :12345"); if (ck && !ponged) vp_reach("wrongpong"); break;
      case 5: w_send(fd, "CAP LS"); cap = 1; vp_reach("cap"); break;
      case 6: w_send(fd, "CAP END"); cap = 0; break;
      case 7: w_send(fd, "JOIN #x"); break;
      case 8: w_send(fd, "PASS right word"); if (!pass) pass = "right"; break;
      case 9: w_send(fd, "PASS right"); if (!pass) pass = "wrong"; break;
      case 10: w_send(fd, "PASS :"); break; }
    w_pump(); int ready = nick && info && ponged && !cap; (void)n;
    if (ready && RUN == 2 && (!pass || !w_eq(pass, "right"))) { vp_reach("refused"); killed = 1; vp_assert(w_closed(fd) && w_count(fd, " 464 ") == 1 && !w_count(fd, " 001 ") && !w_out(L1)[0] && !FindUser(nick), "a client without the password is refused"); return; }
    vp_assert(!w_closed(fd), "the connection stays"); int is = IsUser(w_client(fd)) ? 1 : 0; vp_assert(is == (ready ? 1 : 0), "it becomes a user exactly when all that is required was given"); vp_assert(w_count(fd, ":vp.test.net 001 ") == is && w_count(fd, ":vp.test.net 005 ") >= is && (w_count(fd, " 422 ") + w_count(fd, " 376 ")) == is, "and is greeted once");
    if (is) { reg = 1; vp_reach("registered"); struct Client *c = w_client(fd); vp_assert(FindUser(nick) == c, "under its nick"); const char *num = w_fmt("%s%s", cli_yxx(&me), cli_yxx(c)); vp_assert(findNUser(num) == c, "and numeric");
      const char *l = w_fmt("AB N %s 1 %l %s %s %s %s :%s", nick, (long)cli_lastnick(c), info[0] == 'S' ? "two" : "one", RUN == 2 ? "10.1.0.8" : "10.0.0.8", RUN == 2 ? "AKAQAI" : "AKAAAI", num, info);
      vp_assert(w_lines(L1) == 1 && w_eq(w_line(L1, 0), l) && w_lines(L2) == 1 && w_eq(w_line(L2, 0), l), "every server learns of the user once, with its data"); w_send(fd, "JOIN #x"); w_pump(); vp_assert(w_count(boss, w_fmt(":%s!%s@", nick, info[0] == 'S' ? "two" : "one")) == 1 && w_count(boss, "JOIN") == 1, "and can join"); }
    else { vp_reach("waiting"); vp_assert(!w_out(boss)[0] && !w_out(L1)[0] && !w_out(L2)[0] && !find_channel_member(w_client(fd), FindChannel("#x")), "nobody hears of it before"); }
  }
#endif
}
