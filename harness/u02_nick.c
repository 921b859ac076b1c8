/* @property U02
 * @quick time=100 RUN=1 label=change j=4
 * @quick time=100 RUN=2 NB=2 label=bytes j=8
 * @quick time=100 RUN=3 label=rate j=2
 * @thorough time=400 RUN=1 label=change j=4
 * @thorough time=800 RUN=2 NB=3 label=bytes j=8
 * @thorough time=400 RUN=3 DEEP label=rate j=4
 * @reach change:changed change:refused change:inuse change:case change:overtake change:same bytes:valid bytes:invalid rate:fast rate:ok
 * @bounds a nick change by a member of up to two channels with any relevant modes, bans, status and account, to each of a family of names (free, in use by local, remote or unregistered clients in any case, same name, other case, over-long); nick of one arbitrary byte and one from around the limits of the alphabet (thorough three arbitrary bytes) plus a letter in any position; four nick changes at arbitrary distances of 0 to 70 seconds
 * @outside feature NICKLEN other than default, jupe list, nick change before registration (U01)
 */
#include "chan.inc"
#ifndef NB
#define NB 2
#endif
static int eve, unreg;
static int told(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
static void sees(const char *old, const char *nw, int shared) {
  vp_assert(told(boss, w_fmt(":%s!boss@10.0.0.9 NICK :%s", old, nw)) == 1 && w_lines(boss) == 1, "the user is told of the new nick once");
  vp_assert(told(bob, w_fmt(":%s!boss@10.0.0.9 NICK :%s", old, nw)) == shared && w_lines(bob) == shared, "users sharing a channel are told once");
  vp_assert(w_lines(eve) == 0, "nobody else is told"); }
void vp_scenario(void) {
  std_network(); eve = w_user("eve", "10.0.0.5"); const char *yb = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(boss)));
#if RUN == 1
  static const char *names[] = {"fresh", "Bob", "bob", "CAROL", "carol", "boss", "BoSs", "early", "EARLY", "twelve345678", "thirteen34567", "fresh~x", "-x", "9x", "a|b", "f{}[]", "x!y", "fifteenletters12"};
  static const char *final[] = {"fresh", 0, 0, 0, 0, "", "BoSs", "early", "EARLY", "twelve345678", "thirteen3456", "fresh", 0, 0, "a|b", "f{}[]", "x", "fifteenlette"};
  unreg = w_connect(6667, "10.0.0.8", 5000); w_send(unreg, "NICK early"); w_pump();
  int inx = vp_pick("memx", 2), iny = vp_pick("memy", 2);
  w_send(bob, "JOIN #x"); if (inx) w_send(boss, "JOIN #x"); else w_send(eve, "JOIN #x,#e"); if (iny) { w_send(bob, "JOIN #y"); w_send(boss, "JOIN #y"); } w_pump();
  int st = 0, mode = 0, acct = 0, ban = 0; struct Channel *x = FindChannel("#x"); struct Membership *m = find_channel_member(w_client(boss), x);
  if (inx && vp_pick("restricted", 2)) { acct = vp_bool("account"); SYMFLAG(w_client(boss), FLAG_ACCOUNT, acct); st = vp_pick("status", 3); ban = vp_pick("ban", 3); if (ban) w_send(L1, ban == 1 ? "AC M #x +b boss!*@*" : "AC M #x +b fresh!*@*"); w_pump(); w_send(boss, "PRIVMSG #x :known"); w_pump();
    mode = (vp_bool("m") ? MODE_MODERATED : 0) | (vp_bool("r") ? MODE_REGONLY : 0) | (vp_bool("M") ? MODE_MODERATENOREG : 0); x->mode.mode |= mode; m->status = (m->status & ~(CHFL_CHANOP | CHFL_VOICE)) | (st == 1 ? CHFL_VOICE : st == 2 ? CHFL_CHANOP : 0); if (ban == 1) mode |= 1 << 30; }
  w_advance(100); w_clear_all(); w_pump(); int k = vp_pick("name", sizeof names / sizeof *names); w_send(boss, w_fmt("NICK %s", names[k])); w_pump();
  int blocked = inx && st == 0 && ((mode & MODE_MODERATED) || ((mode & (MODE_REGONLY | MODE_MODERATENOREG)) && !acct) || (mode >> 30 & 1)); const char *f = final[k]; struct Client *c = w_client(boss);
  if (k == 5) { vp_reach("same"); vp_assert(!w_out(boss)[0] && !w_out(bob)[0] && !w_out(L1)[0], "keeping the same nick does nothing"); return; }
  if (k == 7 || k == 8) { vp_assert(w_closed(unreg), "an unregistered connection gives way"); }
  if (!f) { vp_assert(w_eq(cli_name(c), "boss") && w_lines(boss) == 1 && w_starts(w_line(boss, 0), k == 12 || k == 13 ? ":vp.test.net 432 boss" : ":vp.test.net 433 boss"), "an invalid or used nick is refused with the reason"); vp_reach("inuse"); goto none; }
  if (blocked) { vp_reach("refused"); vp_assert(w_eq(cli_name(c), "boss") && w_lines(boss) == 1 && w_starts(w_line(boss, 0), ":vp.test.net 437 boss #x"), "a user who may not speak on a channel cannot change nick"); goto none; }
  vp_reach("changed"); if (k == 6) vp_reach("case"); if (k == 7) vp_reach("overtake");
  vp_assert(w_eq(cli_name(c), f), "the nick is changed"); if (w_closed(unreg) || 1) { } sees("boss", f, inx || iny);
  { const char *p = w_fmt("%s N %s %l", yb, f, k == 6 ? (long)w_now - 100 : (long)w_now); vp_assert(told(L1, p) == 1 && told(L2, p) == 1 && w_lines(L1) == 1 && w_lines(L2) == 1, "every server is told once, with the time of the change"); }
  if (ban) { x->mode.mode &= ~(MODE_MODERATED | MODE_REGONLY | MODE_MODERATENOREG); m->status &= ~(CHFL_CHANOP | CHFL_VOICE); w_clear_all(); w_send(boss, "PRIVMSG #x :now"); w_pump(); vp_assert(w_count(bob, ":now") == !((ban == 1 && k == 6) || (ban == 2 && w_eq((char *)f, "fresh"))), "bans are judged by the new nick"); }
  w_clear_all(); w_send(eve, w_fmt("PRIVMSG %s :yo", f)); w_pump(); vp_assert(w_count(boss, "PRIVMSG") == 1, "the new nick reaches the user"); if (k != 6) { w_clear_all(); w_send(eve, "PRIVMSG boss :yo"); w_send(eve, "WHOWAS boss"); w_pump(); vp_assert(!w_out(boss)[0] && w_count(eve, " 401 eve boss ") == 1 && w_count(eve, " 314 eve boss ") == 1, "the old nick is free and remembered"); w_clear_all(); w_send(eve, "NICK boss"); w_pump(); vp_assert(w_count(eve, "NICK :boss") == 1, "the old nick can be taken"); }
  return;
none: vp_assert(!w_out(bob)[0] && !w_out(eve)[0] && !w_out(L1)[0] && !w_out(L2)[0], "a refused change is told to nobody"); w_clear_all(); w_send(eve, "PRIVMSG boss :yo"); w_pump(); vp_assert(w_count(boss, "PRIVMSG") == 1, "the user keeps the nick");
#elif RUN == 2
  unsigned char b[8], e[8]; int n = 0; int pos = vp_pick("pos", NB + 1); for (int i = 0; i < NB; i++) { if (i == pos) b[n++] = 'q'; b[n] = vp_byte("b"); vp_assume(b[n] != 0 && b[n] != '\r' && b[n] != '\n' && b[n] != ' ');
#if NB < 3
    if (i) { unsigned char c = b[n]; vp_assume((c == '-') | (c == '/') | (c == '0') | (c == '9') | (c == ':') | (c == '@') | (c == 'A') | (c == '[') | (c == '}') | (c == '_') | (c == 0x7f) | (c == 0xe9) | (c == '.') | (c == '!')); }
#endif
    n++; } if (pos == NB) b[n++] = 'q'; b[n] = 0; vp_assume(b[0] != ':');
  w_advance(100); w_clear_all(); char l[40]; strcpy(l, "NICK "); strcpy(l + 5, (char *)b); w_send(boss, l); w_pump();
  int k = 0; for (int i = 0; i < n; i++) { unsigned char c = b[i]; if (!(((c >= 'A') & (c <= '}')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '_'))) break; e[k++] = c; } e[k] = 0; if (k && (e[0] == '-' || (e[0] >= '0' && e[0] <= '9'))) k = 0;
  if (k) { vp_reach("valid"); vp_assert(w_eq(cli_name(w_client(boss)), (char *)e), "the nick is the longest valid prefix"); vp_assert(FindClient((char *)e) == w_client(boss), "it is found under its nick"); vp_assert(w_lines(boss) == 1 && w_eq(w_line(boss, 0), w_fmt(":boss!boss@10.0.0.9 NICK :%s", (char *)e)), "and told"); }
  else { vp_reach("invalid"); vp_assert(w_eq(cli_name(w_client(boss)), "boss") && w_lines(boss) == 1 && w_starts(w_line(boss, 0), ":vp.test.net 432 boss "), "an invalid nick is refused"); }
#else
  w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_pump(); long next = cli_nextnick(w_client(boss)); vp_assert(next <= w_now, "harness: no penalty yet"); const char *cur = "boss"; int g = 0;
  for (int i = 0; i < 4; i++) {
#ifdef DEEP
    int d = vp_pick("delay", 71);
#else
    static const int ds[] = {0, 1, 29, 30, 31, 59, 61}; int d = ds[vp_pick("delay", 7)];
#endif
    w_advance(d); w_send(boss, "PONG x"); w_send(bob, "PONG x"); w_clear_all(); const char *nn = w_fmt("nick%d", i); w_send(boss, w_fmt("NICK %s", nn)); w_pump();
    if (w_now < next) { vp_reach("fast"); next += 2; vp_assert(w_eq(cli_name(w_client(boss)), cur) && w_count(boss, w_fmt(" 438 %s %s ", cur, nn)) == 1 && !w_out(bob)[0] && !w_out(L1)[0], "changing nick too fast is refused"); }
    else { g++; vp_reach("ok"); next += 30; if (next < w_now) next = w_now; vp_assert(w_eq(cli_name(w_client(boss)), nn) && w_count(bob, "NICK :") == 1, "otherwise it is allowed"); cur = nn; } }
  (void)g;
#endif
}
