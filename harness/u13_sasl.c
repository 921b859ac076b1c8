/* @property U13
 * @quick time=250 RUN=1 D=4 label=login j=4
 * @quick time=100 RUN=2 label=account j=4
 * @thorough time=3000 RUN=1 D=5 ALL label=login j=4
 * @thorough time=100 RUN=2 label=account j=4
 * @reach login:start login:step login:challenge login:ok login:no login:abort login:timeout login:late login:mechs login:already login:long login:other login:gone login:quit account:in account:hidden account:none account:user account:nocap
 * @bounds login: every sequence of 4 (thorough 5) of starting with a supported or unsupported mechanism, a response, an over-long one, abort, challenge, success and failure for the current, an earlier, another client's or an unknown attempt, timeout, the login server leaving and the client leaving, at least 8 seconds apart, for a new connection or a user; account: every form of success (name, id, flags, hidden host, none) during and after registration, with and without the capability
 * @outside registration completed in the middle of a login, TLS fingerprints, more than two clients, what is told of a success without account
 */
#include "chan.inc"
#include "capab.h"
#include "sasl.h"
const char *vp_features = "\"HUB\" = \"TRUE\"; \"HOST_HIDING\" = \"TRUE\"; \"HIDDEN_HOST\" = \"hid.net\"; ";
#ifndef D
#define D 4
#endif
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
static long cookie(void) { char *l = w_find(L2, " XQ AD sasl:"); if (!l) return 0; char *p = strstr(l, "sasl:") + 5; long v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); return v; }
static void reply(long ck, const char *t) { w_send(L2, w_fmt("AD XR AB sasl:%l :%s", ck, t)); w_pump(); }
void vp_scenario(void) {
  std_network(); w_send(L1, "AC CF 1600000000 sasl.server :leaf2.*"); w_send(L1, "AC CF 1600000000 sasl.mechanisms :PLAIN,EXTERNAL"); w_pump();
#if RUN == 1
  int user = vp_pick("user", 2), fd = user ? w_user("newb", "10.0.0.77") : w_connect(6667, "10.0.0.77", 5000); w_send(fd, "CAP REQ :sasl"); w_send(fd, "CAP LS 302"); w_send(bob, "CAP REQ :sasl"); w_pump(); w_advance(20); w_clear_all(); struct Client *c = w_client(fd); const char *nk = user ? "newb" : "*", *id = user ? w_fmt("AB%s", cli_yxx(c)) : "10.0.0.77 _";
  long cur = 0, old = 0, oth = 0, last = 0; int done = 0, gone = 0, age = 0, oage = 0; long t0 = w_now; char big[420]; for (int i = 0; i < 401; i++) big[i] = 'A'; big[401] = 0;
  for (int s = 0; s < D; s++) { 
#ifdef ALL
    int a = vp_pick("event", 17);
#else
    static const int few[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16}; int a = few[vp_pick("event", 14)];
#endif
     w_clear(fd); w_clear(bob); int dt = a == 15 ? 16 : 8; w_advance(dt); age += dt; oage += dt; if (age + oage > 0 && w_now - t0 > 80) vp_end(); w_pump(); if (cur && age >= 30) { vp_assert(w_count(fd, w_fmt(" 904 %s ", nk)) == 1 && w_lines(fd) == 1, "a login not finished in time fails"); old = cur; cur = 0; vp_reach("timeout"); } else vp_assert(w_lines(fd) == 0, "but not before"); if (oth && oage >= 30) oth = 0; w_clear(fd); w_clear(bob); if (!gone) w_clear(L2); const char *r = 0;
    if (a <= 4) { r = a == 0 ? "PLAIN" : a == 1 ? "BOGUS" : a == 2 ? "dGVzdA==" : a == 3 ? big : "external"; w_send(fd, w_fmt("AUTHENTICATE %s", r)); w_pump(); int q = gone ? 0 : w_count(L2, " XQ ");
      if (gone && user) vp_assert(!w_out(fd)[0], "who was told that it is gone gets nothing");
      else if (done) { vp_assert(w_count(fd, w_fmt(" 907 %s ", nk)) == 1 && w_lines(fd) == 1 && q == 0, "who has logged in cannot log in again"); vp_reach("already"); }
      else if (gone) vp_assert(w_count(fd, w_fmt(" 904 %s ", nk)) == 1 && w_lines(fd) == 1, "without a login server it fails");
      else if (a == 3) { vp_assert(w_count(fd, w_fmt(" 905 %s ", nk)) == 1 && w_lines(fd) == 1 && q == 0, "an over-long message is refused"); vp_reach("long"); }
      else if (cur) { vp_assert(w_lines(fd) == 0 && q == 1 && eqc(L2, w_fmt("AB XQ AD sasl:%l :SASL %s", cur, r)) == 1, "a response goes to the login server once, as it is"); vp_reach("step"); }
      else if (a == 1 || a == 2) { vp_assert(w_count(fd, w_fmt(" 908 %s PLAIN,EXTERNAL ", nk)) == 1 && w_lines(fd) == 1 && q == 0, "an unsupported mechanism is refused with those supported"); vp_reach("mechs"); }
      else { vp_assert(w_lines(fd) == 0 && q == 1, "a login starts by asking the login server once"); cur = cookie(); vp_assert(cur && cur > last && cur != old && cur != oth, "under a mark never used before"); last = cur; age = 0; vp_assert(eqc(L2, w_fmt("AB XQ AD sasl:%l :SASL %s %s", cur, id, r)) == 1, "naming the client and the mechanism"); vp_reach("start"); } }
    else if (a == 5) { w_send(fd, "AUTHENTICATE *"); w_pump(); if (gone && user) vp_assert(!w_out(fd)[0], "who was told that it is gone gets nothing"); else if (done) vp_assert(w_count(fd, " 907 ") == 1, "who has logged in cannot log in again"); else if (gone) vp_assert(w_count(fd, " 904 ") == 1, "without a login server it fails"); else { vp_assert(w_count(fd, w_fmt(" 906 %s ", nk)) == 1 && w_lines(fd) == 1 && !w_count(L2, " XQ "), "a login can be aborted"); if (cur) { old = cur; cur = 0; vp_reach("abort"); } } }
    else if (a <= 14) { if (gone) vp_end(); long t = 0; int k = (a - 6) % 3; if (a <= 8) t = cur; else if (a <= 11) { t = old; } else { t = oth; if (!oth) { w_send(bob, "AUTHENTICATE PLAIN"); w_pump(); oth = t = cookie(); oage = 0; vp_assert(t > last, "under a mark never used before"); last = t; } } if (!t) t = 9999;
      const char *txt = k == 0 ? "SASL abc=" : k == 1 ? "OK acc:7:3" : "NO bad"; reply(t, txt);
      if (t == cur) { if (k == 0) { vp_assert(w_count(fd, "AUTHENTICATE abc=") == 1 && w_lines(fd) == 1, "a challenge reaches the client as it is"); vp_reach("challenge"); } else if (k == 1) { vp_assert(w_count(fd, w_fmt(" 903 %s ", nk)) == 1 && w_lines(fd) == 1 + user, "success is told"); done = 1; old = cur; cur = 0; vp_reach("ok"); } else { vp_assert(w_count(fd, w_fmt(" 904 %s :bad", nk)) == 1 && w_lines(fd) == 1, "failure is told"); old = cur; cur = 0; vp_reach("no"); } vp_assert(w_lines(bob) == 0, "to nobody else"); }
      else { vp_assert(w_lines(fd) == 0, "an answer to something else or past changes nothing"); vp_assert(user || !done == !IsAccount(c), "an answer to something else or past changes nothing"); if (t == old && old) vp_reach("late"); if (t == oth) { vp_assert(k == 0 ? w_lines(bob) == 1 && w_count(bob, "AUTHENTICATE abc=") == 1 : k == 1 ? w_count(bob, " 903 bob ") == 1 : w_lines(bob) == 1 && w_count(bob, " 904 bob ") == 1, "but reaches whom it is for"); if (k) oth = 0; if (k == 1) vp_end(); vp_reach("other"); } else vp_assert(w_lines(bob) == 0, "to nobody else"); } }
    else if (a == 15) { }
    else { if (gone || !cur) { if (!old && !cur) vp_end(); } if (vp_pick("leave", 2)) { if (gone) vp_end(); w_eof(L2); gone = 1; vp_reach("gone"); w_pump(); if (cur) vp_end(); } else { if (gone) vp_end(); w_eof(fd); w_pump(); vp_assert(w_closed(fd), "harness: left"); w_clear_all(); w_connect(6667, "10.0.0.79", 5001); w_pump(); w_clear_all(); if (cur) { reply(cur, "OK acc:7:3"); reply(cur, "SASL x"); } if (old) { reply(old, "OK acc:7:3"); reply(old, "NO y"); } vp_assert(w_lines(bob) == 0 && w_lines(boss) == 0 && !strstr(w_out(L2), " 90"), "answers for who left reach nobody"); for (int i = 0; i < 64; i++) if (LocalClientArray[i]) vp_assert(!IsAccount(LocalClientArray[i]), "and log nobody in"); vp_reach("quit"); return; } }
    if (!w_closed(fd)) { vp_assert(w_client(fd) == c, "the client stays"); vp_assert(cli_sasl(c) == (unsigned long)cur, "exactly one login is under way, or none"); if (!user) vp_assert(!!IsAccount(c) == done, "who succeeded is logged in, nobody else"); vp_assert(!IsAccount(w_client(boss)), "who succeeded is logged in, nobody else"); } }
#else
  int cap = vp_pick("cap", 2), user = vp_pick("user", 2), k = vp_pick("reply", 9), nickfirst = vp_pick("nickfirst", 2); static const char *rp[] = {"OK acc", "OK acc:7", "OK acc:7:3", "OK acc:7:3 +x", "OK", "OK :", "OK twelveletters:7:3", "OKAY acc", "ok acc:7"};
  int fd = user ? w_user("newb", "10.0.0.77") : w_connect(6667, "10.0.0.77", 5000); w_send(fd, "CAP LS"); if (nickfirst && !user) { w_send(fd, "NICK newb"); w_send(fd, "USER newb 0 0 :new"); } if (cap) w_send(fd, "CAP REQ :sasl"); w_pump(); { char *p = strstr(w_out(fd), "PING :"); if (p) { w_send(fd, w_fmt("PONG :%s", p + 6)); w_pump(); } } w_advance(20); w_clear_all();
  w_send(fd, "AUTHENTICATE PLAIN"); w_pump(); long ck = cookie(); if (!cap) { vp_assert(!w_out(fd)[0] && !ck, "without the capability there is no login"); vp_reach("nocap"); return; } vp_assert(ck, "harness: login"); reply(ck, rp[k]); int ok = k <= 6, in = ok && k != 4 && k != 5; vp_assert(w_count(fd, " 903 ") == ok, "success is told exactly if the login server says so");
  if (!user) { if (!nickfirst) { w_send(fd, "NICK newb"); w_send(fd, "USER newb 0 0 :new"); } w_clear(L1); w_clear(L2); w_pump(); if (!ok) { w_send(fd, "AUTHENTICATE *"); } w_pump(); w_advance(15); w_send(fd, "CAP END"); w_pump(); char *p = strstr(w_out(fd), "PING :"); if (p) { w_send(fd, w_fmt("PONG :%s", p + 6)); w_pump(); } struct Client *c = w_client(fd); vp_assert(c && IsUser(c), "harness: registered"); vp_assert(!!IsAccount(c) == in, "who succeeded is registered under the account"); static const char *nm[] = {"acc", "acc", "acc", "acc", "", "", "twelveletters"}; static const int ids[] = {0, 7, 7, 7, 0, 0, 7}, fl[] = {0, 0, 3, 3, 0, 0, 3};
    if (in) { char want[16]; strncpy(want, nm[k], ACCOUNTLEN); want[ACCOUNTLEN] = 0; vp_assert(w_eq(cli_user(c)->account, want) && cli_user(c)->acc_id == (unsigned)ids[k] && cli_user(c)->acc_flags == (unsigned)fl[k], "with its name, number and flags"); vp_assert(w_count(fd, " 900 newb ") == 1, "is told so"); vp_assert(!!IsHiddenHost(c) == (k == 3), "and hidden if asked"); char *l = w_find(L1, " N newb "); vp_assert(l && strstr(l, ids[k] ? fl[k] ? w_fmt(" %s:%d:%d ", want, ids[k], fl[k]) : w_fmt(" %s:%d ", want, ids[k]) : w_fmt(" %s ", want)), "and is introduced so"); vp_assert(w_eq(cli_user(c)->host, k == 3 ? "acc.hid.net" : "10.0.0.77"), "under the host shown"); vp_reach("in"); if (k == 3) vp_reach("hidden"); } else { if (!ok) vp_assert(!w_count(fd, " 900 "), "nobody else is told so"); vp_reach("none"); } }
  else { vp_assert(!IsAccount(w_client(fd)), "a user's account is set by the login server itself"); vp_reach("user"); }
#endif
}
