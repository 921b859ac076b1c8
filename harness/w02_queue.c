/* @property W02
 * @quick time=200 RUN=1 label=user j=4
 * @quick time=200 RUN=2 label=server j=4
 * @thorough time=600 RUN=1 DEEP label=user j=4
 * @thorough time=600 RUN=2 DEEP label=server j=4
 * @reach user:partial user:ping user:stall server:partial server:ping
 * @bounds up to three messages queued on a stalled connection (user or server link), two partial writes of any size up to the whole queue, further messages and a priority PING queued in between or after, a stall between the writes, then drained
 * @outside more than six queued messages, queue overflow (C: see sendq limits), TLS and websocket framing, compressed links
 */
#include "chan.inc"
static const char *txt(int i) { static const char *t[] = {"a", "a somewhat longer message text", "mid size", "x", "another line that is there", "last"}; return t[i]; }
static int sent, fd;
static void say(int k) { while (k--) { int i = sent++; const char *pre = RUN == 1 ? "PRIVMSG bob" : "PRIVMSG dave"; w_send(boss, w_fmt("%s :%d %s", pre, i, txt(i % 6))); } }
void vp_scenario(void) {
  std_network(); fd = RUN == 1 ? bob : L2; w_clear_all(); int total[4]; (void)total; const char *yb = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(boss)));
  w_blocked[fd] = 1; say(1); w_pump(); vp_assert(!w_out(fd)[0], "harness: stalled"); say(vp_pick("first", 3)); /* 1..3 queued */
  int linelen = 0; for (int i = 0; i < sent; i++) linelen += strlen(RUN == 1 ? w_fmt(":boss!boss@10.0.0.9 PRIVMSG bob :%d %s", i, txt(i)) : w_fmt("@time=2023-11-14T22:13:20.000Z %s P ADAAA :%d %s", yb, i, txt(i))) + 2;
#ifdef DEEP
  int k1 = vp_pick("write1", linelen) + 1;
#else
  int k1 = vp_pick("write1", linelen < 90 ? linelen : 90) + 1;
#endif
  w_blocked[fd] = 0; w_wlimit[fd] = k1; w_writable(fd); w_blocked[fd] = 1; vp_reach("partial");
  int ping = vp_pick("ping", 2); if (ping) { if (RUN == 1) { w_advance(45); w_advance(46); } else { w_advance(45); w_advance(46); } } int mid = vp_pick("mid", 2); say(mid);
  if (vp_pick("stall", 2)) { w_writable(fd); vp_reach("stall"); }
  w_blocked[fd] = 0; w_wlimit[fd] = vp_pick("write2", 3) * 17 + 1; w_writable(fd); say(vp_pick("late", 2)); w_wlimit[fd] = 0; w_pump();
  char *o = w_out(fd); int l = strlen(o); int pings = 0, next = 0;
  for (int i = 0; i < l;) { int e = i; while (e < l && o[e] != '\r') e++; vp_assert(e + 1 < l && o[e + 1] == '\n', "every line is complete"); o[e] = 0; char *p = o + i; i = e + 2; if (*p == '@') { while (*p && *p != ' ') p++; if (*p) p++; }
    const char *want = RUN == 1 ? w_fmt(":boss!boss@10.0.0.9 PRIVMSG bob :%d %s", next, txt(next % 6)) : w_fmt("%s P ADAAA :%d %s", yb, next, txt(next % 6));
    if (w_eq(p, want)) { next++; continue; } if (w_starts(p, RUN == 1 ? "PING :vp.test.net" : "AB G !")) { pings++; continue; } if (RUN == 2 && w_starts(p, "AB G :")) { pings++; continue; } vp_assert(0, "nothing but the queued messages, intact and in order, is written"); }
  vp_assert(next == sent, "every queued message is written exactly once"); if (ping) { vp_assert(pings == 1, "the priority message is written exactly once"); vp_reach("ping"); } else vp_assert(pings == 0, "no stray message");
}
