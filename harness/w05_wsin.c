/* @property W05
 * @quick time=300 RUN=1 label=data j=8
 * @quick time=100 RUN=2 label=end j=4
 * @quick time=200 RUN=3 label=huge j=4
 * @quick time=100 RUN=4 label=length j=4
 * @thorough time=300 RUN=1 TWO label=data j=8
 * @thorough time=100 RUN=2 label=end j=4
 * @thorough time=200 RUN=3 label=huge j=4
 * @thorough time=100 RUN=4 label=length j=4
 * @reach data:ping data:pong data:frag data:cut end:unmasked end:close huge:long huge:vast length:ok length:toolong
 * @bounds data: a line with two arbitrary bytes in one frame or two fragments (any split, any mask of the first, three length forms, an interleaved ping, empty ping, pong or reserved control frame with arbitrary data and mask) and a second line, cut into two reads at any position (thorough: three) or arriving byte by byte; end: an unmasked frame of any first byte and length, or a close frame, before or after a complete line and between fragments; huge: frames of 8680 to 9280 bytes in up to three reads of several sizes, then a line, and 64-bit lengths from 9000 up with any upper half and thirteen lower halves; length: payloads of 0 to 1020 bytes around every limit in three length forms
 * @outside further input in the same read as the end of an overlong line (dropped with it), more than two fragments, TLS, throttled input
 */
#ifndef RUN
#define RUN 1
#endif
#if RUN == 3
const char *vp_classmax = "20000";
#endif
#include "ws.inc"
static unsigned char st[20000]; static int n; static char pong[300]; static int np;
static void deliver(int fd, int cut) { if (cut > n) { for (int i = 0; i < n; i++) w_feed(fd, (char *)st + i, 1); return; }
#ifdef TWO
  int c2 = cut < n ? vp_pick("cut2", 4) : 0; if (c2 && cut + c2 * 7 < n) { if (cut) w_feed(fd, (char *)st, cut); w_feed(fd, (char *)st + cut, c2 * 7); w_feed(fd, (char *)st + cut + c2 * 7, n - cut - c2 * 7); return; }
#endif
  if (cut) w_feed(fd, (char *)st, cut); if (cut < n) w_feed(fd, (char *)st + cut, n - cut); }
static void control(int which) { unsigned char d[3] = {0, 0, 0}, m[4]; if (!which) return; for (int i = 0; i < 3; i++) d[i] = vp_byte("d"); for (int i = 0; i < 4; i++) m[i] = vp_byte("m"); int op = which == 1 || which == 2 ? 9 : which == 3 ? 10 : 11, l = which == 2 ? 0 : 3; frame(st, &n, 1, op, d, l, m, 0); if (op == 9) { pong[np++] = 0x8a; pong[np++] = l; for (int i = 0; i < l; i++) pong[np++] = d[i]; vp_reach("ping"); } else vp_reach("pong"); }
static int outis(int fd, const char *w, int k) { if (w_outlen(fd) != (size_t)k) return 0; char *o = w_out(fd); int same = 1; for (int i = 0; i < k; i++) same &= o[i] == w[i]; return same; }
void vp_scenario(void) {
  std_network(); int ws = wsuser("wanda", "10.0.0.40", ""); w_advance(20); w_clear_all(); unsigned char p[9500]; int l = 0; char want[700]; int k = 0;
#if RUN == 1
  unsigned char m[4]; bput(p, &l, "PRIVMSG bob :a"); int at = l; p[l++] = vp_byte("x"); p[l++] = vp_byte("y"); vp_assume((p[at] > ' ') & (p[at + 1] > ' ')); for (int i = 0; i < 4; i++) m[i] = vp_byte("k");
  int f1 = vp_pick("frag", l + 1), c = vp_pick("control", 5); int two = f1 < l; if (two) { vp_reach("frag"); frame(st, &n, 0, 1 + vp_pick("bin", 2), p, f1, m, 0); control(c); frame(st, &n, 1, 0, p + f1, l - f1, M0, vp_pick("form", 3)); } else { control(c); frame(st, &n, 1, 1, p, l, m, 0); }
  frame(st, &n, 1, 2, "PRIVMSG bob :z", 14, M0, 0); int cut = vp_pick("cut", n + 2); vp_reach("cut"); deliver(ws, cut); w_pump();
  bput((unsigned char *)want, &k, ":wanda!wanda@10.0.0.40 PRIVMSG bob :a"); want[k++] = p[at]; want[k++] = p[at + 1]; bput((unsigned char *)want, &k, "\r\n:wanda!wanda@10.0.0.40 PRIVMSG bob :z\r\n");
  vp_assert(outis(bob, want, k), "the lines executed are the unmasked payloads of the data frames, however they are fragmented and arrive");
  vp_assert(outis(ws, pong, np), "a ping is answered with a pong of the same data, and nothing else is sent");
#elif RUN == 2
  int how = vp_pick("how", 2), where = vp_pick("where", 3); if (where == 1) frame(st, &n, 1, 1, "PRIVMSG bob :a", 14, M0, 0); if (where == 2) frame(st, &n, 0, 1, "PRIVMSG bob :a", 14, M0, 0); int e0 = n;
  if (how == 0) { st[n++] = vp_byte("first"); st[n] = vp_byte("len"); vp_assume(st[n] < 128); n++; } else frame(st, &n, 1, 8, "\3\350bye", vp_pick("empty", 2) ? 5 : 0, M0, 0);
  (void)e0; frame(st, &n, 1, 0, "PRIVMSG bob :c", 14, M0, 0); frame(st, &n, 1, 1, "PRIVMSG bob :b", 14, M0, 0); int cut = vp_pick("cut", n + 2); deliver(ws, cut); w_pump();
  vp_assert(w_closed(ws) && !FindUser("wanda"), "an unmasked frame or a close frame ends the connection"); 
  vp_assert(w_count(bob, "PRIVMSG") == (where == 1 && w_count(bob, "PRIVMSG bob :a") == 1), "no line of a frame at or after it is executed");
  if (how == 0) vp_reach("unmasked"); else { char *o = w_out(ws); int ok = w_outlen(ws) >= 4 && (unsigned char)o[0] == 0x88 && o[1] == 2 && o[2] == 3 && (unsigned char)o[3] == 0xe8; vp_assert(ok, "a close frame is answered with a close frame first"); vp_reach("close"); }
#elif RUN == 3
  int huge = vp_pick("vast", 2); 
  if (!huge) { int L = 8680 + vp_pick("len", 14) * 46; bput(p, &l, "PRIVMSG bob :a"); while (l < L) p[l++] = 'c'; frame(st, &n, 1, 1, p, l, M0, vp_pick("form", 2) + 1); frame(st, &n, 1, 1, "PRIVMSG bob :z", 14, M0, 0); static const int cs[] = {1, 5, 14, 4000, 8190, 8703, 8717, 8718}; int a = cs[vp_pick("a", 8)], n0 = n - 20, b = vp_pick("b", 3); b = b == 0 ? 1 : b == 1 ? 500 : n0 - a; if (a >= n0) return; if (a + b > n0) b = n0 - a; w_feed(ws, (char *)st, a); w_feed(ws, (char *)st + a, b); if (a + b < n0) w_feed(ws, (char *)st + a + b, n0 - a - b); w_pump(); w_feed(ws, (char *)st + n0, 20); w_pump(); vp_reach("long");
    vp_assert(!w_closed(ws), "the connection stays"); vp_assert(w_count(bob, "PRIVMSG") == 1 && w_count(bob, "PRIVMSG bob :z") == 1, "of an oversized frame nothing becomes a line of its own; the next frame is read as it was sent"); return; }
  st[n++] = 0x82; st[n++] = 0xff; static const unsigned lo[] = {0, 1, 14, 30, 0x2328, 0x10000, 0x7fffff00, 0x7ffffff0, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffe, 0xffffffff}; unsigned L = lo[vp_pick("low", 13)]; int hi = 0; for (int i = 0; i < 4; i++) { unsigned char c = st[n++] = vp_byte("len"); hi |= c; } vp_assume((hi != 0) | (L >= 9000)); st[n++] = L >> 24; st[n++] = L >> 16; st[n++] = L >> 8; st[n++] = L; for (int i = 0; i < 4; i++) st[n++] = 0; while (l < 30) p[l++] = (unsigned char)99; if (L < 31) l = L; while (l < 8600) frame(p, &l, 1, 1, "PRIVMSG bob :w", 14, M0, 0); while (l < 8703) p[l++] = 'c'; memcpy(st + n, p, l); n += l; w_feed(ws, (char *)st, 14); w_feed(ws, (char *)st + 14, 4000); w_feed(ws, (char *)st + 4014, n - 4014); w_pump();
  n = 0; frame(st, &n, 1, 1, "PRIVMSG bob :y", 14, M0, 0); frame(st, &n, 1, 1, "PRIVMSG bob :z", 14, M0, 0); w_feed(ws, (char *)st, n); w_pump(); vp_reach("vast"); vp_assert(w_count(bob, "PRIVMSG") == 0, "the payload of a frame is never taken for frames of its own");
#else
  static const int bs[] = {14, 30, 124, 252, 508, 1004}; int b = vp_pick("base", 6), L = bs[b] + vp_pick("add", 8); if (vp_pick("zero", 2)) { if (b) return; L = vp_pick("small", 2); } bput(p, &l, "PRIVMSG bob :a"); while (l < L) p[l++] = 'c'; l = L; frame(st, &n, 1, 1, p, l, M0, vp_pick("form", 3)); frame(st, &n, 1, 1, "PRIVMSG bob :z", 14, M0, 0); deliver(ws, vp_pick("cut", 20)); w_pump();
  vp_assert(!w_closed(ws), "the connection stays"); int ok = L >= 14 && L <= 510; vp_assert(w_count(bob, "PRIVMSG") == 1 + ok && w_count(bob, "PRIVMSG bob :z") == 1, "each frame is one line, whatever its length"); if (ok) { bput((unsigned char *)want, &k, ":wanda!wanda@10.0.0.40 "); for (int i = 0; i < L && k < 510; i++) want[k++] = p[i]; want[k] = 0; w_lines(bob); vp_assert(w_eq(w_line(bob, 0), want), "with the bytes sent"); vp_reach("ok"); } else if (L > 510) { vp_reach("toolong"); }
#endif
}
