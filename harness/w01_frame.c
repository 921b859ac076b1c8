/* @property W01
 * @quick time=200 RUN=1 label=client j=4
 * @quick time=200 RUN=2 label=server j=2
 * @quick time=100 RUN=3 label=length j=2
 * @thorough time=900 RUN=1 TWO label=client j=6
 * @thorough time=200 RUN=2 TWO label=server j=2
 * @thorough time=100 RUN=3 label=length j=2
 * @reach client:split client:unknown client:empty client:nul server:relayed length:ok length:toolong
 * @bounds three client lines with four arbitrary bytes at line ends, between command and parameter and inside parameters, cut into reads at any position (or byte by byte); two peer lines with three arbitrary bytes likewise; client lines of 505 to 515 and 990 to 1006 bytes
 * @outside lines beyond the flood limit, more than one cut at a time, websocket and TLS transport
 */
#include "chan.inc"
static char st[8000], ex[4000]; static int n, m;
static void puts_(const char *s) { while (*s) st[n++] = *s++; }
static void exs(const char *s) { while (*s) ex[m++] = *s++; }
static int eol(unsigned char c) { return (c == '\r') | (c == '\n'); }
static void deliver(int fd) {
#ifdef TWO
  int c = vp_pick("cut", n + 1), d = vp_pick("cut2", n + 2 - c); if (d == n + 1 - c) { for (int i = 0; i < n; i++) w_feed(fd, st + i, 1); return; } if (c) w_feed(fd, st, c); if (d) w_feed(fd, st + c, d); if (c + d < n) w_feed(fd, st + c + d, n - c - d);
#else
  int c = vp_pick("cut", n + 2); if (c == n + 1) { for (int i = 0; i < n; i++) w_feed(fd, st + i, 1); return; } if (c) w_feed(fd, st, c); if (c < n) w_feed(fd, st + c, n - c);
#endif
  w_pump(); }
static void check(int fd) { w_pump(); char *o = w_out(fd); int l = strlen(o); int same = l == m; for (int i = 0; i < m && i < l; i++) same &= o[i] == ex[i]; if (!same && !vp_is_symbolic(same)) { vp_prints("got", o); ex[m] = 0; vp_prints("want", ex); } vp_assert(same, "exactly the complete lines received are executed, in order, however the bytes arrive"); }
void vp_scenario(void) {
#if RUN == 1
  int fd = w_user("boss", "10.0.0.9"); unsigned char x = vp_byte("x"), y = vp_byte("y"), z = vp_byte("z"), w = vp_byte("w"); w_clear_all();
  puts_("PING :a"); st[n++] = x; puts_("\rPING"); st[n++] = y; puts_(":b"); st[n++] = z; puts_("\nPING "); st[n++] = w; puts_("\r\n");
  vp_assume(w != '@'); deliver(fd);
  for (int i = 0; i < n;) { int e = i; while (!eol(st[e])) e++; int len = 0; while (i + len < e && st[i + len]) len++; if (i + len < e) vp_reach("nul"); char *l = st + i; i = e + 1; int p = 0; while (p < len && l[p] == ' ') p++; if (p < len && l[p] == ':') { vp_reach("split"); while (p < len && l[p] != ' ') p++; while (p < len && l[p] == ' ') p++; } if (p >= len) { vp_reach("empty"); continue; }
    int c0 = p; while (p < len && l[p] != ' ') p++; int cl = p - c0; int is = cl == 4 && l[c0] == 'P' && l[c0 + 1] == 'I' && l[c0 + 2] == 'N' && l[c0 + 3] == 'G';
    if (!is) { vp_reach("unknown"); exs(":vp.test.net 421 boss "); for (int k = 0; k < cl; k++) ex[m++] = l[c0 + k]; exs(" :Unknown command\r\n"); continue; }
    while (p < len && l[p] == ' ') p++; int a = p, al; if (p < len && l[p] == ':') { a = p + 1; al = len - a; } else { while (p < len && l[p] != ' ') p++; al = p - a; }
    if (al == 0) exs(":vp.test.net 409 boss :No origin specified\r\n"); else { exs(":vp.test.net PONG vp.test.net :"); for (int k = 0; k < al; k++) ex[m++] = l[a + k]; exs("\r\n"); } }
  check(fd);
#elif RUN == 2
  std_network(); unsigned char x = vp_byte("x"), y = vp_byte("y"), z = vp_byte("z"); const char *yb = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(bob))); w_clear_all();
  puts_("ACAAA P "); puts_(yb); puts_(" :a"); st[n++] = x; puts_("c\n"); st[n++] = y; puts_("ACAAA O "); puts_(yb); puts_(" :d"); st[n++] = z; puts_("\r\n"); vp_assume(eol(y) || y == ' '); deliver(L1);
  for (int k = 0; k < 2; k++) { exs(":carol!carol@host.carol "); exs(k ? "NOTICE" : "PRIVMSG"); exs(" bob :"); ex[m++] = k ? 'd' : 'a'; unsigned char v = k ? z : x; if (v && !eol(v)) { ex[m++] = v; if (!k) ex[m++] = 'c'; } exs("\r\n"); }
  vp_reach("relayed"); check(bob); vp_assert(!w_closed(L1), "the link stays up");
#else
  int fd = w_user("boss", "10.0.0.9"); static const int base[] = {505, 990}; int k = vp_pick("base", 2), L = base[k] + vp_pick("length", k ? 17 : 11); unsigned char x = vp_byte("x"); vp_assume(x && !eol(x)); w_clear_all();
  puts_("PING :"); while (n < L - 1) st[n++] = 'a'; st[n++] = x; puts_("\r\nPING :z\r\n"); int c = vp_pick("cut", 6); int cut = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? L - 1 : c == 3 ? L : c == 4 ? L + 1 : L + 2; if (cut) w_feed(fd, st, cut); w_feed(fd, st + cut, n - cut); w_pump();
  if (L <= 510) { vp_reach("ok"); exs(":vp.test.net PONG vp.test.net :"); int h = m; for (int i = 0; i < L - 6 && m < 510; i++) ex[m++] = st[6 + i]; (void)h; exs("\r\n"); } else { vp_reach("toolong"); exs(":vp.test.net 417 boss :Input line was too long\r\n"); }
  exs(":vp.test.net PONG vp.test.net :z\r\n"); check(fd);
#endif
}
