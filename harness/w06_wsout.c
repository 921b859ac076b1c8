/* @property W06
 * @quick time=200 RUN=1 label=handshake j=6
 * @quick time=300 RUN=2 NB=4 label=text j=8
 * @quick time=200 RUN=3 label=order j=6
 * @quick time=60 RUN=4 label=length j=2
 * @thorough time=200 RUN=1 label=handshake j=6
 * @thorough time=1500 RUN=2 NB=6 label=text j=8
 * @thorough time=200 RUN=3 label=order j=6
 * @thorough time=60 RUN=4 label=length j=2
 * @reach handshake:accepted handshake:refused handshake:waiting handshake:binary handshake:text handshake:key text:valid text:invalid text:binary order:pong order:partial length:long
 * @bounds handshake: every combination of six Upgrade, six Connection, five version, four key and six protocol header lines, two origins, listed or not, cut into two reads; text: NB (4, thorough 6) arbitrary bytes in a message to a text or binary client; order: a partly written message of any size, then a ping and a second message, before or after the rest can be written; length: messages of 120 to 130 and 505 to 512 bytes, ASCII or all invalid
 * @outside TLS, message tags on websocket connections
 */
#ifndef RUN
#define RUN 1
#endif
#if RUN == 1
const char *vp_features = "\"WEBSOCKET_ALLOWED_ORIGINS\" = \"https://a.test, https://b.test\";";
#endif
#ifndef NB
#define NB 4
#endif
#include "ws.inc"
static int nn; static unsigned char sb[3000];
/* reference: well-formed UTF-8 (Unicode table 3-7) kept, every other byte becomes U+FFFD */
static int wf(const unsigned char *p, int l) { unsigned c = p[0]; if (c < 0x80) return 1; int k = c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0; if (!k || l < k) return 0; unsigned v = k == 2 ? c & 31 : k == 3 ? c & 15 : c & 7; int ok = 1; for (int i = 1; i < k; i++) { ok &= (p[i] & 0xC0) == 0x80; v = v << 6 | (p[i] & 63); } if (!ok) return 0; if (k == 3 && (v < 0x800 || (v >= 0xD800 && v <= 0xDFFF))) return 0; if (k == 4 && (v < 0x10000 || v > 0x10FFFF)) return 0; return k; }
static int sanit(const unsigned char *p, int l, unsigned char *o) { int n = 0; for (int i = 0; i < l;) { int k = wf(p + i, l - i); if (k) while (k--) o[n++] = p[i++]; else { o[n++] = 0xEF; o[n++] = 0xBF; o[n++] = 0xBD; i++; vp_reach("invalid"); } } return n; }
static int same(int fd, int off, const unsigned char *w, int k) { if (w_outlen(fd) < (size_t)(off + k)) return 0; unsigned char *o = (unsigned char *)w_out(fd) + off; int s = 1; for (int i = 0; i < k; i++) s &= o[i] == w[i]; return s; }
void vp_scenario(void) {
#if RUN == 1
#else
  std_network(); int bin = RUN == 2 || RUN == 4 ? vp_pick("binary", 2) : 0; int ws = wsuser("wanda", "10.0.0.40", bin ? "Sec-WebSocket-Protocol: binary.ircv3.net\r\n" : ""); w_advance(20); w_clear_all(); unsigned char l[700], e[2000], f[2100]; int n = 0, m, k = 0;
#endif
#if RUN == 2
  unsigned char b[NB]; for (int i = 0; i < NB; i++) { b[i] = vp_byte("b"); vp_assume((b[i] != 0) & (b[i] != '\r') & (b[i] != '\n')); } bput(l, &n, "PRIVMSG wanda :x"); for (int i = 0; i < NB; i++) l[n++] = b[i]; bput(l, &n, "\r\n"); w_feed(boss, (char *)l, n); w_pump();
  n = 0; bput(l, &n, ":boss!boss@10.0.0.9 PRIVMSG wanda :x"); for (int i = 0; i < NB; i++) l[n++] = b[i]; m = bin ? (memcpy(e, l, n), n) : sanit(l, n, e); frame(f, &k, 1, bin ? 2 : 1, e, m, 0, 0);
  vp_assert(w_outlen(ws) == (size_t)k && same(ws, 0, f, k), "a message is one frame holding its bytes, in a text frame with what is not UTF-8 replaced"); vp_reach(bin ? "binary" : "valid");
#elif RUN == 3
  w_blocked[ws] = 1; w_send(boss, "PRIVMSG wanda :first message"); w_pump(); n = 0; bput(l, &n, ":boss!boss@10.0.0.9 PRIVMSG wanda :first message"); frame(f, &k, 1, 1, l, n, 0, 0); int a = k; int cut = vp_pick("cut", k + 2); w_blocked[ws] = 0; w_wlimit[ws] = cut; if (cut) w_writable(ws); if (cut) vp_reach("partial"); int room = vp_pick("room", 3); w_blocked[ws] = room == 0; w_wlimit[ws] = room == 1 ? 1 + vp_pick("some", 3) * 3 : 0;
  unsigned char pg[20]; int pn = 0, len = vp_pick("len", 2) * 4; frame(pg, &pn, 1, 9, "data", len, M0, 0); w_feed(ws, (char *)pg, pn); if (vp_pick("more", 2)) { w_send(boss, "PRIVMSG wanda :second"); n = 0; bput(l, &n, ":boss!boss@10.0.0.9 PRIVMSG wanda :second"); nn = 1; }
  w_blocked[ws] = 0; for (int i = 0; i < 3; i++) w_writable(ws); w_wlimit[ws] = 0; w_pump(); unsigned char q[300]; int qn; if (nn) frame(f, &k, 1, 1, l, n, 0, 0);
  unsigned char po[10]; pn = 0; frame(po, &pn, 1, 10, "data", len, 0, 0); int hit = 0; static const char *no[] = {"x"}; (void)no; int at[4], an = 0; at[an++] = 0; at[an++] = a; if (nn) at[an++] = k;
  for (int i = 0; i < an; i++) { qn = 0; memcpy(q, f, at[i]); qn = at[i]; memcpy(q + qn, po, pn); qn += pn; memcpy(q + qn, f + at[i], k - at[i]); qn += k - at[i]; if (w_outlen(ws) == (size_t)qn && same(ws, 0, q, qn)) hit = 1; }
  vp_reach("pong"); vp_assert(hit, "frames are written whole, one after the other: a ping's answer never goes into the middle of another frame and is not lost");
#elif RUN == 4
  int L = vp_pick("long", 2) ? 470 + vp_pick("add", 8) : 85 + vp_pick("add2", 14), inv = vp_pick("invalid", 2); bput(l, &n, "PRIVMSG wanda :"); for (int i = 0; i < L; i++) l[n++] = inv ? 0x90 : 'a'; bput(l, &n, "\r\n"); if (n > 512) return; w_feed(boss, (char *)l, n); w_pump(); n = 0; bput(l, &n, ":boss!boss@10.0.0.9 PRIVMSG wanda :"); for (int i = 0; i < L && n < 510; i++) l[n++] = inv ? 0x90 : 'a'; m = bin ? (memcpy(e, l, n), n) : sanit(l, n, e); frame(f, &k, 1, bin ? 2 : 1, e, m, 0, 0); vp_reach("long"); vp_assert(w_outlen(ws) == (size_t)k && same(ws, 0, f, k), "the frame's length is that of its payload");
#else
  static const char *up[] = {"Upgrade: websocket\r\n", "upgrade: WebSocket\r\n", "Upgrade: h2c, websocket\r\n", "", "Upgrade: h2c\r\n", "X-Upgrade: websocket\r\n"}, *co[] = {"Connection: Upgrade\r\n", "Connection: keep-alive, upgrade\r\n", "CONNECTION:upgrade\r\n", "", "Connection: close\r\n", "Proxy-Connection: Upgrade\r\n"}, *ve[] = {"Sec-WebSocket-Version: 13\r\n", "Sec-WebSocket-Version:13 \r\n", "", "Sec-WebSocket-Version: 8\r\n", "Sec-WebSocket-Version: 130\r\n"},
   *ke[] = {"Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n", "sec-websocket-key:x3JJHMbDL1EzLkh9GBhXDw== \r\n", "", "Sec-WebSocket-Key: \r\n"}, *pr[] = {"", "Sec-WebSocket-Protocol: text.ircv3.net\r\n", "Sec-WebSocket-Protocol: foo, binary.ircv3.net, text.ircv3.net\r\n", "Sec-WebSocket-Protocol: text.ircv3.net,binary.ircv3.net\r\n", "Sec-WebSocket-Protocol: chat\r\n", "Sec-WebSocket-Protocol: xtext.ircv3.net\r\n"}, *og[] = {"Origin: https://b.test\r\n", "Origin: https://c.test\r\n", "", "Origin: https://a.test.evil\r\n"}, *acc[] = {"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "HSmrc0sMlYUkAGmm5OPpG2HaGWk="};
  int u = vp_pick("upgrade", 6), c = vp_pick("connection", 6), v = vp_pick("version", 5), y = vp_pick("key", 4), p = vp_pick("protocol", 6), o = vp_pick("origin", 4); if ((u > 1) + (c > 1) + (v > 1) + (y > 1) + (p > 2) + (o > 0) > 2) return; char r[900]; int n = 0; bput((unsigned char *)r, &n, "GET /irc HTTP/1.1\r\nHost: h\r\n"); bput((unsigned char *)r, &n, up[u]); bput((unsigned char *)r, &n, ve[v]); bput((unsigned char *)r, &n, co[c]); bput((unsigned char *)r, &n, og[o]); bput((unsigned char *)r, &n, pr[p]); bput((unsigned char *)r, &n, ke[y]); bput((unsigned char *)r, &n, "\r\n");
  int ws = w_connect(8080, "10.0.0.40", 4000), cut = n - vp_pick("cut", 6); w_feed(ws, r, cut); w_pump(); if (cut < n) { vp_assert(!w_outlen(ws) && !w_closed(ws), "nothing is answered before the request is complete"); vp_reach("waiting"); w_feed(ws, r + cut, n - cut); w_pump(); }
  int ok = u < 3 && c < 3 && v < 3 && y < 2 && o == 0; char *t = w_out(ws); if (!ok) { vp_assert(w_closed(ws) && w_starts(t, "HTTP/1.1 400 "), "a request that is no proper websocket handshake is refused"); vp_reach("refused"); return; }
  vp_reach("accepted"); int sub = p == 1 || p == 3 ? 1 : p == 2 ? 2 : 0; vp_assert(!w_closed(ws), "a proper handshake is accepted"); vp_assert(w_eq(t, w_fmt("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n%s\r\n", acc[y], sub == 1 ? "Sec-WebSocket-Protocol: text.ircv3.net\r\n" : sub == 2 ? "Sec-WebSocket-Protocol: binary.ircv3.net\r\n" : "")), "with the accept key of its key and the first supported protocol it offers"); if (y == 1) vp_reach("key");
  w_clear(ws); wsay(ws, "NICK wanda"); wsay(ws, "USER wanda 0 0 :x"); t = w_out(ws); vp_assert(w_outlen(ws) > 2 && (unsigned char)t[0] == (sub == 2 ? 0x82 : 0x81), "messages come in frames of the kind agreed on"); vp_reach(sub == 2 ? "binary" : "text");
#endif
}
