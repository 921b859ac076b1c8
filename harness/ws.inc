/* websocket helpers: a client on the websocket port, frames of its own making, and an independent reader of the server's frames */
const char *vp_clients = "Client { class = \"Local\"; ip = \"*\"; maxlinks = 50; };\nPort { port = 8080; websocket = yes; };\nPort { port = 8081; websocket = yes; cloudflare = yes; };\n";
#include "chan.inc"
#define HEAD "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
#define KEY "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"
static void bput(unsigned char *b, int *n, const char *s) { while (*s) b[(*n)++] = *s++; }
/* append a frame: op, fin, payload, mask (0: unmasked), form of the length 0 shortest 1: 16 bit 2: 64 bit */
static void frame(unsigned char *b, int *n, int fin, int op, const void *p, int l, const unsigned char *mask, int form) { const unsigned char *q = p; if (form < 1 && l > 125) form = 1; if (form < 2 && l > 65535) form = 2;
  b[(*n)++] = (fin ? 0x80 : 0) | op; b[(*n)++] = (mask ? 0x80 : 0) | (form == 0 ? l : form == 1 ? 126 : 127); if (form == 2) for (int i = 7; i >= 4; i--) b[(*n)++] = 0; if (form == 2) { b[(*n)++] = l >> 24; b[(*n)++] = l >> 16; } if (form) { b[(*n)++] = l >> 8; b[(*n)++] = l; }
  if (mask) for (int i = 0; i < 4; i++) b[(*n)++] = mask[i]; for (int i = 0; i < l; i++) b[(*n)++] = mask ? q[i] ^ mask[i & 3] : q[i]; }
static const unsigned char M0[4] = {0x11, 0x92, 0xa3, 0x04};
static void wsay(int fd, const char *s) { unsigned char *b = malloc(strlen(s) + 20); int n = 0; frame(b, &n, 1, 1, s, strlen(s), M0, 0); w_feed(fd, (char *)b, n); w_pump(); }
static int wsopen(const char *ip, const char *proto) { int fd = w_connect(8080, ip, 40000); w_send(fd, w_fmt(HEAD KEY "%s", proto)); w_pump(); vp_assert(w_starts(w_out(fd), "HTTP/1.1 101"), "harness: websocket accepted"); w_clear(fd); return fd; }
static int wsuser(const char *nick, const char *ip, const char *proto) { int fd = wsopen(ip, proto); wsay(fd, w_fmt("NICK %s", nick)); wsay(fd, w_fmt("USER %s 0 0 :real name", nick)); w_pump(); char *o = w_out(fd); int l = w_outlen(fd); for (int i = 0; i + 6 < l; i++) if (w_starts(o + i, "PING :")) { char c[32]; int k = 0; for (i += 6; i < l && o[i] >= '0' && o[i] <= '9'; i++) c[k++] = o[i]; c[k] = 0; wsay(fd, w_fmt("PONG :%s", c)); break; }
  w_pump(); struct Client *c = w_client(fd); vp_assert(c && IsUser(c), "harness: websocket user"); w_clear(fd); return fd; }
