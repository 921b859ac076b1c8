#include "config.h"
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "ircd_events.h"
#include "ircd_tls.h"
#include "ircd_sha1.h"
#include "world.h"
#include "listener.h"

long w_now = 1700000000;
enum { K_FREE, K_FILE, K_LISTEN, K_CONN, K_DGRAM, K_PIPE };
#define NFD 64
struct wfd { int kind, port, eof, closed, rport; const char *fdata; size_t fpos, flen; char *in; size_t inpos, inlen; char *out; size_t outlen, outcap; unsigned char ip[16]; char **lines; int nlines; };
static struct wfd F[NFD]; static struct Socket *sk[NFD]; int w_blocked[NFD], w_wlimit[NFD]; const char *w_tls_fp[NFD];
int w_rawtags; static int pend_port = -1, pend_rport; static unsigned char pend_ip[16]; static int last_acc = -1;
static int newfd(int kind) { for (int i = 5; i < NFD; i++) if (F[i].kind == K_FREE && !F[i].closed) { memset(&F[i], 0, sizeof F[i]); F[i].kind = kind; return i; } errno = EMFILE; return -1; }

__attribute__((weak)) const char *vp_conf_extra = "";
__attribute__((weak)) const char *vp_features = "";
__attribute__((weak)) const char *vp_classmax = "4096";
__attribute__((weak)) const char *vp_clients = "Client { class = \"Local\"; ip = \"*\"; maxlinks = 50; };\n"; /* the Client block for everyone */
static const char conf_a[] =
 "General { name = \"" HUB "\"; description = \"VP hub\"; numeric = 1; };\n"
 "Admin { Location = \"L1\"; Location = \"L2\"; Contact = \"C\"; };\n"
 "Class { name = \"Server\"; pingfreq = 1 minutes 30 seconds; connectfreq = 5 minutes; maxlinks = 9; sendq = 9000000; };\n"
 "Class { name = \"Local\"; pingfreq = 1 minutes 30 seconds; sendq = 160000; maxlinks = 100; maxflood = ";
static const char conf_b[] = "; usermode = \"\"; };\n"
 "Class { name = \"Opers\"; pingfreq = 1 minutes 30 seconds; sendq = 160000; maxlinks = 10; local = no; };\n"
 "Operator { local = no; class = \"Opers\"; host = \"*@*\"; password = \"$PLAIN$secret\"; name = \"god\"; };\n"
 "Operator { local = yes; class = \"Opers\"; host = \"*@*\"; password = \"$PLAIN$secret\"; name = \"loc\"; };\n"
 "Port { server = yes; port = 4400; };\nPort { port = 6667; };\n"
 "Connect { name = \"leaf1.test.net\"; host = \"10.0.0.101\"; password = \"lpass\"; port = 4400; class = \"Server\"; hub; autoconnect = no; };\n"
 "Connect { name = \"leaf2.test.net\"; host = \"10.0.0.102\"; password = \"lpass\"; port = 4400; class = \"Server\"; hub; autoconnect = no; };\n"
 "Connect { name = \"leaf3.test.net\"; host = \"10.0.0.103\"; password = \"lpass\"; port = 4400; class = \"Server\"; autoconnect = no; };\n";
static const char conf_c[] = "Features { \"HUB\" = \"TRUE\"; \"NODNS\" = \"TRUE\"; \"LOG\" = \"SYSTEM\" \"FILE\" \"\"; \"IPCHECK_CLONE_LIMIT\" = \"200\"; ";
static char *conftext;
static void app(char **p, const char *s) { while (*s) *(*p)++ = *s++; }

/* ---- system calls */
time_t w_time(time_t *t) { if (t) *t = w_now; return w_now; }
int w_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = w_now; t->tv_usec = 0; return 0; }
int w_open(const char *p, int fl, ...) { (void)fl; if (strcmp(p, "ircd.conf")) { if (fl & 0100) return newfd(K_FILE); errno = ENOENT; return -1; } int fd = newfd(K_FILE); F[fd].fdata = conftext; F[fd].flen = strlen(conftext); return fd; }
ssize_t w_recv(int fd, void *b, size_t n, int fl) { (void)fl; struct wfd *f = &F[fd]; size_t a = f->inlen - f->inpos; if (!a) { if (f->eof) return 0; errno = EAGAIN; return -1; } if (a > n) a = n; memcpy(b, f->in + f->inpos, a); f->inpos += a; return a; }
ssize_t w_read(int fd, void *b, size_t n) { struct wfd *f = &F[fd]; if (f->kind == K_FILE) { size_t a = f->flen - f->fpos; if (a > n) a = n; memcpy(b, f->fdata + f->fpos, a); f->fpos += a; return a; } return w_recv(fd, b, n, 0); }
static void outbytes(struct wfd *f, const void *b, size_t n) { if (f->outlen + n + 1 > f->outcap) { f->outcap = (f->outlen + n + 1 + 2047) / 2048 * 2048; f->out = realloc(f->out, f->outcap); } memcpy(f->out + f->outlen, b, n); f->outlen += n; f->out[f->outlen] = 0; }
static long room(int fd, size_t n) { if (w_blocked[fd]) { errno = EAGAIN; return -1; } if (w_wlimit[fd] && n > (size_t)w_wlimit[fd]) return w_wlimit[fd]; return n; }
ssize_t w_write(int fd, const void *b, size_t n) { if (fd < 5 || fd >= NFD) return n; long r = room(fd, n); if (r < 0) return -1; outbytes(&F[fd], b, r); return r; }
ssize_t ws_send(int fd, const void *b, size_t n, int fl) { (void)fl; return w_write(fd, b, n); }
ssize_t w_writev(int fd, const struct iovec *v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; long r = room(fd, t), left; if (r < 0) return -1; left = r; for (int i = 0; i < n && left; i++) { size_t k = v[i].iov_len; if ((long)k > left) k = left; outbytes(&F[fd], v[i].iov_base, k); left -= k; } return r; }
ssize_t w_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) { (void)fd; (void)b; (void)n; (void)fl; (void)a; (void)al; errno = EAGAIN; return -1; }
ssize_t w_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) { (void)fd; (void)b; (void)fl; (void)a; (void)al; return n; }
int w_close(int fd) { if (fd >= 5 && fd < NFD) { F[fd].closed = F[fd].kind == K_CONN; F[fd].kind = K_FREE; sk[fd] = 0; } return 0; }
int w_socket(int a, int b, int c) { (void)a; (void)c; return newfd((b & 15) == SOCK_DGRAM ? K_DGRAM : K_CONN); }
int w_bind(int fd, const struct sockaddr *a, socklen_t l) { (void)l; F[fd].port = ntohs(((struct sockaddr_in *)a)->sin_port); return 0; }
int w_listen(int fd, int n) { (void)n; F[fd].kind = K_LISTEN; return 0; }
static void setaddr(struct sockaddr *a, socklen_t *l, const unsigned char *ip, int port) {
  static const unsigned char v4[12] = {0,0,0,0,0,0,0,0,0,0,255,255};
  if (!memcmp(ip, v4, 12)) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); memcpy(&s.sin_addr, ip + 12, 4); memcpy(a, &s, sizeof s); *l = sizeof s; }
  else { struct sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(port); memcpy(&s.sin6_addr, ip, 16); memcpy(a, &s, sizeof s); *l = sizeof s; } }
int w_accept(int fd, struct sockaddr *a, socklen_t *l) { if (pend_port < 0 || F[fd].port != pend_port) { errno = EAGAIN; return -1; } int n = newfd(K_CONN); F[n].port = pend_port; F[n].rport = pend_rport; memcpy(F[n].ip, pend_ip, 16); pend_port = -1; last_acc = n; setaddr(a, l, F[n].ip, F[n].rport); return n; }
int w_outgoing, w_outfd = -1, w_sockerr[NFD];
int ws_connect(int fd, const struct sockaddr *a, socklen_t l) { if (F[fd].kind == K_CONN) { w_outgoing++; w_outfd = fd; w_sockerr[fd] = 0; memset(F[fd].ip, 0, 16); if (a->sa_family == AF_INET) { F[fd].ip[10] = F[fd].ip[11] = 255; memcpy(F[fd].ip + 12, &((struct sockaddr_in *)a)->sin_addr, 4); } else memcpy(F[fd].ip, &((struct sockaddr_in6 *)a)->sin6_addr, 16); F[fd].rport = ntohs(((struct sockaddr_in *)a)->sin_port); } (void)l; errno = EINPROGRESS; return -1; }
int w_getpeername(int fd, struct sockaddr *a, socklen_t *l) { setaddr(a, l, F[fd].ip, F[fd].rport); return 0; }
int w_getsockname(int fd, struct sockaddr *a, socklen_t *l) { static const unsigned char me_ip[16] = {0,0,0,0,0,0,0,0,0,0,255,255,10,0,0,1}; setaddr(a, l, me_ip, F[fd].port); return 0; }
int w_getsockopt(int fd, int a, int b, void *v, socklen_t *l) { memset(v, 0, *l); if (a == SOL_SOCKET && b == SO_ERROR && fd >= 0 && fd < NFD) *(int *)v = w_sockerr[fd]; return 0; }
int w_setsockopt(int fd, int a, int b, const void *v, socklen_t l) { (void)fd; (void)a; (void)b; (void)v; (void)l; return 0; }
int w_fstat(int fd, struct stat *st) { (void)fd; memset(st, 0, sizeof *st); errno = ENOENT; return -1; }
int w_dup2(int a, int b) { (void)a; return b; }
int w_pipe(int *p) { p[0] = newfd(K_PIPE); p[1] = newfd(K_PIPE); return 0; }
char *w_crypt(const char *k, const char *s) { static char b[160]; size_t i = 0; for (; i < 2 && s[i]; i++) b[i] = s[i]; b[i++] = '!'; for (size_t j = 0; k[j] && i < 158; j++) b[i++] = k[j]; b[i] = 0; return b; }
int w_any_sys(void) { return 0; }

/* ---- TLS: a session is a transparent pipe whose peer presents w_tls_fp[fd] */
const char *ircd_tls_version = "model";
int ircd_tls_init(void) { return 0; }
static int tlstok;
void *ircd_tls_accept(struct Listener *l, int fd) { (void)l; (void)fd; return &tlstok; }
void *ircd_tls_connect(struct ConfItem *a, int fd) { (void)a; (void)fd; return &tlstok; }
void ircd_tls_close(void *c, const char *m) { (void)c; (void)m; }
void ircd_tls_conf_free(struct ConfItem *a) { (void)a; }
int ircd_tls_conf_reload(struct ConfItem *a) { (void)a; return 0; }
int ircd_tls_check_peer_hostname(struct Client *c, const char *n) { (void)c; (void)n; return 1; }
int ircd_tls_listen(struct Listener *l) { (void)l; return 0; }
int ircd_tls_listener_ready(const struct Listener *l) { (void)l; return 1; }
void ircd_tls_listen_free(struct Listener *l) { (void)l; }
int ircd_tls_negotiate(struct Client *c) { int fd = cli_fd(c); ClearNegotiatingTLS(c); if (w_tls_fp[fd]) ircd_strncpy(cli_tls_fingerprint(c), w_tls_fp[fd], 64); return 1; }
IOResult ircd_tls_recv(struct Client *c, char *b, unsigned int n, unsigned int *o) { return os_recv_nonb(cli_fd(c), b, n, o); }
IOResult ircd_tls_sendv(struct Client *c, struct MsgQ *b, unsigned int *i, unsigned int *o) { return os_sendv_nonb(cli_fd(c), b, i, o); }
int ircd_tls_sha1_base64(const void *d, size_t n, char *o, size_t ol) { return ircd_sha1_base64(d, n, o, ol); }

/* ---- event engine: events are generated by the harness */
static int e_init(int n) { (void)n; return 1; }
static void e_signal(struct Signal *s) { (void)s; }
static int e_add(struct Socket *s) { sk[s_fd(s)] = s; return 1; }
static void e_state(struct Socket *s, enum SocketState n) { (void)s; (void)n; }
static void e_events(struct Socket *s, unsigned n) { (void)s; (void)n; }
static void e_del(struct Socket *s) { if (s_fd(s) >= 0 && sk[s_fd(s)] == s) sk[s_fd(s)] = 0; }
__attribute__((weak)) void vp_scenario(void) { }
static void e_loop(struct Generators *g) { (void)g; vp_scenario(); }
struct Engine engine_epoll = {"model", e_init, e_signal, e_add, e_state, e_events, e_del, e_loop};
struct Engine engine_poll = {"model", e_init, e_signal, e_add, e_state, e_events, e_del, e_loop};

int ircd_main(int, char **);
/* (re)write the configuration file, with other extra blocks */
void w_setconf(const char *extra) { char *p = conftext = malloc(8192 + strlen(vp_clients) + strlen(extra) + strlen(vp_features));
  app(&p, conf_a); app(&p, vp_classmax); app(&p, conf_b); app(&p, vp_clients); app(&p, extra); app(&p, conf_c); app(&p, vp_features); app(&p, " };\n"); *p = 0; }
void vp_main(void) {
  static char *av[] = {"ircd", "-n", "-f", "ircd.conf", 0}; w_setconf(vp_conf_extra);
  int r = ircd_main(4, av); vp_assert(r == 0, "server start-up failed");
}

/* ---- harness services */
static void ev(int fd, enum EventType t) { if (sk[fd]) event_generate(t, sk[fd], 0); }
void w_established(int fd, int err) { w_sockerr[fd] = err; if (sk[fd] && s_state(sk[fd]) == SS_CONNECTING) ev(fd, ET_CONNECT); w_pump(); }
int w_rport(int fd) { return F[fd].rport; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static void parseip(const char *s, unsigned char *o) {
  memset(o, 0, 16); if (!strchr(s, ':')) { o[10] = o[11] = 255; int k = 12, v = 0; for (; k < 16; s++) { if (*s >= '0' && *s <= '9') v = v * 10 + *s - '0'; else { o[k++] = v; v = 0; if (!*s) break; } } return; }
  int g[8], n = 0, dbl = -1; memset(g, 0, sizeof g); while (*s) { if (s[0] == ':' && s[1] == ':') { dbl = n; s += 2; continue; } if (*s == ':') { s++; continue; } int v = 0; while (hexv(*s) >= 0) v = v * 16 + hexv(*s++); g[n++] = v; if (n == 8) break; }
  if (dbl >= 0) { int tail = n - dbl; for (int i = 0; i < tail; i++) { int v = g[n - 1 - i]; g[n - 1 - i] = 0; g[7 - i] = v; } } for (int i = 0; i < 8; i++) o[2 * i] = g[i] >> 8, o[2 * i + 1] = g[i]; }
int w_connect_raw(int port, const unsigned char *ip, int rport) { memcpy(pend_ip, ip, 16); pend_port = port; pend_rport = rport; last_acc = -1; for (int i = 5; i < NFD; i++) if (F[i].kind == K_LISTEN && F[i].port == port && sk[i]) { ev(i, ET_ACCEPT); if (pend_port < 0) break; } pend_port = -1; if (last_acc >= 0 && sk[last_acc] && (s_events(sk[last_acc]) & SOCK_EVENT_WRITABLE)) ev(last_acc, ET_WRITE); return last_acc; }
int w_connect(int port, const char *ip, int rport) { unsigned char b[16]; parseip(ip, b); return w_connect_raw(port, b, rport); }
void w_feed(int fd, const char *p, size_t n) { struct wfd *f = &F[fd]; if (f->kind != K_CONN) return; size_t keep = f->inlen - f->inpos; char *nb = malloc(keep + n + 1); if (keep) memcpy(nb, f->in + f->inpos, keep); memcpy(nb + keep, p, n); if (f->in) free(f->in); f->in = nb; f->inpos = 0; f->inlen = keep + n; while (f->kind == K_CONN && f->inpos < f->inlen) { size_t b4 = f->inpos; ev(fd, ET_READ); if (f->inpos == b4) break; } }
void w_send(int fd, const char *line) { size_t n = strlen(line); char *b = malloc(n + 3); memcpy(b, line, n); b[n] = '\r'; b[n + 1] = '\n'; b[n + 2] = 0; w_feed(fd, b, n + 2); free(b); }
void w_pump(void) { for (int k = 0; k < 4; k++) { int any = 0; for (int i = 5; i < NFD; i++) if (F[i].kind == K_CONN && sk[i] && !w_blocked[i] && (s_events(sk[i]) & SOCK_EVENT_WRITABLE)) { any = 1; ev(i, ET_WRITE); } if (!any) break; } }
void w_writable(int fd) { if (F[fd].kind == K_CONN && sk[fd] && (s_events(sk[fd]) & SOCK_EVENT_WRITABLE)) ev(fd, ET_WRITE); }
void w_advance(int s) { w_now += s; CurrentTime = w_now; timer_run(); }
void w_eof(int fd) { F[fd].eof = 1; ev(fd, ET_READ); if (F[fd].kind == K_CONN) ev(fd, ET_EOF); }
int w_closed(int fd) { return F[fd].kind != K_CONN; }
size_t w_outlen(int fd) { return F[fd].outlen; }
char *w_out(int fd) { return F[fd].out ? F[fd].out : ""; }
void w_clear(int fd) { w_pump(); F[fd].outlen = 0; if (F[fd].out) F[fd].out[0] = 0; F[fd].nlines = 0; }
void w_clear_all(void) { for (int i = 5; i < NFD; i++) if (F[i].out) w_clear(i); }
int w_lines(int fd) { w_pump(); struct wfd *f = &F[fd]; f->nlines = 0; if (!f->lines) f->lines = malloc(400 * sizeof(char *)); size_t s = 0; for (size_t i = 0; i < f->outlen; i++) if (f->out[i] == '\n') { size_t e = i; if (e > s && f->out[e - 1] == '\r') e--; if (!w_rawtags && e > s && f->out[s] == '@') { while (s < e && f->out[s] != ' ') s++; if (s < e) s++; } char *l = malloc(e - s + 1); memcpy(l, f->out + s, e - s); l[e - s] = 0; if (f->nlines < 400) f->lines[f->nlines++] = l; s = i + 1; } return f->nlines; }
char *w_line(int fd, int i) { return i < F[fd].nlines ? F[fd].lines[i] : 0; }
int w_count(int fd, const char *sub) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (strstr(F[fd].lines[i], sub)) c++; return c; }
char *w_find(int fd, const char *sub) { int n = w_lines(fd); for (int i = 0; i < n; i++) if (strstr(F[fd].lines[i], sub)) return F[fd].lines[i]; return 0; }
int w_starts(const char *s, const char *pre) { for (; *pre; s++, pre++) if (*s != *pre) return 0; return 1; }
int w_eq(const char *s, const char *t) { size_t a = strlen(s), b = strlen(t); if (a != b) return 0; int r = 1; for (size_t i = 0; i < a; i++) r &= s[i] == t[i]; return r; }
char *w_fmt(const char *f, ...) { va_list ap; va_start(ap, f); char *b = malloc(600), *p = b; for (; *f; f++) { if (*f != '%') { *p++ = *f; continue; } f++; if (*f == 's') { const char *s = va_arg(ap, char *); size_t n = strlen(s); memcpy(p, s, n); p += n; } else if (*f == 'c') *p++ = va_arg(ap, int); else if (*f == 'd') { long v = va_arg(ap, int); char t[24]; int n = 0; if (v < 0) { *p++ = '-'; v = -v; } do t[n++] = '0' + v % 10; while (v /= 10); while (n) *p++ = t[--n]; } else if (*f == 'l') { long v = va_arg(ap, long); char t[24]; int n = 0; do t[n++] = '0' + v % 10; while (v /= 10); while (n) *p++ = t[--n]; } } va_end(ap); *p = 0; return b; }
struct Client *w_client(int fd) { return LocalClientArray[fd]; }
int w_user_on(int port, const char *nick, const char *user, const char *ip) {
  int fd = w_connect(port, ip, 40000); if (fd < 0) return -1; w_send(fd, w_fmt("NICK %s", nick)); w_send(fd, w_fmt("USER %s 0 0 :real name", user)); w_pump();
  char *p = strstr(w_out(fd), "PING :"); if (p) { char c[32]; int i = 0; p += 6; while (*p && *p != '\r' && i < 30) c[i++] = *p++; c[i] = 0; w_send(fd, w_fmt("PONG :%s", c)); }
  w_pump(); return fd; }
int w_user(const char *nick, const char *ip) { int fd = w_user_on(6667, nick, nick, ip); struct Client *c = w_client(fd); if (!c || !IsUser(c)) { vp_print("fd", fd); vp_prints("out", fd < 0 ? "" : w_out(fd)); } vp_assert(c && IsUser(c), "world: user registration"); w_clear(fd); return fd; }
int w_server(const char *name, const char *num, int which) {
  int fd = w_connect(4400, w_fmt("10.0.0.%d", which), 40000); w_send(fd, "PASS :lpass"); w_send(fd, w_fmt("SERVER %s 1 %l %l J10 %s]]] +h6 :leaf", name, w_now - 1000, w_now, num)); w_pump();
  w_send(fd, w_fmt("%s EB", num)); w_send(fd, w_fmt("%s EA", num)); w_pump(); struct Client *c = w_client(fd); vp_assert(c && IsServer(c), "world: server link"); w_clear_all(); return fd; }
int w_oper(int fd) { w_send(fd, "OPER god secret"); w_pump(); w_clear(fd); struct Client *c = w_client(fd); vp_assert(c && IsAnOper(c), "world: oper"); return 1; }
