/* C library model for the symbolic engine (not used natively: the replay uses glibc).
 * Plain portable implementations, so that every library call made by the code under test
 * is itself executed symbolically. System calls forward to the w_* environment model. */
#undef _GNU_SOURCE
#define _DEFAULT_SOURCE
#include <stdarg.h>
#include <stddef.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <netinet/in.h>
#define sigaction sigaction_hidden
#include <signal.h>
#undef sigaction
#include <time.h>
#include <errno.h>
#include <stdio.h>
#include "ctype_tab.h"
void *malloc(size_t); void free(void *); void abort(void);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
static int the_errno; int *__errno_location(void) { return &the_errno; }
static const unsigned short *ctbp = ctb + 128; static const int *ctlp = ctl + 128, *ctup = ctu + 128;
const unsigned short **__ctype_b_loc(void) { return &ctbp; }
const int **__ctype_tolower_loc(void) { return &ctlp; }
const int **__ctype_toupper_loc(void) { return &ctup; }
#undef tolower
#undef toupper
int tolower(int c) { return c >= -128 && c < 256 ? ctlp[c] : c; }
int toupper(int c) { return c >= -128 && c < 256 ? ctup[c] : c; }
#define CB(n, bit) int n(int c) { return ctbp[c] & (unsigned short)(bit); }
#undef isdigit
#undef isspace
#undef isalpha
#undef isalnum
#undef isxdigit
#undef isupper
#undef islower
#undef ispunct
#undef isprint
CB(isupper, 256) CB(islower, 512) CB(isalpha, 1024) CB(isdigit, 2048) CB(isxdigit, 4096) CB(isspace, 8192) CB(isprint, 16384) CB(ispunct, 4) CB(isalnum, 8)

size_t strlen(const char *s) { const char *p = s; while (*p) p++; return p - s; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = ctlp[(unsigned char)*a], y = ctlp[(unsigned char)*b]; if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = ctlp[(unsigned char)*a], y = ctlp[(unsigned char)*b]; if (x != y) return x - y; if (!x) return 0; } return 0; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (; n; n--, x++) if (*x == (unsigned char)c) return (void *)x; return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (!strncmp(h, n, l)) return (char *)h; return 0; }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (!strncasecmp(h, n, l)) return (char *)h; return 0; }
static int inset(char c, const char *set) { for (; *set; set++) if (*set == c) return 1; return 0; }
size_t strspn(const char *s, const char *a) { size_t i = 0; while (s[i] && inset(s[i], a)) i++; return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; while (s[i] && !inset(s[i], a)) i++; return i; }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (inset(*s, a)) return (char *)s; return 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
static char *toksv; char *strtok(char *s, const char *d) { return strtok_r(s, d, &toksv); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int ffs(int v) { for (int i = 0; i < 32; i++) if (v & (1 << i)) return i + 1; return 0; }
long labs(long v) { return v < 0 ? -v : v; }
#undef htonl
#undef htons
#undef ntohl
#undef ntohs
uint32_t htonl(uint32_t v) { return __builtin_bswap32(v); } uint32_t ntohl(uint32_t v) { return __builtin_bswap32(v); }
uint16_t htons(uint16_t v) { return __builtin_bswap16(v); } uint16_t ntohs(uint16_t v) { return __builtin_bswap16(v); }

static unsigned long conv(const char *s, char **end, int base, int *neg, int *over, unsigned long lim) {
  const char *p = s; unsigned long v = 0; int any = 0; *neg = *over = 0;
  while (ctbp[(unsigned char)*p] & 8192) p++;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && (ctbp[(unsigned char)p[2]] & 4096)) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break; any = 1; if (v > (lim - d) / base) *over = 1; else v = v * base + d; }
  if (end) *end = (char *)(any ? p : s); return v; }
unsigned long strtoul(const char *s, char **e, int b) { int n, o; unsigned long v = conv(s, e, b, &n, &o, ~0ul); if (o) { the_errno = ERANGE; return ~0ul; } return n ? -v : v; }
long strtol(const char *s, char **e, int b) { int n, o; unsigned long v = conv(s, e, b, &n, &o, 0x8000000000000000ul); if (!o && !n && v > 0x7ffffffffffffffful) o = 1; if (o) { the_errno = ERANGE; return n ? (long)0x8000000000000000ul : 0x7fffffffffffffffl; } return n ? -v : v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }

void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)b + m * sz; int c = cmp(k, p); if (!c) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { char *a = b, *t = malloc(sz + 1); for (size_t i = 1; i < n; i++) { memcpy(t, a + i * sz, sz); size_t j = i; while (j && cmp(a + (j - 1) * sz, t) > 0) { memcpy(a + j * sz, a + (j - 1) * sz, sz); j--; } memcpy(a + j * sz, t, sz); } free(t); }

/* ---- formatted output (subset used by the code base through plain libc) */
struct ob { char *p; size_t n, cap; };
static void oc(struct ob *o, char c) { if (o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) {
  struct ob o = {buf, 0, cap}; for (; *f; f++) { if (*f != '%') { oc(&o, *f); continue; } f++;
    int left = 0, zero = 0, plus = 0, alt = 0, w = 0, prec = -1, l = 0; for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') ; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) left = 1, w = -w; f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') l = 1; f++; }
    char nb[72]; const char *s = nb; size_t n = 0; char sign = 0; (void)alt;
    switch (*f) {
    case '%': oc(&o, '%'); continue;
    case 'c': nb[0] = va_arg(ap, int); n = 1; break;
    case 's': s = va_arg(ap, char *); if (!s) s = "(null)"; n = prec >= 0 ? strnlen(s, prec) : strlen(s); zero = 0; break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long v; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
      if (*f == 'd' || *f == 'i') { long q = l ? va_arg(ap, long) : va_arg(ap, int); if (q < 0) { sign = '-'; v = -(unsigned long)q; } else { v = q; if (plus) sign = '+'; } }
      else v = l || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
      char *e = nb + 71; do { unsigned dgt = v % base; *--e = dgt < 10 ? '0' + dgt : (*f == 'X' ? 'A' : 'a') + dgt - 10; v /= base; n++; } while (v); while ((int)n < prec && n < 60) *--e = '0', n++; s = e; break; }
    default: continue; }
    size_t tot = n + (sign != 0); if (sign && zero) oc(&o, sign); if (!left) while (tot < (size_t)w) oc(&o, zero ? '0' : ' '), tot++; if (sign && !zero) oc(&o, sign);
    for (size_t i = 0; i < n; i++) oc(&o, s[i]); if (left) while (tot < (size_t)w) oc(&o, ' '), tot++; }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0; return (int)o.n; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1 << 30, f, ap); }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 30, f, ap); va_end(ap); return r; }
#undef stderr
#undef stdout
FILE *stderr, *stdout, *stdin; 
extern void vp_prints(const char *, const char *);
int vfprintf(FILE *fp, const char *f, va_list ap) { return 0; }
int fprintf(FILE *fp, const char *f, ...) { char b[512]; va_list ap; va_start(ap, f); int r = vsnprintf(b, sizeof b, f, ap); va_end(ap); vp_prints("stdio", b); return r; }
int printf(const char *f, ...) { return 0; } int puts(const char *s) { return 0; } int putchar(int c) { return c; } int fputs(const char *s, FILE *f) { return 0; } int fputc(int c, FILE *f) { return c; } int fflush(FILE *f) { return 0; }
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) { return b; }
char *strerror(int e) { return e == ECONNREFUSED ? "Connection refused" : e == ETIMEDOUT ? "Connection timed out" : "error"; }

/* ---- calendar */
static struct tm thetm;
struct tm *gmtime_r(const time_t *tp, struct tm *r) { long t = *tp; long d = t / 86400, s = t % 86400; if (s < 0) s += 86400, d--; memset(r, 0, sizeof *r); r->tm_hour = s / 3600; r->tm_min = s / 60 % 60; r->tm_sec = s % 60; r->tm_wday = ((d + 4) % 7 + 7) % 7; long y = 1970; static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; for (;;) { int lp = (y % 4 == 0 && y % 100) || y % 400 == 0; if (d < 365 + lp) break; d -= 365 + lp; y++; } r->tm_year = y - 1900; r->tm_yday = d; int lp = (y % 4 == 0 && y % 100) || y % 400 == 0, m = 0; for (; m < 11; m++) { int n = md[m] + (m == 1 && lp); if (d < n) break; d -= n; } r->tm_mon = m; r->tm_mday = d + 1; return r; }
struct tm *gmtime(const time_t *t) { return gmtime_r(t, &thetm); }
struct tm *localtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); }
struct tm *localtime(const time_t *t) { return gmtime_r(t, &thetm); }
static char ctb26[32]; char *ctime(const time_t *t) { struct tm m; gmtime_r(t, &m); static const char *wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; snprintf(ctb26, sizeof ctb26, "%s %s %2d %02d:%02d:%02d %d\n", wd[m.tm_wday], mn[m.tm_mon], m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, m.tm_year + 1900); return ctb26; }

/* ---- system calls, forwarded to the environment model */
#define FW(ret, name, params, args) ret w_##name params; ret name params { return w_##name args; }
FW(time_t, time, (time_t *t), (t))
FW(int, gettimeofday, (struct timeval *t, void *z), (t, z))
int w_open(const char *, int, ...); int open(const char *p, int fl, ...) { return w_open(p, fl); }
FW(ssize_t, read, (int fd, void *b, size_t n), (fd, b, n))
FW(ssize_t, write, (int fd, const void *b, size_t n), (fd, b, n))
FW(ssize_t, writev, (int fd, const struct iovec *v, int n), (fd, v, n))
FW(ssize_t, recv, (int fd, void *b, size_t n, int fl), (fd, b, n, fl))
FW(ssize_t, recvfrom, (int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al), (fd, b, n, fl, a, al))
ssize_t ws_send(int fd, const void *b, size_t n, int fl); ssize_t send(int fd, const void *b, size_t n, int fl) { return ws_send(fd, b, n, fl); }
FW(ssize_t, sendto, (int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al), (fd, b, n, fl, a, al))
FW(int, close, (int fd), (fd))
FW(int, socket, (int a, int b, int c), (a, b, c))
FW(int, bind, (int fd, const struct sockaddr *a, socklen_t l), (fd, a, l))
FW(int, listen, (int fd, int n), (fd, n))
FW(int, accept, (int fd, struct sockaddr *a, socklen_t *l), (fd, a, l))
int ws_connect(int fd, const struct sockaddr *a, socklen_t l); int connect(int fd, const struct sockaddr *a, socklen_t l) { return ws_connect(fd, a, l); }
FW(int, getpeername, (int fd, struct sockaddr *a, socklen_t *l), (fd, a, l))
FW(int, getsockname, (int fd, struct sockaddr *a, socklen_t *l), (fd, a, l))
FW(int, getsockopt, (int fd, int a, int b, void *v, socklen_t *l), (fd, a, b, v, l))
FW(int, setsockopt, (int fd, int a, int b, const void *v, socklen_t l), (fd, a, b, v, l))
FW(int, fstat, (int fd, struct stat *st), (fd, st))
FW(int, dup2, (int a, int b), (a, b))
FW(int, pipe, (int *p), (p))
FW(char *, crypt, (const char *k, const char *s), (k, s))
#define SYS(n) n
#include "sysstubs.inc"
char *optarg; int optind = 1; int getopt(int c, char *const *v, const char *o) { if (optind >= c) return -1; const char *a = v[optind]; if (a[0] != '-' || !a[1]) return -1; optind++; const char *q = strchr(o, a[1]); if (!q) return '?'; if (q[1] == ':') optarg = a[2] ? (char *)a + 2 : v[optind++]; return a[1]; }
