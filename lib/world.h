/* Environment model: an in-memory operating system (files, sockets, clock) under the real ircd.
 * The ircd is booted through its real main(); its event loop calls vp_scenario(). */
#ifndef WORLD_H
#define WORLD_H
#include <stddef.h>
#include "vp.h"
#include "config.h"
#include "client.h"
#include "channel.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_string.h"
#include "numnicks.h"
#include "struct.h"
#include "s_user.h"
#include "s_bsd.h"
#include "s_misc.h"
#include "send.h"
#include "list.h"
#include "msg.h"
#undef assert
#define assert(x) vp_assert(!!(x), "harness precondition: " #x)
void vp_scenario(void);                     /* provided by the harness */
extern const char *vp_conf_extra;           /* extra configuration text (harness may override) */
extern const char *vp_features;             /* extra Features{} entries */
extern long w_now;                          /* simulated clock, seconds */
int w_connect(int port, const char *ip, int rport);       /* new inbound TCP connection -> fd */
void w_feed(int fd, const char *p, size_t n);             /* bytes arrive and are read */
void w_send(int fd, const char *line);                    /* feed line + CRLF */
void w_pump(void);                                        /* let every writable socket drain */
void w_writable(int fd);                                  /* one write event on fd */
void w_advance(int secs);                                 /* time passes, timers run */
void w_eof(int fd);                                       /* peer closes */
int w_closed(int fd);
char *w_out(int fd);                                      /* all output so far (NUL terminated) */
size_t w_outlen(int fd);
void w_clear(int fd); void w_clear_all(void);
int w_lines(int fd);                                      /* split output into lines */
char *w_line(int fd, int i);                              /* i-th line without CRLF, 0 if none */
char *w_find(int fd, const char *sub);                    /* first line containing sub */
int w_count(int fd, const char *sub);
int w_starts(const char *s, const char *pre);
int w_eq(const char *s, const char *t);                   /* equality without case splits on contents */
char *w_fmt(const char *f, ...);                          /* allocated formatted string: %s %d %c */
struct Client *w_client(int fd);
int w_user(const char *nick, const char *ip);             /* connect and register a local user -> fd */
int w_user_on(int port, const char *nick, const char *user, const char *ip);
int w_server(const char *name, const char *num, int port);/* link an (already synchronised) server -> fd */
extern int w_outgoing, w_outfd;                            /* outgoing connections tried so far, descriptor of the last */
void w_established(int fd, int err);                       /* it succeeds (err 0) or fails */
int w_rport(int fd);
void w_setconf(const char *extra);
int w_oper(int fd);                                       /* OPER up with the full operator block */
extern int w_blocked[];                                   /* writes on fd return EAGAIN while set */
extern int w_wlimit[];                                    /* max bytes accepted per write (0: no limit) */
extern const char *w_tls_fp[];                            /* fingerprint presented on fd */
extern int w_rawtags;                                     /* keep the message tags in w_lines() */
int w_fdof(const char *nick);
#define HUB "vp.test.net"
#endif
