/* textual digest of the visible state: clients, channels, bans, memberships, topics, glines, jupes */
#include "gline.h"
#include "querycmds.h"
static char *dg_p; static void dg_s(const char *s) { while (*s) *dg_p++ = *s++; *dg_p++ = '|'; }
static void dg_n(unsigned long v) { for (int i = 0; i < 16; i++) *dg_p++ = 'a' + (v >> (4 * i) & 15); *dg_p++ = '|'; }
extern struct Gline *GlobalGlineList, *BadChanGlineList;
static void dg_g(struct Gline *g) { for (; g; g = g->gl_next) { dg_s(g->gl_user); dg_s(g->gl_host ? g->gl_host : "-"); dg_s(g->gl_reason); dg_n(g->gl_flags); dg_n(g->gl_expire); dg_n(g->gl_lastmod); dg_n(g->gl_state); } }
 
static char *digest(void) {
  char *b = dg_p = malloc(16000);
  for (struct Client *c = GlobalClientList; c; c = cli_next(c)) { dg_s(cli_name(c)); dg_s(cli_username(c)); dg_s(cli_info(c)); dg_s(cli_yxx(c)); dg_n(cli_hopcount(c)); if (IsUser(c)) for (unsigned i = 0; i < sizeof cli_flags(c).bits / sizeof cli_flags(c).bits[0]; i++) dg_n(cli_flags(c).bits[i]);
    if (cli_user(c)) { dg_s(cli_user(c)->host); dg_s(cli_user(c)->account); dg_s(cli_user(c)->away ? cli_user(c)->away : "-"); dg_n(cli_user(c)->joined); dg_n(cli_user(c)->invites); for (struct Ban *s = cli_user(c)->silence; s; s = s->next) dg_s(s->banstr); dg_n(cli_lastnick(c)); } }
  for (struct Channel *c = GlobalChannelList; c; c = c->next) { dg_s(c->chname); dg_s(c->topic); dg_n(c->topic_time); dg_s(c->topic_nick); dg_n(c->creationtime); dg_n(c->mode.mode); dg_n(c->mode.limit); dg_s(c->mode.key); dg_s(c->mode.upass); dg_s(c->mode.apass); dg_n(c->users);
    for (struct Membership *m = c->members; m; m = m->next_member) { dg_s(cli_name(m->user)); dg_n(m->status & ~(CHFL_BANVALID | CHFL_BANNED)); } for (struct Ban *x = c->banlist; x; x = x->next) dg_s(x->banstr); }
  dg_n(UserStats.servers); dg_n(UserStats.clients); dg_n(UserStats.opers); dg_n(UserStats.unknowns); dg_n(UserStats.inv_clients); dg_n(UserStats.local_clients); dg_n(UserStats.local_servers); dg_g(GlobalGlineList); dg_g(BadChanGlineList); *dg_p = 0; return b; }
