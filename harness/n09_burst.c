/* @property N09
 * @quick time=200 RUN=1 label=channel j=8
 * @quick time=120 RUN=2 label=large j=8
 * @quick time=100 RUN=3 label=users j=8
 * @thorough time=900 RUN=1 DEEP label=channel j=8
 * @thorough time=900 RUN=2 DEEP label=large j=8
 * @thorough time=300 RUN=3 DEEP label=users j=8
 * @reach channel:modes channel:levels channel:bans channel:topic channel:local large:one large:split large:bansplit users:plain users:account users:away users:oper users:v4
 * @bounds a new link is told of a channel with every combination of 14 simple modes, key, limit and passwords, members of every combination of status (and operator level), up to two bans, topic or none; of a channel with as many as 150 members of cyclically chosen status and as many as 40 bans under names of two lengths, around every place where the lines split; of users with every combination of announced modes, account data, away text and kind of address
 * @outside exception lists, zombies (kicked users whose server has not yet answered), remote services
 */
#include "chan.inc"
const char *vp_features = "\"HUB\" = \"TRUE\"; \"OPLEVELS\" = \"TRUE\"; ";
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
static char *tok(char **p) { char *s = *p; while (*s == ' ') s++; if (!*s) { *p = s; return 0; } char *e = s; while (*e && *e != ' ') e++; if (*e) *e++ = 0; *p = e; return s; }
/* an independent reader of BURST lines: what a new peer learns of a channel */
struct mem { char num[8]; int st, lev; }; static struct mem M[200]; static int nm, nb, nl, hasmodes; static char modes[64], args[4][64], *bans[64];
static int number(const char *s) { int v = 0; if (!*s) return -1; for (; *s; s++) { if (*s < '0' || *s > '9') return -1; v = v * 10 + *s - '0'; } return v; }
static void read_burst(int fd, const char *ch, long ts) { int n = w_lines(fd); nm = nb = nl = hasmodes = 0; modes[0] = 0; for (int i = 0; i < 4; i++) args[i][0] = 0; char *pre = w_fmt("AB B %s ", ch);
  for (int i = 0; i < n; i++) { char *l = w_line(fd, i); if (!w_starts(l, pre)) continue; nl++; vp_assert(strlen(l) <= 510, "no line is too long"); char *p = l + strlen(pre), *t = tok(&p); vp_assert(t && w_eq(t, w_fmt("%l", ts)), "with its creation time"); int st = 0, lev = 0, inban = 0;
    while ((t = tok(&p))) { if (inban) { vp_assert(nb < 64, "bans"); bans[nb++] = t; } else if (*t == '+') { vp_assert(nl == 1 && !hasmodes, "modes are told first and once"); hasmodes = 1; strcpy(modes, t + 1); int k = 0; for (char *m = t + 1; *m; m++) if (*m == 'l' || *m == 'k' || *m == 'A' || *m == 'U') { char *a = tok(&p); vp_assert(a != 0, "each mode has its parameter"); if (!a) return; strcpy(args[k++], a); } }
      else if (*t == ':' && t[1] == '%') { inban = 1; bans[nb++] = t + 2; }
      else { while (*t) { char *e = t; while (*e && *e != ',') e++; int last = !*e; *e = 0; char *c = t; while (*c && *c != ':') c++; if (*c) { *c++ = 0; if (*c == 'v' || *c == 'o') { st = lev = 0; for (; *c == 'v' || *c == 'o'; c++) { st |= *c == 'v' ? 2 : 1; if (*c == 'o') lev = MAXOPLEVEL; } if (*c) { st |= 1; lev = number(c); } } else { int v = number(c); if (st & 1) lev += v; else { st = 1; lev = v; } } } vp_assert(nm < 200 && strlen(t) == 5, "members are numerics"); strcpy(M[nm].num, t); M[nm].st = st; M[nm].lev = lev; nm++; if (last) break; t = e + 1; } } } } }
static struct mem *memb(const char *num) { struct mem *r = 0; for (int i = 0; i < nm; i++) if (w_eq(M[i].num, num)) { vp_assert(!r, "no member is told twice"); r = &M[i]; } return r; }
static int link3(void) { int fd = w_connect(4400, "10.0.0.103", 40000); w_send(fd, "PASS :lpass"); w_send(fd, w_fmt("SERVER leaf3.test.net 1 %l %l J10 AE]]] +6 :leaf", (long)w_now - 1000, (long)w_now)); w_pump(); vp_assert(!w_closed(fd) && w_count(fd, "AB EB") == 1, "the burst ends"); return fd; }
static const char *num_of(struct Client *c) { return w_fmt("%s%s", cli_yxx(cli_user(c)->server), cli_yxx(c)); }
void vp_scenario(void) {
  std_network(); w_advance(15);
#if RUN == 1
  std_channel("#x"); static const struct { unsigned m; char c; } md[] = {{MODE_MODERATED, 'm'}, {MODE_TOPICLIMIT, 't'}, {MODE_INVITEONLY, 'i'}, {MODE_NOPRIVMSGS, 'n'}, {MODE_REGONLY, 'r'}, {MODE_DELJOINS, 'D'}, {MODE_REGISTERED, 'R'}, {MODE_NOCOLOR, 'c'}, {MODE_NOCTCP, 'C'}, {MODE_NOPARTMSGS, 'u'}, {MODE_MODERATENOREG, 'M'}, {MODE_TLSONLY, 'Z'}};
  int local = 0, sp = vp_pick("secret", 3), on[12]; CH->mode.mode = sp == 1 ? MODE_SECRET : sp == 2 ? MODE_PRIVATE : 0; for (int i = 0; i < 12; i++) on[i] = 0;
  int part = vp_pick("part", 2); int lim = 0, key = 0, ap = 0, up = 0, tz = 0;
  if (part == 0) { int g = vp_pick("group", 2); for (int i = 0; i < 6; i++) { on[g * 6 + i] = vp_pick("mode", 2); if (on[g * 6 + i]) CH->mode.mode |= md[g * 6 + i].m; } if (!on[5]) { if (vp_pick("wasdeljoins", 2)) CH->mode.mode |= MODE_WASDELJOINS; } }
  else { lim = vp_pick("limit", 2); key = vp_pick("key", 2); ap = vp_pick("apass", 2); up = ap && vp_pick("upass", 2); tz = vp_pick("insecure", 2); on[0] = 1; CH->mode.mode |= MODE_MODERATED; if (lim) CH->mode.limit = 4000000000u; if (key) strcpy(CH->mode.key, "sesame"); if (ap) strcpy(CH->mode.apass, "manager"); if (up) strcpy(CH->mode.upass, "users"); if (tz) CH->mode.mode |= MODE_TLSINSECURE; }
  struct Client *who[4] = {w_client(boss), w_client(bob), FindUser("carol"), FindUser("dave")}; int st[4], lv[4]; int nmem = 3; if (part) { w_send(L2, w_fmt("ADAAA J #x %l", (long)w_now)); w_pump(); nmem = 4; }
  static const int lvs[] = {MAXOPLEVEL, 0, 1, 500}; int anylev = 0; for (int i = 0; i < nmem; i++) { struct Membership *m = find_member_link(CH, who[i]); vp_assert(m != 0, "world: member"); 
#ifndef DEEP
    if (i > 1 + part) { st[i] = 0; lv[i] = MAXOPLEVEL; m->status &= ~(CHFL_CHANOP | CHFL_VOICE); continue; }
#endif
    st[i] = part ? vp_pick("status", 4) : i & 1 ? 2 : 1; lv[i] = MAXOPLEVEL; m->status = (m->status & ~(CHFL_CHANOP | CHFL_VOICE)) | (st[i] & 1 ? CHFL_CHANOP : 0) | (st[i] & 2 ? CHFL_VOICE : 0); if (st[i] & 1) { if (ap) lv[i] = lvs[vp_pick("level", i < 2 ? 4 : 2)]; SetOpLevel(m, lv[i]); if (lv[i] != MAXOPLEVEL) anylev = 1; } else SetOpLevel(m, MAXOPLEVEL); }
  int nban = part ? 0 : vp_pick("bans", 3); if (nban > 0) { w_send(L1, "AC OM #x +b *!*@bad.host"); if (nban > 1) w_send(L1, "AC OM #x +b a*!b?@10.0.0.0/8"); w_pump(); } int top = part ? 0 : vp_pick("topic", 2); if (top) { strcpy(CH->topic, "the topic :)"); strcpy(CH->topic_nick, "boss"); CH->topic_time = 1690000000; } else CH->topic[0] = 0;
  long ts = CH->creationtime; (void)local; w_send(bob, "JOIN &loc"); w_pump(); int fd = link3(); vp_assert(!w_count(fd, "&loc"), "local channels are not told"); vp_reach("local"); read_burst(fd, "#x", ts); vp_assert(nl == 1, "the channel is told once"); 
  char ex[40]; int k = 0; if (sp) ex[k++] = sp == 1 ? 's' : 'p'; for (int i = 0; i < 12; i++) if (on[i]) ex[k++] = md[i].c; ex[k] = 0; int no = 0; for (int i = 0; ex[i]; i++) { int c = 0; for (char *m = modes; *m; m++) c += *m == ex[i]; vp_assert(c == 1, "each mode is told"); no++; } int pc = 0, tot = 0; for (char *m = modes; *m; m++, tot++) { if (*m == 'l') { vp_assert(lim && w_eq(args[pc++], "4000000000"), "the limit"); } else if (*m == 'k') vp_assert(key && w_eq(args[pc++], "sesame"), "the key"); else if (*m == 'A') vp_assert(ap && w_eq(args[pc++], "manager"), "the passwords"); else if (*m == 'U') vp_assert(up && w_eq(args[pc++], "users"), "the passwords"); } vp_assert(tot == no + lim + key + ap + up && pc == lim + key + ap + up, "and no other mode"); vp_reach("modes");
  vp_assert(nm == nmem, "exactly the members are told"); for (int i = 0; i < nmem; i++) { struct mem *m = memb(num_of(who[i])); vp_assert(m && m->st == st[i], "with their status"); if (m && (st[i] & 1)) vp_assert(m->lev == lv[i], "and level"); } if (anylev) vp_reach("levels");
  vp_assert(nb == nban, "exactly the bans are told"); if (nban) { vp_reach("bans"); int f = 0; for (int i = 0; i < nb; i++) f += w_eq(bans[i], "*!*@bad.host"); vp_assert(f == 1, "as set"); if (nban > 1) { f = 0; for (int i = 0; i < nb; i++) f += w_eq(bans[i], "a*!b?@10.0.0.0/8"); vp_assert(f == 1, "as set"); } }
  vp_assert(w_count(fd, "AB T #x ") == top, "a topic is told once"); if (top) { vp_reach("topic"); vp_assert(eqc(fd, w_fmt("AB T #x %l 1690000000 boss :the topic :)", ts)) == 1, "unchanged"); }
#elif RUN == 2
  static const char *nmz[] = {"#x", "#a-rather-long-channel-name-with-many-letters"}; 
#ifdef DEEP
  int nmi = vp_pick("name", 2), n = vp_pick("members", 151), b = 10 * vp_pick("bans", 5); vp_assume(n % 10 == 0 || n >= 60);
#else
  int nmi = vp_pick("name", 2), n = 66 + vp_pick("members", 21), b = 20 * vp_pick("bans", 3); 
#endif
  const char *ch = nmz[nmi]; long ts = 1650000000; char *num[160]; int st[160], lv[160]; char line[600]; w_send(L1, w_fmt("AC B %s %l +A pass ACAAA", ch, ts)); int level = vp_pick("levels", 2); w_pump(); struct Channel *c = FindChannel(ch); vp_assert(c != 0, "world: channel");
  for (int i = 0; i < n; i++) { num[i] = w_fmt("AC%c%c%c", 'A', 'B' + i / 26, 'A' + i % 26); w_send(L1, w_fmt("AC N u%d 1 1600000000 u h +i AKAAAB %s :u", i, num[i])); w_send(L1, w_fmt("%s J %s %l", num[i], ch, ts)); } w_pump();
  for (int i = 0; i < n; i++) { struct Client *u = findNUser(num[i]); vp_assert(u != 0, "world: user"); struct Membership *m = find_member_link(c, u); st[i] = (i / 3) % 4; lv[i] = MAXOPLEVEL; m->status |= (st[i] & 1 ? CHFL_CHANOP : 0) | (st[i] & 2 ? CHFL_VOICE : 0); if (st[i] & 1) { if (level) lv[i] = (i * 37) % 1000; SetOpLevel(m, lv[i]); } }
  int bi = 0; while (bi < b) { strcpy(line, w_fmt("AC B %s %l :%c", ch, ts, '%')); int k = strlen(line); line[k] = 0; for (int j = 0; j < 10 && bi < b; j++, bi++) { strcpy(line + strlen(line), w_fmt("%s*!*@ban%d.example.com", j ? " " : "", bi)); } w_send(L1, line); } w_pump();
  int fd = link3(); read_burst(fd, ch, ts); int bc = 0; for (struct Ban *q = c->banlist; q; q = q->next) bc++; vp_assert(nl >= 1 && nm == n + 1 && nb == bc && bc == b, "every member and ban is told once"); vp_reach(nl > 1 ? "split" : "one"); if (nl > 2 && b) vp_reach("bansplit"); vp_assert(hasmodes && w_eq(modes, "A") && w_eq(args[0], "pass"), "and the modes once");
  for (int i = 0; i < n; i++) { struct mem *m = memb(num[i]); vp_assert(m && m->st == st[i], "with their status"); if (m && (st[i] & 1)) vp_assert(m->lev == lv[i], "and level"); } for (int i = 0; i < b; i++) { int f = 0; char *x = w_fmt("*!*@ban%d.example.com", i); for (int j = 0; j < nb; j++) f += w_eq(bans[j], x); vp_assert(f == 1, "as set"); }
#else
  struct Client *c = w_client(boss); int oper = vp_pick("oper", 2), prop = 1; if (oper) { w_oper(boss); prop = vp_pick("propagate", 2); prop ? SetPriv(c, PRIV_PROPAGATE) : ClrPriv(c, PRIV_PROPAGATE); } static const struct { int f; char c; } fl[] = {{FLAG_WALLOP, 'w'}, {FLAG_INVISIBLE, 'i'}, {FLAG_DEAF, 'd'}, {FLAG_CHSERV, 'k'}, {FLAG_DEBUG, 'g'}, {FLAG_HIDDENHOST, 'x'}}; int on[6]; for (int i = 0; i < 6; i++) { on[i] = vp_pick("flag", 2); on[i] ? SetFlag(c, fl[i].f) : ClrFlag(c, fl[i].f); } SetFlag(c, FLAG_LOCOP * 0 + FLAG_SERVNOTICE); 
  int acc = vp_pick("account", 4); if (acc) { SetAccount(c); strcpy(cli_user(c)->account, "theacc"); if (acc > 1) cli_user(c)->acc_id = 17; if (acc > 2) cli_user(c)->acc_flags = 5; } int aw = vp_pick("away", 2); if (aw) { w_send(boss, "AWAY :gone fishing"); w_pump(); } if (on[5] && acc) { strcpy(cli_user(c)->host, "theacc.users.undernet.org"); } w_advance(20);
  int s6 = vp_pick("ipv6peer", 2); int fd = w_connect(4400, "10.0.0.103", 40000); w_send(fd, "PASS :lpass"); w_send(fd, w_fmt("SERVER leaf3.test.net 1 %l %l J10 AE]]] +%s :leaf", (long)w_now - 1000, (long)w_now, s6 ? "6" : "h")); w_pump(); char *l = w_find(fd, " N boss "); vp_assert(l && w_count(fd, " N boss ") == 1, "each user is told once"); if (!l) return;
  char *p = l, *t; vp_assert((t = tok(&p)) && w_eq(t, "AB") && tok(&p) && tok(&p) && (t = tok(&p)) && w_eq(t, "1"), "with distance"); vp_assert((t = tok(&p)) && w_eq(t, w_fmt("%l", (long)cli_lastnick(c))), "nick time"); vp_assert((t = tok(&p)) && w_eq(t, cli_user(c)->username) && (t = tok(&p)) && w_eq(t, "10.0.0.9"), "user name and real host"); t = tok(&p); int any = oper && prop; for (int i = 0; i < 6; i++) any |= on[i]; if (acc) any = 1; vp_assert((*t == '+') == any, "modes"); if (*t == '+') { int nn = strlen(t) - 1, wn = 0; for (int i = 0; i < 6; i++) { if (fl[i].f < FLAG_GLOBAL_UMODES) { vp_assert(!on[i] || !strchr(t, fl[i].c), "local modes are kept"); continue; } wn += on[i]; vp_assert((strchr(t, fl[i].c) != 0) == on[i], "global modes are told"); } vp_assert((strchr(t, 'o') != 0) == (oper && prop), "an operator is told unless kept local"); wn += oper && prop; vp_assert((strchr(t, 'r') != 0) == (acc != 0), "an account"); wn += acc != 0; vp_assert(nn == wn, "and nothing else"); t = tok(&p); if (acc) { vp_assert(w_eq(t, acc == 1 ? "theacc" : acc == 2 ? "theacc:17" : "theacc:17:5"), "with its data"); vp_reach("account"); t = tok(&p); } }
  vp_assert(w_eq(t, "AKAAAJ"), "address"); vp_assert((t = tok(&p)) && w_eq(t, "ABAAA") && w_eq(p, ":real name"), "numeric and real name"); vp_assert(w_count(fd, "ABAAA A ") == aw, "an away text is told"); if (aw) { vp_assert(eqc(fd, "ABAAA A :gone fishing") == 1, "unchanged"); vp_reach("away"); } if (oper) vp_reach("oper"); else vp_reach("plain"); if (!s6) vp_reach("v4");
#endif
}
