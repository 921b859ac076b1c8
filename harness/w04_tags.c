/* @property W04
 * @quick time=200 MODE=1 label=route j=4
 * @quick time=100 MODE=1 NOTIME label=notime j=4
 * @quick time=100 MODE=1 NOFEAT label=nofeat j=4
 * @quick time=200 MODE=2 N=7 DENY=0 label=bytes j=4
 * @quick time=100 MODE=2 N=6 DENY=1 label=deny j=4
 * @quick time=100 MODE=2 N=6 DENY=2 label=allow j=4
 * @quick time=100 MODE=3 label=size j=4
 * @thorough time=2500 MODE=2 N=9 DENY=0 label=bytes9 j=8
 * @thorough time=2500 MODE=2 N=8 DENY=2 label=allow8 j=8
 * @reach route:local route:server route:tagmsg route:plain route:account route:upstream route:own route:later route:far route:refused bytes:relayed bytes:twice bytes:dropped bytes:escape deny:relayed deny:dropped allow:relayed allow:dropped size:fits size:long
 * @bounds route: every message kind (PRIVMSG, NOTICE, TAGMSG to a channel and to a user, nick changes, channel departures), by a local user with or without message-tags or a remote one whose server sent time, account, batch and client tags, to three local users with every subset of server-time, account-tag, message-tags, logged in or not, NETWORK_TIME and NETWORK_FEATURES on or off, followed by an event nobody sent (a dropped connection, a ping); bytes: every 7 (thorough 9) bytes of tags, with no tag denied, two denied, all but two denied; size: 4090 to 4098 bytes of tags
 * @outside more than 64 tags in a line, tags of servers longer than a client may send
 */
#include "chan.inc"
extern int w_rawtags;
const char *vp_classmax = "20000";
#ifndef N
#define N 4
#endif
#ifndef DENY
#define DENY 0
#endif
#ifdef NOFEAT
#define NT "\"NETWORK_FEATURES\" = \"FALSE\"; "
#elif defined NOTIME
#define NT "\"NETWORK_TIME\" = \"FALSE\"; "
#else
#define NT
#endif
const char *vp_features = "\"HUB\" = \"TRUE\"; \"CAP_MESSAGE_TAGS\" = \"TRUE\"; \"CAP_SERVER_TIME\" = \"TRUE\"; \"CAP_ACCOUNT_TAG\" = \"TRUE\"; " NT
#if DENY == 0
"\"CLIENTTAGDENY\" = \"\"; ";
#elif DENY == 1
"\"CLIENTTAGDENY\" = \"zz,a\"; ";
#else
"\"CLIENTTAGDENY\" = \"*,-zz,-a\"; ";
#endif
const char *vp_conf_extra = "UWorld { name = \"leaf1.test.net\"; };\n";
static char *iso(long t) { long d = t / 86400, s = t % 86400, z = d + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, dd = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9; if (m <= 2) y++;
  return w_fmt("%l-%s%l-%s%lT%s%l:%s%l:%s%l.000Z", y, m < 10 ? "0" : "", m, dd < 10 ? "0" : "", dd, s / 3600 < 10 ? "0" : "", s / 3600, s / 60 % 60 < 10 ? "0" : "", s / 60 % 60, s % 60 < 10 ? "0" : "", s % 60); }
/* the tags of the only line of fd whose rest is (or starts with) body; 0: no such line */
static char *tags_of(int fd, const char *body) { int n = w_lines(fd), k = 0; char *r = 0; for (int i = 0; i < n; i++) { char *l = w_line(fd, i), *t = ""; if (*l == '@') { char *e = l + 1; while (*e && *e != ' ') e++; if (!*e) continue; t = malloc(e - l); memcpy(t, l + 1, e - l - 1); t[e - l - 1] = 0; l = e + 1; } if (w_starts(l, body)) { r = t; k++; } } vp_assert(k <= 1, "a message arrives once"); return r; }
static int has(const char *t, const char *item) { size_t n = strlen(item); for (;;) { const char *e = t; while (*e && *e != ';') e++; if ((size_t)(e - t) == n && !memcmp(t, item, n)) return 1; if (!*e) return 0; t = e + 1; } }
static int count(const char *t) { int n = !!*t; for (; *t; t++) n += *t == ';'; return n; }
static void cap(int fd, int set) { static const char *cn[] = {"", "server-time", "account-tag", "server-time account-tag", "message-tags", "server-time message-tags", "account-tag message-tags", "server-time account-tag message-tags"}; if (set) { w_send(fd, w_fmt("CAP REQ :%s", cn[set])); w_pump(); vp_assert(w_count(fd, " ACK ") == 1, "harness: caps"); } }
static void expect(int fd, int set, const char *body, const char *time, const char *acct, const char *client) {
  char *t = tags_of(fd, body); vp_assert(t != 0, "a message arrives at everyone it is for"); int n = 0;
  if (set & 5) { n++; vp_assert(has(t, w_fmt("time=%s", time)), "with the time of the event, where it is wanted"); }
  if ((set & 6) && acct) { n++; vp_assert(has(t, w_fmt("account=%s", acct)), "and the account of the sender, where it is wanted"); vp_reach("account"); }
  if ((set & 4) && *client) { vp_assert(has(t, "+x=1") && has(t, "+y") && n + 2 == count(t), "and the sender's own tags, unchanged"); n += 2; }
  vp_assert(count(t) == n, "and no other tag"); }
void vp_scenario(void) {
  std_network(); std_channel("#x"); w_rawtags = 1;
#if MODE == 1
  int snd = vp_pick("sender", 3), in = vp_bool("login"), kind = vp_pick("kind", 8), sb = vp_pick("caps", 8), tagged = vp_bool("tagged"); cap(bob, sb); int so = snd == 2 ? 0 : snd ? 4 : 0; cap(boss, so); if (snd == 2) cap(boss, sb ^ 7); int B2 = w_user("eve", "10.0.0.44"); w_send(B2, "JOIN #x"); cap(B2, sb ^ 5); w_send(L2, w_fmt("ADAAA J #x %l", (long)w_now)); w_pump(); if (in) { w_send(L1, snd == 2 ? "AC AC ACAAA acc" : w_fmt("AC AC AB%s acc", cli_yxx(w_client(boss)))); w_pump(); } w_advance(31); w_clear_all();
  static const char *cmd[] = {"PRIVMSG #x :hi", "NOTICE #x :hi", "TAGMSG #x", "PRIVMSG bob :hi", "NOTICE bob :hi", "TAGMSG bob", "NICK newnm", "PART #x"}, *tok[] = {"P #x :hi", "O #x :hi", "TM #x", "P %s :hi", "O %s :hi", "TM %s", "N newnm 1700000020", "L #x"};
  const char *src = snd == 2 ? ":carol!carol@host.carol" : ":boss!boss@10.0.0.9", *now = iso(w_now), *up = "2020-02-02T02:02:02.002Z", *bn = w_fmt("AB%s", cli_yxx(w_client(bob))), *line; int tm = kind == 2 || kind == 5, chan = kind < 3, dir = kind >= 3 && kind < 6;
  if (snd == 2) { line = w_fmt("%sACAAA %s", tagged ? w_fmt("@time=%s;+x=1;account=liar;batch=7;+y ", up) : "", dir ? w_fmt(tok[kind], bn) : tok[kind]); w_send(L1, line); vp_reach("server"); } else { line = w_fmt("%s%s", tagged ? "@time=1999-01-01T00:00:00.000Z;+x=1;label=q;account=liar;batch=7;+y " : "", cmd[kind]); w_send(boss, line); vp_reach("local"); }
  w_pump(); if (w_closed(L1)) vp_end(); const char *body = w_fmt("%s %s", src, kind == 6 ? "NICK :newnm" : kind == 7 ? "PART " : cmd[kind]), *own = now;
#ifndef NOTIME
  if (snd == 2 && tagged) { own = up; vp_reach("upstream"); } else vp_reach("own");
#endif
  const char *client = tagged ? "+x" : "", *who = in ? "acc" : 0; int refused = tm && snd == 0;
  if (refused) { vp_assert(w_count(boss, " 421 ") == 1, "tags alone are sent only by who speaks of tags"); vp_reach("refused"); }
  int fds[] = {bob, B2, boss}, caps[] = {sb, sb ^ 5, snd == 2 ? sb ^ 7 : so};
  for (int i = 0; i < 3; i++) { int self = i == 2 && snd != 2, to = !refused && (dir ? i == 0 : chan ? !self : 1);
    if (to && !(tm && !(caps[i] & 4))) { expect(fds[i], caps[i], body, own, who, client); if (tm) vp_reach("tagmsg"); if (!caps[i]) vp_reach("plain"); } else { vp_assert(tags_of(fds[i], body) == 0, "and at nobody else; tags alone only at those who know tags"); } }
  /* to the servers: the time and the batch only */
  if (!dir && !refused) { char *t = tags_of(L2, w_fmt("%s %s", snd == 2 ? "ACAAA" : w_fmt("AB%s", cli_yxx(w_client(boss))), kind == 6 ? "N newnm " : kind == 7 ? "L #x" : tok[kind])); vp_assert(t != 0, "other servers are told"); int n = 0;
#if !defined NOTIME && !defined NOFEAT
    n++; vp_assert(has(t, w_fmt("time=%s", own)), "with the time of the event");
#endif
#ifndef NOFEAT
    if (tagged && snd == 2) { n++; vp_assert(has(t, "batch=7"), "and the batch"); }
#endif
    vp_assert(count(t) == n, "and none of the tags of clients"); vp_reach("far"); }
  /* an event nobody sent carries no tags of an earlier message */
  w_advance(7); w_clear_all(); w_eof(B2); w_pump(); now = iso(w_now); expect(bob, sb, ":eve!eve@10.0.0.44 QUIT ", now, 0, ""); int ln = w_lines(L2); vp_assert(ln == 1, "harness: one line"); char *l = w_line(L2, 0);
#if !defined NOTIME && !defined NOFEAT
  vp_assert(w_starts(l, w_fmt("@time=%s AB", now)), "what happens later has its own time");
#else
  vp_assert(w_starts(l, "AB"), "what happens later has no tags");
#endif
  w_clear_all(); w_advance(85); w_send(L1, "AC Z x"); w_pump(); now = iso(w_now); if (tags_of(bob, "PING ")) { expect(bob, sb, "PING ", now, 0, ""); vp_reach("later"); }
#elif MODE == 2
  cap(boss, 4); cap(bob, 4); w_advance(31); w_clear_all(); char *b = malloc(64); unsigned char s[N]; for (int i = 0; i < N; i++) { s[i] = vp_byte("tag"); vp_assume(s[i] && s[i] != ' ' && s[i] != '\r' && s[i] != '\n'); }
  char *p = b; *p++ = '@'; memcpy(p, s, N); p += N; memcpy(p, " PRIVMSG bob :hi\r\n", 18); p += 18; w_feed(boss, b, p - b); w_pump();
  char *t = tags_of(bob, ":boss!boss@10.0.0.9 PRIVMSG bob :hi"); vp_assert(t != 0, "a message arrives whatever its tags"); const char *tp = w_fmt("time=%s", iso(w_now)); vp_assert(w_starts(t, tp), "with its time"); t += strlen(tp); struct kv { char k[N + 1], v[N + 1]; int kl, vl, ok; } a[2][N + 1]; int na[2] = {0, 0};
  for (int side = 0; side < 2; side++) { const char *x = side ? t : (const char *)s; int n = side ? (int)strlen(t) : N; if (side && n) { vp_assert(*x == ';', "tags are separated"); x++; n--; vp_assert(n <= N, "nothing is added"); } int i = 0;
    while (i < n) { struct kv *e = &a[side][na[side]]; e->kl = e->vl = 0; int val = 0; for (; i < n && x[i] != ';'; i++) { char c = x[i]; if (!val && c == '=') { val = 1; continue; } if (!val) { e->k[e->kl++] = c; continue; }
        if (c == '\\') { if (i + 1 >= n || x[i + 1] == ';') continue; c = x[++i]; if (c == 's') c = ' '; else if (c == ':') c = ';'; else if (c == 'r') c = '\r'; else if (c == 'n') c = '\n'; if (!side) vp_reach("escape"); } e->v[e->vl++] = c; }
      i++; int al = e->kl > 1 && e->k[0] == '+';
      if (al && DENY) { int in = (e->kl == 2 && (e->k[1] | 32) == 'a') || (e->kl == 3 && (e->k[1] | 32) == 'z' && (e->k[2] | 32) == 'z'); al = DENY == 2 ? in : !in; } if (side) vp_assert(al, "only tags a client may send are passed on"); else if (!al) { if (e->kl) vp_reach("dropped"); continue; } na[side]++; } }
  for (int side = 0; side < 2; side++) for (int i = 0; i < na[side]; i++) { struct kv *e = &a[side][i]; int last = 1; for (int j = i + 1; j < na[side]; j++) if (a[side][j].kl == e->kl && !memcmp(a[side][j].k, e->k, e->kl)) last = 0; if (!last) { vp_reach("twice"); continue; }
    struct kv *f = 0; for (int j = 0; j < na[!side]; j++) if (a[!side][j].kl == e->kl && !memcmp(a[!side][j].k, e->k, e->kl)) f = &a[!side][j]; vp_assert(f != 0, side ? "a tag is passed on under its own name" : "every tag a client may send is passed on"); if (!side) { vp_assert(f->vl == e->vl && !memcmp(f->v, e->v, e->vl), "with its value"); vp_reach("relayed"); } }
#else
  cap(boss, 4); cap(bob, 4); w_advance(31); w_clear_all(); int n = 4090 + vp_pick("size", 9), k = vp_pick("kind", 3); char *b = malloc(6000), *p = b; *p++ = '@'; for (int i = 0; i < n; i++) *p++ = i == 0 ? '+' : i == 1 ? 'x' : i == 2 ? '=' : k == 1 && (i & 1) ? '\\' : k == 1 ? 's' : k == 2 ? ':' : 'v'; memcpy(p, " PRIVMSG bob :hi\r\n", 18); p += 18; w_feed(boss, b, p - b); w_pump(); char *t = tags_of(bob, ":boss!boss@10.0.0.9 PRIVMSG bob :hi");
  if (n > 4094) { vp_assert(!t && w_count(boss, " 417 ") == 1, "tags beyond the limit are refused"); vp_reach("long"); } else { int m = k == 1 && !(n & 1) ? n - 1 : n; vp_assert(t != 0 && (int)strlen(t) >= m && !memcmp(t + strlen(t) - m, b + 1, m), "tags up to the limit arrive whole"); vp_reach("fits"); }
#endif
}
