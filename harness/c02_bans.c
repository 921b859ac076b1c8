/* @property C02
 * @quick time=200 RUN=1 OCT0=4 OCT1=6 label=effect j=6
 * @thorough time=800 RUN=1 OCT0=0 OCT1=9 label=effect
 * @thorough time=60 RUN=2 label=limit
 * @thorough time=60 RUN=3 label=mask
 * @quick time=60 RUN=2 label=limit j=2
 * @quick time=60 RUN=3 label=mask j=2
 * @quick time=60 RUN=4 label=several j=3
 * @thorough time=60 RUN=4 label=several
 * @reach several:add several:del several:same effect:excluded effect:free effect:lifted effect:dropped effect:refused limit:full limit:ok mask:set mask:norm
 * @bounds effect: two bans and one removal drawn from 15 masks (texts with wildcards, CIDR ranges of three widths, hidden-host names, nested and overlapping), probed by a channel member whose host name has two arbitrary bytes, with last address octet 4..6 (thorough: 0..9), with or without an account and hidden host. limit: five bans in one or several commands against a limit of 3. mask: any 3-byte mask argument. several: three ban changes in one command out of {add, remove} x {a mask, one covering it, one unrelated, one covering all} on a list with none, one or two of them
 * @outside longer ban lists, ban exceptions (not in this version), bans from bursts (C09)
 */
#include "chan.inc"
#include "r_glob.inc"
static const char *MSK[] = { "*!*@*", "*!*@10.0.4.0/24", "*!*@10.0.4.4/30", "*!*@10.0.0.0/8", "*!*@10.0.4.*", "*!*@10.0.4.5", "*!*@h*", "*!*@h?.c", "ali*!*@*", "alice!*@h*", "*!*@acct.users.undernet.org", "*!*@re?l.host", "*!~*@*", "*!*@*.4.0*", "*!alice@*.?" };
#ifndef NM
#define NM 15
#endif
static int is_ban_of(const char *mask, const char *nu, const char *h1, const char *h2, const char *ip, unsigned long ipv4, unsigned hash2) {
  const char *at = strchr(mask, '@'); unsigned char m[64]; int k = at - mask; memcpy(m, mask, k); unsigned r = r_globn(m, k, (const unsigned char *)nu, strlen(nu));
  const char *h = at + 1; int n = strlen(h); unsigned hr = r_globn((const unsigned char *)h, n, (const unsigned char *)h1, strlen(h1)) | (hash2 & r_globn((const unsigned char *)h, n, (const unsigned char *)h2, strlen(h2))) | r_globn((const unsigned char *)h, n, (const unsigned char *)ip, strlen(ip));
  if (w_eq(h, "10.0.4.0/24")) hr |= (unsigned)((ipv4 >> 8) == 0x0a0004); if (w_eq(h, "10.0.4.4/30")) hr |= (unsigned)((ipv4 >> 2) == (0x0a000404 >> 2)); if (w_eq(h, "10.0.0.0/8")) hr |= 1;
  return r & hr & 1u; }
static char *cur[12]; static int ncur;
/* the list as announced to members */
static void follow(int fd) { for (int i = 0; i < w_lines(fd); i++) { char *l = w_line(fd, i), *p = strstr(l, " MODE #x "); if (!p) continue; p += 9; char sg[12]; int n = 0, add = 1; for (; *p && *p != ' '; p++) { if (*p == '+') add = 1; else if (*p == '-') add = 0; else { vp_assert(*p == 'b', "only ban changes are announced"); sg[n++] = add; } }
  for (int j = 0; j < n; j++) { vp_assert(*p == ' ', "each announced ban has a mask"); p++; char *e = strchr(p, ' '); int len = e ? e - p : (int)strlen(p); char *s = malloc(len + 1); memcpy(s, p, len); s[len] = 0; p += len; int f = -1; for (int q = 0; q < ncur; q++) if (!strcmp(cur[q], s)) f = q;
    if (sg[j]) { vp_assert(f < 0, "no ban is announced twice"); cur[ncur++] = s; } else { vp_assert(f >= 0, "a removed ban was in the list"); cur[f] = cur[--ncur]; } } } }
static int boss_changes(void) { int n1 = w_count(bob, " MODE #x "), n2 = w_count(L1, " M #x "), n3 = w_count(L2, " M #x "); vp_assert(n1 == n2 && n2 == n3 && n1 <= 1, "ban changes are announced alike to members and servers");
  if (n1) { char *l = strstr(w_find(bob, " MODE #x "), " MODE #x ") + 9, *s = strstr(w_find(L1, " M #x "), " M #x ") + 6; vp_assert(!strncmp(l, s, strlen(l)) && s[strlen(l)] == ' ', "servers receive the same ban changes as members"); } return n1; }
static void list_is_current(void) { w_clear(boss); w_send(boss, "MODE #x b"); w_pump(); vp_assert(w_count(boss, " 367 boss #x ") == ncur, "the ban list shown has the current bans"); for (int i = 0; i < ncur; i++) vp_assert(w_count(boss, w_fmt(" 367 boss #x %s ", cur[i])) == 1, "the ban list shows each current ban"); }
void vp_scenario(void) {
  std_network(); std_channel("#x");
#if RUN == 1
  int al = w_user("alice", "10.0.4.5"); struct Client *a = w_client(al); w_send(al, "JOIN #x"); w_pump();
  unsigned char x = vp_byte("hx"), y = vp_byte("hy"); vp_assume(x > ' ' && y > ' ' && x != '@' && y != '@' && x != '!' && y != '!');
  unsigned char oct = (unsigned char)vp_range("octet", OCT0, OCT1); unsigned acct = vp_bool("account"), hid = vp_bool("hidden"); hid &= acct;
  char h1[16] = {'h', (char)x, '.', (char)y, 0}; struct User *u = cli_user(a); memset(u->host, 0, sizeof u->host); memcpy(u->host, h1, 5); cli_ip(a).in6_16[7] = htons((4 << 8) | oct); cli_ip(a).in6_16[6] = htons(10 << 8);
  SYMFLAG(a, FLAG_ACCOUNT, acct); SYMFLAG(a, FLAG_HIDDENHOST, hid); strcpy(u->account, "acct"); strcpy(u->realhost, "real.host");
  char ipt[16] = "10.0.4.?"; ipt[7] = '0' + oct; unsigned long ip4 = 0x0a000400ul | oct; int h = HasHiddenHost(a) ? 1 : 0; const char *h2 = h ? "real.host" : "acct.users.undernet.org";
  int b1 = vp_pick("b1", NM), b2 = 0, rm = 0, prev = 0; char *old[12]; int nold = 0;
  for (int step = 0; step < 3; step++) {
    if (step == 1) { b2 = vp_pick("b2", NM); vp_assume(b1 != b2); } if (step == 2) rm = vp_pick("remove", 4);
    const char *mk = step == 0 ? MSK[b1] : step == 1 ? MSK[b2] : rm == 1 ? MSK[b1] : rm == 2 ? MSK[b2] : "*!*@10.0.4.0/24"; if (step == 2 && rm == 0) break;
    nold = ncur; for (int i = 0; i < ncur; i++) old[i] = cur[i];
    w_clear_all(); w_send(boss, w_fmt("MODE #x %sb %s", step < 2 ? "+" : "-", mk)); w_pump(); int n = boss_changes(); follow(bob);
    w_clear_all(); w_send(al, "PRIVMSG #x :hi"); w_pump(); int said = w_count(bob, "PRIVMSG #x :hi"); unsigned ex = 0; for (int i = 0; i < ncur; i++) ex |= is_ban_of(cur[i], "alice!alice", h1, h2, ipt, ip4, acct);
    vp_assert((unsigned)said == (ex ^ 1u), "a user is silenced exactly when a listed ban matches"); int mm = is_ban_of(mk, "alice!alice", h1, h2, ipt, ip4, acct);
    if (step < 2) { vp_assert(said ? !mm : 1, "a user matching the new ban is silenced"); vp_assert(prev ? !said : 1, "setting a ban lets nobody in"); if (ncur <= nold) vp_reach(n ? "dropped" : "refused"); }
    else { vp_assert(said && prev ? mm : 1, "removing a ban frees only users matching the removed mask"); if (said && prev) vp_reach("lifted"); for (int i = 0; i < ncur; i++) vp_assert(strcmp(cur[i], mk) != 0, "the removed ban is gone"); }
    for (int i = 0; i < ncur; i++) for (int j = 0; j < i; j++) vp_assert(strcmp(cur[i], cur[j]) != 0, "no ban is listed twice");
    prev = !said; if (said) vp_reach("free"); else vp_reach("excluded");
  }
  list_is_current();
#elif RUN == 2
  int per = vp_pick("per", 5) + 1, i = 0, who = vp_pick("who", 2);
  struct Client *bc = w_client(boss); (void)bc; static const char *M[] = {"a!*@*", "b!*@*", "c!*@*", "d!*@*", "e!*@*"};
  if (who) w_send(boss, "MODE #x +b z!*@*"), w_pump(), follow(bob), w_clear_all();
  while (i < 5) { int n = per < 5 - i ? per : 5 - i; char *f = w_fmt("MODE #x +%s", "bbbbb" + 5 - n); for (int k = 0; k < n; k++) f = w_fmt("%s %s", f, M[i + k]); w_clear_all(); w_send(boss, f); w_pump(); boss_changes(); follow(bob); i += n; if (ncur == 3 && i > 3) { vp_assert(w_count(boss, " 478 boss #x ") >= 1, "refusing a ban for lack of room is reported"); vp_reach("full"); } }
  vp_assert(ncur == 3, "a user can fill but not exceed the ban list"); list_is_current(); vp_reach("ok");
#elif RUN == 4
  static const char *M[] = {"abc!*@*", "ab*!*@*", "xyz!*@*", "*!*@*"}; static const unsigned char cov[4][4] = {{1,0,0,0},{1,1,0,0},{0,0,1,0},{1,1,1,1}}; int have[4] = {0}; int init = vp_pick("initial", 5); if (init == 1 || init == 4) { have[0] = 1; w_send(boss, "MODE #x +b abc!*@*"); } if (init == 2) { have[1] = 1; w_send(boss, "MODE #x +b ab*!*@*"); } if (init == 3 || init == 4) { have[2] = 1; w_send(boss, "MODE #x +b xyz!*@*"); } w_pump(); follow(bob); int old[4]; for (int i = 0; i < 4; i++) old[i] = have[i];
  int sg[3], mk[3], again = 0; for (int i = 0; i < 3; i++) { int v = vp_pick("change", 8); sg[i] = v & 1; mk[i] = v >> 1; int m = mk[i]; if (sg[i]) { int dup = 0; for (int q = 0; q < 4; q++) dup |= have[q] && cov[q][m]; if (!dup) { for (int q = 0; q < 4; q++) if (cov[m][q]) have[q] = 0; again |= old[m]; /* set anew */ have[m] = 1; } } else for (int q = 0; q < 4; q++) if (cov[m][q]) have[q] = 0; }
  w_clear_all(); w_send(boss, w_fmt("MODE #x %sb%sb%sb %s %s %s", sg[0] ? "+" : "-", sg[1] ? "+" : "-", sg[2] ? "+" : "-", M[mk[0]], M[mk[1]], M[mk[2]])); w_pump(); int n = boss_changes(); follow(bob); int real[4] = {0}, other = 0; for (struct Ban *b = CH->banlist; b; b = b->next) { int f = 0; for (int q = 0; q < 4; q++) if (w_eq(b->banstr, M[q])) { f = 1; real[q]++; } other |= !f; }
  int diff = 0; for (int q = 0; q < 4; q++) { diff |= old[q] != have[q]; if (have[q] && !old[q]) vp_reach("add"); if (old[q] && !have[q]) vp_reach("del"); vp_assert(real[q] == have[q], "several ban changes in one command act one after the other"); int shown = 0; for (int i = 0; i < ncur; i++) shown += w_eq(cur[i], M[q]); vp_assert(shown == have[q], "members see the bans that are set"); } vp_assert(!other && (diff ? n == 1 : n <= again), "exactly the changes are announced"); if (!diff) vp_reach("same"); list_is_current();
#else
  unsigned char c[4] = {0}; for (int i = 0; i < 3; i++) { c[i] = vp_byte("mask"); vp_assume(c[i] > ' ' && c[i] < 127); } vp_assume(c[0] != ':');
  w_clear_all(); char cmd[40] = "MODE #x +b xxx"; memcpy(cmd + 11, c, 3); w_send(boss, cmd); w_pump(); vp_assert(w_count(bob, " MODE #x +b ") == 1, "a first ban is always set and shown");
  char *m = strstr(w_find(bob, " MODE #x +b "), "+b ") + 3; int ex = -1, at = -1, n = strlen(m); for (int i = 0; i < n; i++) { if (m[i] == '!' && ex < 0) ex = i; if (m[i] == '@') at = i; }
  vp_assert(ex >= 0 && at > ex, "a ban mask always has nick, user and host parts"); vp_reach("set");
  w_clear_all(); w_send(boss, w_fmt("MODE #x +b %s", m)); w_pump(); vp_assert(w_count(bob, " MODE #x ") == 0, "setting the same ban again changes nothing");
  w_clear_all(); w_send(boss, w_fmt("MODE #x -b %s", m)); w_pump(); vp_assert(w_count(bob, w_fmt(" MODE #x -b %s", m)) == 1, "a ban is removed under the mask it was shown with"); vp_assert(CH->banlist == 0, "the list is empty again"); vp_reach("norm");
#endif
}
#if RUN == 2
const char *vp_features = "\"MAXBANS\" = \"3\"; \"AVBANLEN\" = \"40\";";
#endif
