/* @property C14
 * @quick time=200 RUN=1 N=2 label=clear j=8
 * @quick time=100 RUN=2 label=right j=4
 * @quick time=100 RUN=3 label=force j=4
 * @thorough time=900 RUN=1 N=3 label=clear j=8
 * @thorough time=100 RUN=2 label=right j=4
 * @thorough time=300 RUN=3 DEEP label=force j=8
 * @reach clear:changed clear:nothing clear:refused clear:default clear:delayed clear:speaks right:done right:refused right:quarantine right:forced right:nosuch force:local force:remote force:server
 * @bounds clear: CLEARMODE with no or N (2, thorough 3) letters out of all mode letters and unknown ones, by an operator here (a member or not), a server, an operator or an ordinary user behind it, against five channel states; right: CLEARMODE and OPMODE by a user, local and global operator with every combination of the four privileges, on global, local, quarantined, absent and invalid channels, forced or not; force: OPMODE by an operator here or elsewhere or a server with each of a list of mode changes, against three states and a delayed join
 * @outside OPMODE with user targets (U08, A05), oplevels and passwords (C12), quarantine added later, whether removing a key that is not set is announced
 */
#include "chan.inc"
#include "mview.inc"
static struct mview V;
const char *vp_features = "\"HUB\" = \"TRUE\"; \"CONFIG_OPERCMDS\" = \"TRUE\"; ";
const char *vp_conf_extra = "Quarantine { \"#quar\" = \"closed\"; \"&quar\" = \"closed too\"; };\n";
static int eqc(int fd, const char *l) { int n = w_lines(fd), c = 0; for (int i = 0; i < n; i++) if (w_eq(w_line(fd, i), l)) c++; return c; }
static int nban(struct Channel *c) { int n = 0; for (struct Ban *b = c->banlist; b; b = b->next) n++; return n; }
static const char LET[] = "psmtinrDcCuMZ";
static const unsigned BIT[] = { MODE_PRIVATE, MODE_SECRET, MODE_MODERATED, MODE_TOPICLIMIT, MODE_INVITEONLY, MODE_NOPRIVMSGS, MODE_REGONLY, MODE_DELJOINS, MODE_NOCOLOR, MODE_NOCTCP, MODE_NOPARTMSGS, MODE_MODERATENOREG, MODE_TLSONLY };
static const char *nk[] = {"bob", "carol", "dave", "eve"};
static int st(struct Channel *c, int i) { struct Client *u = FindUser(nk[i]); struct Membership *m = u ? find_member_link(c, u) : 0; return m ? 1 | (IsChanOp(m) ? 2 : 0) | (HasVoice(m) ? 4 : 0) : 0; }
void vp_scenario(void) {
  std_network(); struct Client *b = w_client(boss); const char *yb = w_fmt("AB%s", cli_yxx(b)), *ybob = w_fmt("AB%s", cli_yxx(w_client(bob))); const char *HIS = "*.undernet.org"; (void)HIS; (void)ybob;
#if RUN == 1 || RUN == 3
  /* bob op, carol op+voice behind leaf1, dave voice behind leaf2, eve a local member (op as well in state 2, or hidden) */
  int eve = w_user("eve", "10.0.0.7"); long T = 1700000000 - 1000; int state = vp_pick("state", RUN == 1 ? 5 : 3);
  w_send(L1, w_fmt("AC B #x %l %s ACAAA:ov", T, state == 0 ? "+pmtiDcuMk key" : state == 1 ? "+snrCZl 20" : state == 2 ? "+psmtinDrcCuMZkl key 30" : state == 4 ? "+snCl 20" : "+D")); w_send(L1, "ACAAA I bob #x"); w_send(L1, "ACAAA I eve #x");
  if (state == 1 || state == 2) { w_send(L1, w_fmt("AC M #x -rZ %l", T)); }
  w_send(bob, "JOIN #x key"); if (state != 3) w_send(eve, "JOIN #x key"); w_send(L2, w_fmt("ADAAA J #x %l", T)); w_send(L1, w_fmt("AC M #x +ov %s ADAAA %l", ybob, T)); if (state != 3) w_send(L1, w_fmt("AC M #x %s AB%s %l", state == 2 ? "+o" : "+v", cli_yxx(w_client(eve)), T)); w_pump();
  if (state == 2) { w_send(L1, w_fmt("AC M #x +bbb a!*@* *!b@* *!*@c %l", T)); w_send(L1, w_fmt("AC M #x +bbb d!*@* *!e@* *!*@f %l", T)); } else if (state == 0) w_send(L1, w_fmt("AC M #x +b a!*@* %l", T)); if (state == 1 || state == 2) w_send(L1, w_fmt("AC M #x +rZ %l", T)); w_pump(); if (state == 3) { w_send(eve, "JOIN #x"); w_pump(); }
#if RUN == 1
  int zed = -1; if (state == 4) { zed = w_user("zed", "10.0.0.8"); w_send(zed, "JOIN #x"); w_send(L1, w_fmt("AC M #x +b zed!*@* %l", T)); w_pump(); w_clear_all(); w_send(zed, "PRIVMSG #x :hi"); w_pump(); vp_assert(w_count(zed, " 404 ") == 1 && !w_count(bob, "PRIVMSG"), "harness: banned"); }
#endif
  CH = FindChannel("#x"); vp_assert(CH && st(CH, 0) == 3 && st(CH, 1) == 7 && st(CH, 2) == 5 && (st(CH, 3) & 1), "harness: channel"); if (state == 3) vp_assert(IsDelayedJoin(find_member_link(CH, w_client(eve))), "harness: hidden");
  w_send(L1, "ACAAA I boss #x"); w_pump();
  int who = vp_pick("who", 5); /* 0 operator here, 1 the same on the channel, 2 server, 3 operator elsewhere, 4 user elsewhere */ if (who == 1) { w_send(L1, w_fmt("ABAAA")); w_send(boss, "JOIN #x key"); w_pump(); if (!find_member_link(CH, b)) vp_end(); } if (who < 2) w_oper(boss); if (who == 3) w_send(L1, "ACAAA M carol +o"); if (RUN == 3 && who == 4) vp_end(); w_pump(); w_advance(15); w_clear_all();
  /* what bob knows */
  unsigned was = CH->mode.mode; int lim = CH->mode.limit, key = CH->mode.key[0] != 0, bans = nban(CH), s0[4]; memset(&V, 0, sizeof V); for (int i = 0; LET[i]; i++) if (was & BIT[i]) V.flags |= 1u << mv_flag(LET[i]); V.limit = lim; V.key = key; for (struct Ban *x = CH->banlist; x; x = x->next) strcpy(V.bans[V.nban++], x->banstr); for (int i = 0; i < 4; i++) { s0[i] = st(CH, i); int k = mv_mem(&V, nk[i]); V.op[k] = !!(s0[i] & 2); V.vo[k] = !!(s0[i] & 4); }
  const char *src = who < 2 ? yb : who == 2 ? "AC" : "ACAAA"; int ofd = who < 2 ? -1 : L1;
#endif
#if RUN == 1
  static const char all[] = "ovpsmtinkblrDcCuMZAUdzRx+-"; char ctl[8]; int n = 0, dflt = who < 2 && vp_pick("default", 2); if (dflt) strcpy(ctl, ""); else { for (int i = 0; i < N; i++) ctl[n++] = all[vp_pick("letter", 26)]; ctl[n] = 0; }
  if (who < 2) w_send(boss, dflt ? "CLEARMODE #x" : w_fmt("CLEARMODE #x %s", ctl)); else w_send(L1, w_fmt("%s CM #x %s", src, ctl)); w_pump(); const char *eff = dflt ? "ovpsmikbl" : ctl; int allowed = who != 4; if (!allowed) vp_reach("refused"); if (dflt) vp_reach("default");
  static const char order[] = "ovpsmtinkblrDcCuMZ"; char named[24]; int nn = 0; for (int i = 0; order[i]; i++) if (allowed && strchr(eff, order[i])) named[nn++] = order[i]; named[nn] = 0;
  unsigned want = was; for (int i = 0; LET[i]; i++) if (strchr(named, LET[i])) want &= ~BIT[i]; unsigned mask = 0; for (int i = 0; LET[i]; i++) mask |= BIT[i];
  vp_assert((CH->mode.mode & mask) == (want & mask), "exactly the modes named are cleared"); int dk = key && strchr(named, 'k'), dl = lim && strchr(named, 'l'), db = bans && strchr(named, 'b'); vp_assert((CH->mode.key[0] != 0) == (key && !dk), "the key only if named"); vp_assert((CH->mode.limit != 0) == (lim && !dl), "the limit only if named"); vp_assert(nban(CH) == (db ? 0 : bans), "the bans only if named");
  int ch = (was & mask) != (want & mask) || dk || dl || db; for (int i = 0; i < 4; i++) { int w = s0[i] & ~(strchr(named, 'o') ? 2 : 0) & ~(strchr(named, 'v') ? 4 : 0); vp_assert(st(CH, i) == w, "and the status of members only if named"); ch |= w != s0[i]; }
  int m0 = w_count(bob, " MODE #x "); vp_assert((m0 > 0) == ch, "members are told if something changed"); if (ch) vp_assert(w_starts(w_find(bob, " MODE #x "), w_fmt(":%s MODE #x ", HIS)), "not by whom"); mv_feed(&V, bob, "#x"); for (int i = 0; LET[i]; i++) vp_assert(mv_has(&V, LET[i]) == !!(want & BIT[i]), "members see exactly the changes"); vp_assert(V.key == (key && !dk) && V.limit == (dl ? 0 : lim), "of key and limit"); for (int i = 0; i < V.nban; i++) vp_assert(!V.bans[i][0] == !!db, "of bans"); for (int i = 0; i < 4; i++) { int k = mv_mem(&V, nk[i]); vp_assert(V.op[k] == !!(st(CH, i) & 2) && V.vo[k] == !!(st(CH, i) & 4), "and of members"); }
  vp_reach(ch ? "changed" : "nothing"); for (int p = 0; p < 2; p++) { int fd = p ? L2 : L1; if (fd == ofd) { if (who != 4) vp_assert(!w_out(fd)[0], "nothing goes back to the asking server"); else vp_assert(!w_count(fd, " CM ") && !w_count(fd, " M "), "a refusal changes nothing"); } else vp_assert(w_count(fd, " CM ") == (nn > 0) && !w_count(fd, " M ") && !w_count(fd, " OM ") && (!nn || eqc(fd, w_fmt("%s CM #x %s", src, named)) == 1), "each other server is told once, of exactly that"); }
  if (state == 3) { vp_reach("delayed"); vp_assert(!w_count(bob, "JOIN") && IsDelayedJoin(find_member_link(CH, w_client(eve))), "who joined unseen stays so"); vp_assert(!!(CH->mode.mode & (MODE_DELJOINS | MODE_WASDELJOINS)), "and the channel remembers that some are unseen"); }
  if (allowed && strchr(named, 'i')) { for (struct SLink *l = cli_user(b)->invited; l; l = l->next) vp_assert(l->value.chptr != CH, "invitations end with +i"); } else if (who != 1) { int in = 0; for (struct SLink *l = cli_user(b)->invited; l; l = l->next) in |= l->value.chptr == CH; vp_assert(in, "and otherwise stay"); }
  if (zed >= 0) { w_clear_all(); w_send(zed, "PRIVMSG #x :hi"); w_pump(); vp_assert(w_count(bob, "PRIVMSG #x :hi") == db, "who was banned may speak once the bans are gone, not before"); vp_reach("speaks"); }
#elif RUN == 2
  static const char *cn[] = {"#g", "&l", "#quar", "&quar", "#none", "bogus", "#G"}; int ci = vp_pick("channel", 7), kind = vp_pick("kind", 3), cmd = vp_pick("cmd", 2), bang = vp_pick("bang", 2); w_send(bob, "JOIN #g"); w_send(bob, "JOIN &l"); w_send(bob, "JOIN #quar"); w_send(bob, "JOIN &quar"); w_send(bob, "MODE #g +t"); w_send(bob, "MODE &l +t"); w_send(bob, "MODE #quar +t"); w_send(bob, "MODE &quar +t"); w_pump(); if (kind) w_oper(boss); if (kind == 1) { ClrFlag(b, FLAG_OPER); SetFlag(b, FLAG_LOCOP); }
  int po = vp_pick("opmode", 2), pl = vp_pick("local", 2), fo = vp_pick("force", 2), fl = vp_pick("forcelocal", 2); if (kind) { po ? SetPriv(b, PRIV_OPMODE) : ClrPriv(b, PRIV_OPMODE); pl ? SetPriv(b, PRIV_LOCAL_OPMODE) : ClrPriv(b, PRIV_LOCAL_OPMODE); fo ? SetPriv(b, PRIV_FORCE_OPMODE) : ClrPriv(b, PRIV_FORCE_OPMODE); fl ? SetPriv(b, PRIV_FORCE_LOCAL_OPMODE) : ClrPriv(b, PRIV_FORCE_LOCAL_OPMODE); }
  w_advance(30); w_clear_all(); w_send(boss, w_fmt("%s %s%s %s", cmd ? "CLEARMODE" : "OPMODE", bang ? "!" : "", cn[ci], cmd ? "t" : "-t")); w_pump(); int loc = ci == 1 || ci == 3, q = ci == 2 || ci == 3, ex = ci < 4 || ci == 6; int ok = kind && (loc ? pl : po) && (!bang || (loc ? fl : fo)) && ex && (!q || bang);
  static const char *real[] = {"#g", "&l", "#quar", "&quar"}; for (int i = 0; i < 4; i++) { struct Channel *c = FindChannel(real[i]); int hit = ok && (ci == i || (ci == 6 && i == 0)); vp_assert(!!(c->mode.mode & MODE_TOPICLIMIT) == !hit, "the channel changes exactly if the operator is entitled"); vp_assert(w_count(bob, w_fmt(" MODE %s -t", real[i])) == hit, "and its members are told"); }
  vp_assert(w_count(L1, cmd ? " CM #" : " OM #") == (ok && !loc) && w_count(L2, cmd ? " CM #" : " OM #") == (ok && !loc) && w_lines(L1) == (ok && !loc) && w_lines(L2) == (ok && !loc), "servers are told exactly of what concerns them"); if (ok && !loc) vp_assert(eqc(L1, cmd ? w_fmt("%s CM %s t", yb, real[ci == 6 ? 0 : ci]) : w_fmt("%s OM %s -t", yb, real[ci == 6 ? 0 : ci])) == 1, "as asked");
  vp_assert((w_count(boss, ":vp.test.net 4") + w_count(boss, ":vp.test.net 5") + w_count(boss, ":vp.test.net 6") == 1) == !ok, "a refusal is explained"); vp_reach(ok ? q ? "forced" : "done" : "refused"); if (!ok && kind && q && !bang && (loc ? pl : po)) vp_reach("quarantine"); if (kind && po && pl && !bang && !ex) vp_reach("nosuch");
#else
  static const struct { const char *t; unsigned add, del; int key, lim, ban; int o[4], v[4]; } c[] = { /* key, lim: 0 same, 1 set, -1 gone; ban: +1, -1; o, v: 1 given, -1 taken */
    {"+m", MODE_MODERATED}, {"-m", 0, MODE_MODERATED}, {"+s", MODE_SECRET, MODE_PRIVATE}, {"+k newkey", 0, 0, 1}, {"-k wrong", 0, 0, -1}, {"+l 7", 0, 0, 0, 1}, {"-l", 0, 0, 0, -1}, {"+b new!*@*", 0, 0, 0, 0, 1}, {"-b a!*@*", 0, 0, 0, 0, -1}, {"+o dave", 0, 0, 0, 0, 0, {0, 0, 1, 0}}, {"-o bob", 0, 0, 0, 0, 0, {-1}}, {"-o carol", 0, 0, 0, 0, 0, {0, -1}}, {"-oo bob carol", 0, 0, 0, 0, 0, {-1, -1}}, {"-v dave", 0, 0, 0, 0, 0, {0}, {0, 0, -1, 0}}, {"+o-v+i-t dave carol", MODE_INVITEONLY, MODE_TOPICLIMIT, 0, 0, 0, {0, 0, 1}, {0, -1}}, {"+o nobody"}, {"+o eve", 0, 0, 0, 0, 0, {0, 0, 0, 1}}, {"-D+n", MODE_NOPRIVMSGS, MODE_DELJOINS} };
  int svc = vp_pick("service", 2), ci = vp_pick("change", 18); if (svc) SetFlag(FindUser("carol"), FLAG_CHSERV);
  char arg[100]; { const char *nm[] = {"bob", "carol", "dave", "eve", "nobody"}; const char *yx[] = {ybob, "ACAAA", "ADAAA", w_fmt("AB%s", cli_yxx(w_client(eve))), "ADAZZ"}; const char *p = c[ci].t; int o = 0; if (who < 2) strcpy(arg, p); else { while (*p) { int hit = 0; if (p[-(p > c[ci].t)] == ' ') for (int i = 0; i < 5; i++) if (!strncmp(p, nm[i], strlen(nm[i]))) { strcpy(arg + o, yx[i]); o += strlen(yx[i]); p += strlen(nm[i]); hit = 1; break; } if (!hit) arg[o++] = *p++; } arg[o] = 0; } }
  if (who < 2) w_send(boss, w_fmt("OPMODE #x %s", arg)); else w_send(L1, w_fmt("%s OM #x %s", src, arg)); w_pump();
  unsigned mask = 0; for (int i = 0; LET[i]; i++) mask |= BIT[i]; unsigned want = ((was | c[ci].add) & ~c[ci].del) & mask; vp_assert((CH->mode.mode & mask) == want, "exactly the modes asked for change"); vp_assert(c[ci].key == 1 ? w_eq(CH->mode.key, "newkey") : (CH->mode.key[0] != 0) == (c[ci].key < 0 ? 0 : key), "and the key"); vp_assert(CH->mode.limit == (c[ci].lim == 1 ? 7u : c[ci].lim ? 0u : (unsigned)lim), "and the limit"); int hasa = state != 1; vp_assert(nban(CH) == bans + (c[ci].ban > 0) - (c[ci].ban < 0 && hasa), "and the bans"); int ch = want != (was & mask) || (c[ci].key == 1) || (c[ci].key < 0 && key) || (c[ci].lim > 0 && lim != 7) || (c[ci].lim < 0 && lim) || c[ci].ban > 0 || (c[ci].ban < 0 && hasa);
  for (int i = 0; i < 4; i++) { int w = s0[i]; if (c[ci].o[i] > 0) w |= 2; if (c[ci].o[i] < 0) w &= ~2; if (c[ci].v[i] > 0) w |= 4; if (c[ci].v[i] < 0) w &= ~4; vp_assert(st(CH, i) == w, "and the members, whoever they are"); ch |= w != s0[i]; }
  int m0 = w_count(bob, " MODE #x "); if (!(c[ci].key < 0 && !key)) vp_assert(m0 == ch, "members are told once"); else vp_assert(m0 <= 1, "members are told once"); if (m0) vp_assert(w_starts(w_find(bob, " MODE #x "), w_fmt(":%s MODE #x ", HIS)), "not by whom"); mv_feed(&V, bob, "#x"); for (int i = 0; LET[i]; i++) vp_assert(mv_has(&V, LET[i]) == !!(want & BIT[i]), "members see exactly the changes"); vp_assert(V.key == (CH->mode.key[0] != 0) && V.limit == (int)CH->mode.limit, "of key and limit"); for (int i = 0; i < 4; i++) { int k = mv_mem(&V, nk[i]); vp_assert(V.op[k] == !!(st(CH, i) & 2) && V.vo[k] == !!(st(CH, i) & 4), "and of members"); }
  for (int p = 0; p < 2; p++) { int fd = p ? L2 : L1; if (fd == ofd) vp_assert(!w_count(fd, " OM "), "nothing goes back to the asking server"); else { vp_assert(w_count(fd, " OM #x ") == m0 && !w_count(fd, " M #x "), "each other server is told once"); if (m0) vp_assert(w_count(fd, w_fmt("%s OM #x ", src)) == 1, "by whom"); } } vp_reach(who < 2 ? "local" : who == 2 ? "server" : "remote");
#endif
}
