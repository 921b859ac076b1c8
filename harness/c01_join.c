/* @property C01
 * @quick time=120 RUN=1 label=join j=5
 * @quick time=60 RUN=2 label=several j=3
 * @reach join:in join:out join:invited join:keyed join:full join:adm join:opped several:in several:out several:zero several:made
 * @bounds one user joining an existing channel: every combination of modes +irZ, user limit 0..6, key, manager/operator passwords x supplied key {none, channel key, manager password, operator password, wrong, channel key or manager password in other letter case} x {no ban, host ban, address-range ban, account-host ban, non-matching ban} x account x TLS x invitation x banned channel name x number of channels already joined; JOIN of any three of {keyed channel, other channel with or without key, new channel, bad name, 0} with five lists of keys
 * @outside joins by operators, local (&) channels, target limits on joining, delayed-join channels (C13)
 */
#include "chan.inc"
#if RUN == 2
void vp_scenario(void) {
  std_network(); std_channel("#x"); w_send(boss, "JOIN #y"); w_send(boss, "MODE #x +k chkey"); int ky = vp_pick("keyed", 2); if (ky) w_send(boss, "MODE #y +k yk"); int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al); int was = vp_pick("was", 2); if (was) { w_send(al, "JOIN #old"); } w_pump(); w_clear_all();
  static const char *nm[] = {"#x", "#y", "#new", "x", "0"}, *ks[] = {"", " chkey", " yk,chkey", " chkey,yk", " ,chkey,yk"}; static const char *kk[5][3] = {{"", "", ""}, {"chkey", "", ""}, {"yk", "chkey", ""}, {"chkey", "yk", ""}, {"", "chkey", "yk"}};
  int c[3], k = vp_pick("keys", 5), in[3] = {0}, old = was, zero = 0; for (int i = 0; i < 3; i++) c[i] = vp_pick("chan", 5);
  /* everything before the last 0 is undone by it; keys belong to the names after it, in order */
  int from = 0; for (int i = 0; i < 3; i++) if (c[i] == 4) { from = i + 1; zero = 1; } if (zero) old = 0; for (int i = from; i < 3; i++) { const char *key = kk[k][i - from]; if (c[i] == 0 && w_eq(key, "chkey")) in[0] = 1; if (c[i] == 1 && (!ky || w_eq(key, "yk"))) in[1] = 1; if (c[i] == 2) in[2] = 1; }
  w_send(al, w_fmt("JOIN %s,%s,%s%s", nm[c[0]], nm[c[1]], nm[c[2]], ks[k])); w_pump();
  for (int i = 0; i < 3; i++) { struct Channel *ch = FindChannel(nm[i]); int is = ch && find_member_link(ch, a); vp_assert(is == in[i], "each channel named is joined by its own key"); vp_assert(w_count(al, w_fmt(" JOIN %s", nm[i])) == in[i], "each join is announced once"); int s = w_count(L2, w_fmt(" J %s", nm[i])) + w_count(L2, w_fmt(" C %s", nm[i])) + (w_count(L2, w_fmt(",%s", nm[i])) != 0); vp_assert(s == in[i], "each join is told to servers once"); vp_assert(w_count(boss, w_fmt(" JOIN %s", nm[i])) == (i < 2 && in[i]), "each join is announced once"); }
  struct Channel *o = FindChannel("#old"); vp_assert((o && find_member_link(o, a)) == old, "0 leaves the channels joined before"); vp_assert(w_count(al, " 475 alice ") <= 3, "harness"); if (in[0] || in[1]) vp_reach("in"); else vp_reach("out"); if (zero && was) vp_reach("zero"); if (in[2]) { vp_reach("made"); vp_assert(IsChanOp(find_member_link(FindChannel("#new"), a)), "who makes a channel operates it"); }
  if (zero) vp_assert(w_count(L2, " J 0") == 1, "servers are told of a 0"); else vp_assert(w_count(L2, " J 0") == 0, "servers are told of a 0"); 
}
#else
void vp_scenario(void) {
  std_network(); std_channel("#x");
  int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al);
  int ban = vp_pick("ban", 5);
  if (ban == 1) w_send(boss, "MODE #x +b *!*@10.0.0.5"); if (ban == 2) w_send(boss, "MODE #x +b *!al*@10.0.0.0/24"); if (ban == 3) w_send(boss, "MODE #x +b *!*@10.0.0.55"); if (ban == 4) w_send(boss, "MODE #x +b *!*@acct.users.undernet.org");
  int key = vp_pick("key", 2), ap = vp_pick("apass", 2), give = vp_pick("give", 7), inv = vp_pick("invited", 2);
  if (inv) w_send(boss, "INVITE alice #x");
  if (key) strcpy(CH->mode.key, "chkey"); if (ap) { strcpy(CH->mode.apass, "manpass"); strcpy(CH->mode.upass, "oppass"); }
  int badchan = !inv && !ap && vp_pick("badchan", 2); if (badchan) { w_send(L1, w_fmt("AC GL * +#x 3600 %l :no", (long)w_now)); }
  w_pump();
  unsigned mi = vp_bool("i"), mr = vp_bool("r"), mZ = vp_bool("Z"), acct = vp_bool("account"), tls = vp_bool("tls"); int lim = vp_range("limit", 0, 6), joined = vp_range("joined", 0, 30);
  CH->mode.mode = symsel(symsel(symsel(CH->mode.mode, MODE_INVITEONLY, mi), MODE_REGONLY, mr), MODE_TLSONLY, mZ); CH->mode.limit = lim;
  SYMFLAG(a, FLAG_ACCOUNT, acct); SYMFLAG(a, FLAG_TLS, tls); strcpy(cli_user(a)->account, "acct"); cli_user(a)->joined = joined;
  static const char *keys[] = {"", " chkey", " manpass", " oppass", " wrong", " CHKEY", " MANPASS"};
  w_clear_all(); w_send(al, w_fmt("JOIN #x%s", keys[give])); w_pump();
  unsigned adm = ap && give == 2, op = ap && give == 3, byp = adm | op | inv;
  unsigned banned = (ban == 1 || ban == 2) ? 1u : ban == 4 ? acct : 0u, full = (unsigned)(lim != 0) & (unsigned)(lim <= 3), badkey = key && give != 1, reg = mr & (acct ^ 1u), tl = mZ & (tls ^ 1u);
  unsigned refuse = mi | full | reg | banned | badkey | tl, toomany = joined >= 10;
  unsigned want = (toomany | badchan | (refuse & (byp ^ 1u))) ^ 1u;
  struct Membership *m = find_member_link(CH, a); int in = m != 0;
  vp_assert(in == want, "a user enters a channel iff its modes, key, bans and limit admit them");
  int nj = w_count(bob, ":alice!alice@10.0.0.5 JOIN #x") + 0, nj2 = w_count(boss, " JOIN #x"), na = w_count(al, ":alice!alice@10.0.0.5 JOIN #x"), ns = w_count(L1, w_fmt("%s%s J #x ", cli_yxx(&me), cli_yxx(a))), ns2 = w_count(L2, " J #x "), nb = 0;
  if (in) {
    vp_assert(nj == 1 && nj2 == 1 && na == 1 && ns == 1 && ns2 == 1, "a join is announced once to members, to the user and to every server");
    vp_assert(w_count(al, " 366 alice #x ") == 1, "the joining user receives the member list");
    vp_assert(!!IsChanOp(m) == (adm | op), "operator status on joining only with a password");
    vp_assert(CH->users == 4, "member count follows the join");
    vp_assert(w_count(L1, " OM #x ") + w_count(L1, " M #x +o") == (int)(adm | op), "servers learn of operator status given on joining");
    if (inv) vp_reach("invited"); if (key) vp_reach("keyed"); if (adm) vp_reach("adm"); if (op) vp_reach("opped"); vp_reach("in");
    /* the invitation is used up */
    w_send(al, "PART #x"); w_pump(); cli_user(a)->joined = 0; w_clear_all(); w_send(al, w_fmt("JOIN #x%s", keys[give])); w_pump();
    unsigned again = (refuse & ((adm | op) ^ 1u)) ^ 1u; vp_assert((find_member_link(CH, a) != 0) == again, "an invitation admits once");
  } else {
    vp_assert(nj == 0 && nj2 == 0 && na == 0 && ns == 0 && ns2 == 0, "a refused join is announced to nobody"); vp_assert(CH->users == 3, "a refused join leaves the membership alone");
    int e1 = w_count(al, " 473 alice #x"), e2 = w_count(al, " 471 alice #x"), e3 = w_count(al, " 477 alice #x"), e4 = w_count(al, " 474 alice #x"), e5 = w_count(al, " 475 alice #x"), e6 = w_count(al, " 469 alice #x"), e7 = w_count(al, " 405 alice #x");
    vp_assert(e1 + e2 + e3 + e4 + e5 + e6 + e7 == 1, "a refused join gets one explanation");
    vp_assert((e1 ? mi : e2 ? full : e3 ? reg : e4 ? (banned | badchan) : e5 ? badkey : e6 ? tl : toomany) == 1u, "the explanation names a reason that applies"); if (e2) vp_reach("full"); vp_reach("out");
  }
}
#endif
