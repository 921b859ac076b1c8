/* @property U08
 * @quick time=60 RUN=1 label=local j=6
 * @quick time=60 RUN=2 label=remote j=4
 * @quick time=60 RUN=3 label=off j=3
 * @reach local:hidden local:half local:chghost local:rejoin local:refused local:self remote:hidden remote:half remote:refused off:shown
 * @bounds two steps, each one of {MODE +x, a login stated by an entitled server, by another server, by a user, a second login with the same or another name or number, or other flags, names of 12 or 13 bytes} for a local or remote user in a channel, as {plain, operator, voice, both, delayed} and perhaps away, seen by a channel member with capabilities {none, chghost, account-notify, extended-join, away-notify, all}, by one without a common channel, and by the user itself with or without chghost; hiding enabled or disabled
 * @outside logins at registration (U01), account numbers given later than the name, account numbers beyond 2^31, S-lines
 */
#include "chan.inc"
#ifndef RUN
#define RUN 1
#endif
const char *vp_conf_extra = "UWorld { name = \"leaf2.test.net\"; };\n";
#if RUN == 3
const char *vp_features = "\"HOST_HIDING\" = \"FALSE\"; ";
#endif
static int has(int fd, const char *p) { return w_count(fd, p); }
static int sightings(int fd, const char *h) { return w_count(fd, h); }
void vp_scenario(void) {
  L1 = w_server("leaf1.test.net", "AC", 101); L2 = w_server("leaf2.test.net", "AD", 102);
  w_send(L1, "AC N carol 1 1600000000 carol host.carol +i AKAABn ACAAA :carol real"); w_send(L2, "AD N dave 1 1600000000 dave host.dave +i AKAABo ADAAA :dave real");
  int bo = w_user("bob", "10.0.0.6"), st = w_user("stan", "10.0.0.7"), al = 0; w_send(bo, "JOIN #x"); w_send(st, "JOIN #y"); w_pump(); CH = FindChannel("#x");
#if RUN != 2
  al = w_user("alice", "10.0.0.5"); w_send(al, "JOIN #x"); w_pump(); struct Client *a = w_client(al); const char *nick = "alice", *user = "alice", *real = "10.0.0.5", *info = cli_info(a);
#else
  w_send(L1, w_fmt("ACAAA J #x %l", (long)w_now)); w_pump(); struct Client *a = FindUser("carol"); const char *nick = "carol", *user = "carol", *real = "host.carol", *info = "carol real";
#endif
  char num[8]; strcpy(num, w_fmt("%s%s", cli_yxx(cli_user(a)->server), cli_yxx(a))); struct Membership *m = find_member_link(CH, a); vp_assert(m != 0, "harness: member");
  int as = vp_pick("as", 5), away = vp_pick("away", 2), cap = vp_pick("cap", 6), self = al ? vp_pick("self", 2) : 0; static const char *caps[] = {"", "chghost", "account-notify", "extended-join", "away-notify", "chghost account-notify extended-join away-notify"};
  int op = as == 1 || as == 3, vo = as == 2 || as == 3, del = as >= 4; m->status = (m->status & ~(CHFL_CHANOP | CHFL_VOICE)) | (op ? CHFL_CHANOP : 0) | (vo ? CHFL_VOICE : 0) | (del ? CHFL_DELAYED : 0); if (del) CH->mode.mode |= MODE_DELJOINS;
  if (away) { if (al) w_send(al, "AWAY :gone"); else w_send(L1, "ACAAA A :gone"); } if (cap) w_send(bo, w_fmt("CAP REQ :%s", caps[cap])); if (self) w_send(al, "CAP REQ :chghost"); w_pump(); w_advance(20);
  int cgh = cap == 1 || cap == 5, can = cap == 2 || cap == 5, cej = cap == 3 || cap == 5, caw = cap == 4 || cap == 5; 
  const char *acct = 0; int x = 0, theid = 0, hide = RUN != 3;
  for (int i = 0; i < 2; i++) {
    int ev = vp_pick("event", i ? 10 : 7), was = acct && x; static const char *names[] = {0, "acct", "abcdefghijkl", "abcdefghijklm", "acct", "acct", "bcct", "acct", "acct", "acct"}; w_clear_all(); const char *nm = names[ev]; int valid = 0, newacct = 0, newx = 0, id = ev == 1 || ev == 2 || ev == 9 ? 12345 : ev == 8 ? 54321 : 0, fl = ev == 9 ? 0 : 6;
    if (ev == 0) { if (al) w_send(al, "MODE alice +x"); else w_send(L1, "ACAAA M carol +x"); newx = !x && (hide || !al); x |= hide || !al; }
    else { if (ev == 4) w_send(L1, w_fmt("AC AC %s %s", num, nm)); else if (ev == 5) w_send(L2, w_fmt("ADAAA AC %s %s", num, nm)); else if (id) w_send(L2, w_fmt("AD AC %s %s %d %d", num, nm, id, fl)); else w_send(L2, w_fmt("AD AC %s %s", num, nm)); valid = ev != 3 && ev != 4 && ev != 5 && (!acct || (!strcmp(acct, nm) && (!id || !theid || id == theid))); newacct = valid && !acct; if (newacct) { acct = nm; theid = id; } }
    w_pump(); int now = acct && x, turn = now && !was; char vis[64]; strcpy(vis, now ? w_fmt("%s.users.undernet.org", acct) : real);
    vp_assert(w_eq(cli_user(a)->host, vis), "the visible host is the hidden one exactly when logged in and +x"); vp_assert(w_eq(cli_user(a)->account, acct ? acct : "") && (IsAccount(a) != 0) == (acct != 0), "only an entitled server's first login is accepted"); vp_assert(w_eq(cli_user(a)->realhost, real), "the real host stays known to the server");
    /* servers */
    if (ev) { vp_assert(has(L1, " AC ") == valid && has(L2, " AC ") == 0, "a login is passed on once, away from its source"); if (valid) { int ok = w_starts(w_find(L1, " AC "), w_fmt("AD AC %s %s", num, nm)); vp_assert(ok, "a login is passed on intact"); if (id && theid) vp_assert(w_eq(w_find(L1, " AC "), w_fmt("AD AC %s %s %d %d", num, nm, id, fl)), "a login is passed on intact"); else if (theid) vp_assert(w_eq(w_find(L1, " AC "), w_fmt("AD AC %s %s %d", num, nm, theid)), "a login is passed on intact"); } }
    if (!valid && ev) vp_reach("refused");
    /* the member */
    int jn = has(bo, w_fmt(":%s!%s@", nick, user)); (void)jn; char pre[96]; strcpy(pre, w_fmt(":%s!%s@%s ", nick, user, vis)); char old[96]; strcpy(old, w_fmt(":%s!%s@%s ", nick, user, real));
    int nq = has(bo, " QUIT :Registered"), nc = has(bo, " CHGHOST "), nj = has(bo, " JOIN "), nm_ = has(bo, " MODE "), na = has(bo, " ACCOUNT "), nw = has(bo, " AWAY ");
    vp_assert(na == ((newacct && can && !del) != 0), "a login is shown to members who asked for it, once");
    if (na) { vp_assert(w_eq(w_find(bo, " ACCOUNT "), w_fmt(":%s!%s@%s ACCOUNT %s", nick, user, real, acct)), "a login notice names the account"); }
    if (turn && !del && cgh) { vp_assert(nc == 1 && nq + nj + nm_ + nw == 0, "who understands host changes is told exactly that"); vp_assert(w_eq(w_find(bo, " CHGHOST "), w_fmt(":%s!%s@%s CHGHOST %s %s", nick, user, real, user, vis)), "a host change names the new host"); vp_reach(RUN == 2 ? "hidden" : "chghost"); }
    else if (turn && !del) { vp_assert(nq == 1 && nc == 0, "who does not understand host changes sees the old host leave"); vp_assert(w_eq(w_find(bo, " QUIT :Registered"), w_fmt("%sQUIT :Registered", old)), "who does not understand host changes sees the old host leave"); vp_assert(nj == !del, "and sees the new host join"); if (!del) { vp_assert(w_eq(w_find(bo, " JOIN "), cej ? w_fmt("%sJOIN #x %s :%s", pre, acct, info) : w_fmt("%sJOIN #x", pre)), "and sees the new host join"); vp_assert(nw == (away && caw), "an away member who rejoins is shown away"); }
      vp_assert(nm_ == (op | vo), "a rejoining member keeps its status"); if (nm_) { const char *want = op && vo ? w_fmt(" MODE #x +ov %s %s", nick, nick) : w_fmt(" MODE #x +%c %s", op ? 'o' : 'v', nick); vp_assert(w_eq(strstr(w_find(bo, " MODE "), " MODE "), want), "a rejoining member keeps its status"); } vp_reach("hidden"); vp_reach("rejoin"); }
    else { vp_assert(nq + nc + nj + nm_ + nw == 0, del ? "a member who has not been shown yet is not shown by a host change" : "without a change of the visible host members see none"); if ((acct != 0) != (x != 0)) vp_reach("half"); }
    /* the user itself */
    if (al) { vp_assert(has(al, " 396 ") == (turn && !self), "the user is told the new host"); vp_assert(has(al, " CHGHOST ") == (turn && self) && has(al, " QUIT ") == 0, "the user is told the new host"); if (turn) { int ok = has(al, vis) >= 1; vp_assert(ok, "the user is told the new host"); vp_reach("self"); } }
    vp_assert(has(st, w_fmt(":%s!", nick)) == 0, "who shares no channel is told nothing");
  }
  /* what others can look up */
  w_advance(30); w_clear_all(); w_send(st, w_fmt("WHOIS %s", nick)); w_send(st, w_fmt("WHO %s", nick)); w_send(st, w_fmt("USERHOST %s", nick)); w_pump(); int now = acct && x;
  vp_assert(has(st, " 311 ") == 1 && has(st, " 352 ") == 1, "a user can be looked up"); vp_assert((sightings(st, w_fmt(" %s ", real)) + sightings(st, w_fmt("@%s", real)) == 0) == (now != 0), "the real host of a hidden user is never shown"); vp_assert(has(st, " 330 ") == (acct != 0), "a lookup shows the account"); if (acct) vp_assert(w_eq(w_find(st, " 330 "), w_fmt(":vp.test.net 330 stan %s %s :is logged in as", nick, acct)), "a lookup shows the account");
  if (now) { int ok = w_eq(strstr(w_find(st, " 302 "), " 302 "), w_fmt(" 302 stan :%s=%c%s@%s.users.undernet.org", nick, away ? '-' : '+', user, acct)); vp_assert(ok, "a lookup shows the hidden host"); }
  if (RUN == 3) { vp_assert(!now, "with hiding disabled local hosts stay visible"); vp_reach("shown"); }
}
