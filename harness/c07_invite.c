/* @property C07
 * @quick time=60 RUN=1 label=local j=3
 * @quick time=60 RUN=2 label=peer j=3
 * @quick time=60 RUN=3 label=list j=2
 * @reach local:invited local:denied local:joined local:keptout peer:invited peer:ignored list:dropped list:gone list:used
 * @bounds one INVITE by a local user: {member, outsider} x operator flag x target {local, remote, already a member, unknown} x target silences inviter, target refuses unauthenticated senders x inviter logged in, target away, then the target's JOIN to an invite-only channel; one INVITE from a peer x channel time {absent, older, equal, newer} x inviter {operator, member, outsider} x target {local, remote, member}; three invitations among three channels with at most two kept (perhaps with another user invited after each), then a join, a second join or the end of a channel
 * @outside ANNOUNCE_INVITES, invite-notify, local (&) channels, target limits
 */
#include "chan.inc"
#if RUN == 3
const char *vp_features = "\"MAXCHANNELSPERUSER\" = \"2\";";
#endif
void vp_scenario(void) {
  std_network();
#if RUN == 1
  std_channel("#x"); w_send(boss, "MODE #x +i"); int al = w_user("alice", "10.0.0.5"), tom = w_user("tom", "10.0.0.7"); struct Client *a = w_client(al), *t = w_client(tom); w_pump();
  int mem = vp_pick("member", 2), tgt = vp_pick("target", 4); if (mem) { w_send(boss, "INVITE alice #x"); w_send(al, "JOIN #x"); w_pump(); } struct Membership *m = find_member_link(CH, a); unsigned op = 0; if (m) { op = vp_bool("op"); m->status = symsel(m->status, CHFL_CHANOP, op); }
  int sil = tgt == 0 ? vp_pick("silenced", 2) : 0; unsigned R = 0, acct = 0; if (sil) w_send(tom, "SILENCE +*!alice@*"); if (tgt < 2) { R = vp_bool("R"); acct = vp_bool("account"); struct Client *x = tgt ? FindUser("dave") : t; SYMFLAG(x, FLAG_BLOCK_UNAUTH_USERS, R); SYMFLAG(a, FLAG_ACCOUNT, acct); } int away = tgt == 0 ? vp_pick("away", 2) : 0; if (away) w_send(tom, "AWAY :gone fishing");
  w_pump(); w_clear_all(); static const char *nm[] = {"tom", "dave", "bob", "nobody"}; w_send(al, w_fmt("INVITE %s #x", nm[tgt])); w_pump();
  unsigned ok = (tgt < 2) & (unsigned)mem & op & (R ^ 1u | acct) & (unsigned)!sil; int nt = w_count(tom, " INVITE tom "), n2 = w_count(L2, " I dave #x"), nr = w_count(al, " 341 alice ");
  if (nr) { vp_assert(ok, "only an operator of the channel invites, and only someone not on it who accepts messages"); vp_assert(nt == (tgt == 0) && n2 == (tgt == 1), "the invited user, and only that one, is told once"); if (tgt == 0) vp_assert(!strcmp(w_find(tom, " INVITE "), ":alice!alice@10.0.0.5 INVITE tom #x"), "the invitation names inviter and channel"); vp_assert(w_count(al, " 301 alice tom :gone fishing") == away, "the inviter hears that the target is away"); vp_reach("invited"); }
  else { vp_assert(!ok, "an entitled invitation goes out"); vp_assert(nt + n2 == 0, "a refused invitation is not delivered"); vp_assert(sil || w_count(al, "alice ") == 1, "a refused invitation is explained once"); vp_reach("denied"); }
  vp_assert(w_count(L1, " I ") == 0 && w_count(bob, "INVITE") == 0 && w_count(boss, "INVITE") == 0 && w_count(L2, " I ") == n2, "nobody else sees the invitation");
  if (tgt == 0) { w_clear_all(); w_send(tom, "JOIN #x"); w_pump(); int in = find_member_link(CH, t) != 0; vp_assert((unsigned)in == ok, "an invitation opens an invite-only channel, and nothing else does"); vp_reach(in ? "joined" : "keptout"); if (in) { w_send(tom, "PART #x"); w_clear_all(); w_send(tom, "JOIN #x"); w_pump(); vp_assert(!find_member_link(CH, t), "an invitation can be used once"); } }
#elif RUN == 2
  std_channel("#x"); w_send(boss, "MODE #x +i"); int tom = w_user("tom", "10.0.0.7"); w_pump(); int who = vp_pick("inviter", 3), ts = vp_pick("ts", 4), tgt = vp_pick("target", 3); struct Client *carol = FindUser("carol"); struct Membership *cm = find_member_link(CH, carol); if (who == 0) cm->status |= CHFL_CHANOP; if (who == 2) { w_send(L1, "ACAAA L #x"); w_pump(); vp_assert(!find_member_link(CH, carol), "harness: carol left"); }
  long c = CH->creationtime; w_clear_all(); static const char *nm[] = {"tom", "dave", "bob"}; w_send(L1, ts ? w_fmt("ACAAA I %s #x %l", nm[tgt], c + (ts - 2) * 10) : w_fmt("ACAAA I %s #x", nm[tgt])); w_pump(); int ok = who != 2 && ts != 3 && tgt != 2; int nt = w_count(tom, " INVITE tom "), n2 = w_count(L2, " I dave #x");
  vp_assert(nt == (ok && tgt == 0) && n2 == (ok && tgt == 1), "a peer's invitation is delivered once exactly if its author is on the channel, the target is not, and it is not for a later channel"); vp_assert(w_count(bob, "INVITE") + w_count(boss, "INVITE") == 0 && w_count(L1, " I ") == 0, "nobody else sees the invitation");
  if (n2) vp_assert(!strcmp(w_find(L2, " I dave"), w_fmt("ACAAA I dave #x %l", c)), "passed on with its author and the channel time");
  w_send(tom, "JOIN #x"); w_pump(); vp_assert(!!find_member_link(CH, w_client(tom)) == (ok && tgt == 0), "an invitation opens an invite-only channel, and nothing else does"); vp_reach(ok ? "invited" : "ignored");
#else
  static const char *cn[] = {"#a", "#b", "#c"}; int tom = w_user("tom", "10.0.0.7"), c2 = w_user("cc", "10.0.0.8"); w_send(boss, "JOIN #a,#b"); w_send(c2, "JOIN #c"); w_pump(); int q[3], n = 0, crowd = vp_pick("crowd", 2); w_clear_all();
  for (int i = 0; i < 3; i++) { int k = vp_pick("chan", 3); w_send(k == 2 ? c2 : boss, w_fmt("INVITE tom %s", cn[k])); if (crowd) { w_pump(); w_send(k == 2 ? c2 : boss, w_fmt("INVITE bob %s", cn[k])); } int j, o = 0; for (j = 0; j < n; j++) if (q[j] != k) q[o++] = q[j]; n = o; if (n == 2) { q[0] = q[1]; n = 1; vp_reach("dropped"); } q[n++] = k; w_advance(3); }
  w_pump(); int act = vp_pick("act", 4); if (act == 1) { w_send(boss, "PART #a"); w_advance(120); } if (act == 2) { w_send(tom, "JOIN #b"); w_pump(); } if (act == 3) { w_send(boss, "MODE #a +i"); w_send(boss, "MODE #b +i"); w_send(c2, "MODE #c +i"); int j = vp_pick("join", 3), had = 0; for (int i = 0; i < n; i++) had |= q[i] == j; w_send(tom, w_fmt("JOIN %s", cn[j])); w_pump(); vp_assert(!!find_member_link(FindChannel(cn[j]), w_client(tom)) == had, "the listed invitations are the valid ones"); vp_reach("used"); int o = 0; for (int i = 0; i < n; i++) if (q[i] != j) q[o++] = q[i]; n = o; }
  if (act == 1 || act == 2) { int gone = act == 1 ? 0 : 1; if (act == 1) vp_assert(!FindChannel("#a"), "an empty channel ends"); int o = 0; for (int i = 0; i < n; i++) if (q[i] != gone) q[o++] = q[i]; n = o; vp_reach("gone"); }
  w_clear_all(); w_send(tom, "INVITE"); w_pump(); w_lines(tom); int ln = 0; char *l; for (int i = 0; (l = w_line(tom, i)); i++) if (strstr(l, " 336 ") || strstr(l, " 346 ")) { vp_assert(ln < n && !strcmp(strstr(l, "#"), cn[q[ln]]), "the list shows the valid invitations, oldest first"); ln++; } vp_assert(ln == n, "every valid invitation is listed"); vp_assert(w_client(tom)->cli_user->invites == (unsigned)n, "invitations are counted");
#endif
}
