/* @property C11
 * @quick time=120 RUN=1 label=create j=4
 * @quick time=120 RUN=2 label=join j=4
 * @reach create:new create:older create:equal create:newer create:lagged create:early join:new join:older join:same join:wiped
 * @bounds CREATE or JOIN by a remote user for a channel that is unknown here, or known with any combination of modes m i s, limit, key and voiced or operator members, with creation time {much older, 50 or 1 s older, equal, 1, 5 or 50 s newer}, for CREATE also from a server whose netburst is under way; one or two channels named
 * @outside channels kept for the manager password, creation times 1 to 4 s newer during the netburst, U-lines
 */
#include "chan.inc"
#include "mview.inc"
static struct mview V;
void vp_scenario(void) {
  std_network(); int known = vp_pick("known", 2); int two = vp_pick("two", 2);
  if (known) { w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_pump(); w_send(boss, "TOPIC #x :hello"); w_send(boss, "MODE #x +b old!*@*"); w_pump(); }
  CH = FindChannel("#x"); long cts = w_now; static const long dt[] = {-90000, -50, 0, 50, -1, 1, 5}; int t = vp_pick("ts", 7), early = 0; long ts = cts + dt[t];
  int om = 0, lim = 0, key = 0; unsigned bv = 0, bo = 0, w0 = 0; struct Membership *mb = 0, *mo = 0;
  if (known) { om = vp_pick("ours", 2); lim = vp_pick("limited", 2) ? 7 : 0; key = vp_pick("keyed", 2); bv = vp_pick("bvoice", 2); bo = vp_pick("bop", 2); mb = find_member_link(CH, w_client(boss)); mo = find_member_link(CH, w_client(bob)); w0 = CH->mode.mode; unsigned w = w0; if (om) w |= MODE_MODERATED | MODE_INVITEONLY | MODE_SECRET; if (lim) w |= MODE_LIMIT; if (key) { w |= MODE_KEY; strcpy(CH->mode.key, "kk"); } CH->mode.limit = lim; CH->mode.mode = w; mo->status = (mo->status & ~CHFL_DEOPPED) | (bv ? CHFL_VOICE : 0) | (bo ? CHFL_CHANOP : 0);
    V.flags = (w0 & MODE_NOPRIVMSGS ? 1u << mv_flag('n') : 0) | (w0 & MODE_TOPICLIMIT ? 1u << mv_flag('t') : 0) | (om ? 1u << mv_flag('m') | 1u << mv_flag('i') | 1u << mv_flag('s') : 0); V.limit = lim; V.key = key; strcpy(V.bans[0], "old!*@*"); V.nban = 1; V.op[mv_mem(&V, "boss")] = 1; mv_mem(&V, "bob"); V.op[1] = bo; V.vo[1] = bv; mv_mem(&V, "carol"); }
  w_clear_all();
#if RUN == 1
  if (t != 0 && t != 5 && vp_pick("burst", 2)) { early = 1; SetBurst(w_client(L1)); }
  w_send(L1, w_fmt("ACAAA C %s %l", two ? "#y,#x" : "#x", ts)); w_pump(); int lagged = known && t == 0, newer = known && dt[t] > 0, bad = lagged || newer; if (!known) vp_reach("new"); else vp_reach(t == 0 ? "lagged" : dt[t] < 0 ? "older" : t == 2 ? "equal" : early ? "early" : "newer");
  CH = FindChannel("#x"); vp_assert(CH != 0, "the channel exists"); struct Membership *mc = find_member_link(CH, FindUser("carol")); vp_assert(mc != 0, "the creator is on the channel"); vp_assert(!!IsChanOp(mc) == !bad, "the creator is operator unless the channel here is older"); vp_assert(CH->creationtime == (bad ? cts : ts), "an acceptable creation time is adopted, another ignored");
  if (two) { struct Channel *y = FindChannel("#y"); vp_assert(y && y->creationtime == ts && IsChanOp(find_member_link(y, FindUser("carol"))), "a channel unknown here is created with its operator"); }
  if (known) { vp_assert(IsChanOp(find_member_link(CH, w_client(boss))) && !!IsChanOp(mo) == bo && !!HasVoice(mo) == bv && CH->mode.limit == (unsigned)lim && !strcmp(CH->mode.key, key ? "kk" : "") && CH->topic[0] && CH->banlist, "a creation elsewhere takes nothing from the channel here");
    V.op[mv_mem(&V, "carol")] = 0; mv_feed(&V, bob, "#x"); vp_assert(V.op[2] == !bad && V.op[0] == 1 && V.op[1] == (int)bo && V.limit == lim, "members are shown the creator's status"); vp_assert(w_count(bob, "JOIN") == 1 && w_count(boss, "JOIN") == 1, "members see the creator join once"); }
  int nC = w_count(L2, "ACAAA C "), nJ = w_count(L2, "ACAAA J #x "); vp_assert(nJ == bad && nC == (two || !bad), "passed on once to the other servers"); if (nC) { char *l = w_find(L2, "ACAAA C "); vp_assert(w_eq(l, w_fmt("ACAAA C %s %l", two ? bad ? "#y" : "#y,#x" : "#x", ts)), "passed on with its time"); } if (nJ) vp_assert(w_find(L2, w_fmt("ACAAA J #x %l", cts)) != 0, "passed on as a join with the creation time that won");
  vp_assert(w_count(L1, " C ") == 0 && w_count(L1, " J ") == 0, "not sent back"); int nm = w_count(L1, " M #x "); vp_assert(nm == (bad && !early) && w_count(L2, " M #x ") == 0, "a refused status is taken back at the peer only"); if (bad && !early) vp_assert(w_find(L1, "M #x -o ACAAA") != 0, "the peer is told to take the status back");
#else
  w_send(L1, w_fmt("ACAAA J %s %l", two ? "#y,#x" : "#x", ts)); w_pump(); int wipe = known && dt[t] < 0; (void)early; vp_reach(!known ? "new" : wipe ? "older" : "same");
  CH = FindChannel("#x"); vp_assert(CH != 0, "the channel exists"); struct Membership *mc = find_member_link(CH, FindUser("carol")); vp_assert(mc && !IsChanOp(mc) && !HasVoice(mc), "who joins elsewhere is on the channel without status"); vp_assert(CH->creationtime == (wipe || !known ? ts : cts), "an older creation time is adopted, a younger ignored");
  if (known) { unsigned now = CH->mode.mode; mb = find_member_link(CH, w_client(boss)); mo = find_member_link(CH, w_client(bob)); vp_assert(mb && mo, "nobody is removed"); vp_assert(!!IsChanOp(mb) == !wipe && !!IsChanOp(mo) == (!wipe & bo) && !!HasVoice(mo) == (!wipe & bv), "status of members goes exactly when the channel proves older elsewhere"); vp_assert(CH->mode.limit == (unsigned)(wipe ? 0 : lim) && !strcmp(CH->mode.key, wipe ? "" : key ? "kk" : "") && !!(now & MODE_MODERATED) == (!wipe && om) && !!(now & MODE_SECRET) == (!wipe && om) && !!(now & MODE_NOPRIVMSGS) == (!wipe && !!(w0 & MODE_NOPRIVMSGS)), "modes go exactly when the channel proves older elsewhere");
    if (wipe && (om || lim || key)) vp_reach("wiped");
    mv_feed(&V, bob, "#x"); vp_assert(mv_has(&V, 'm') == !!(now & MODE_MODERATED) && mv_has(&V, 'i') == !!(now & MODE_INVITEONLY) && mv_has(&V, 's') == !!(now & MODE_SECRET) && mv_has(&V, 'n') == !!(now & MODE_NOPRIVMSGS) && mv_has(&V, 't') == !!(now & MODE_TOPICLIMIT), "members are shown every mode change"); vp_assert(V.limit == (int)CH->mode.limit && V.key == !!CH->mode.key[0], "members are shown the limit and key change"); vp_assert(V.op[0] == !!IsChanOp(mb) && V.op[1] == !!IsChanOp(mo) && V.vo[1] == !!HasVoice(mo) && !V.op[2], "members are shown every status change");
    vp_assert(w_count(bob, "JOIN") == 1 && w_count(boss, "JOIN") == 1, "members see the join once"); }
  vp_assert(w_count(L2, w_fmt("ACAAA J #x %l", known && !wipe ? cts : ts)) == 1 && w_count(L2, " J ") == 1 + two, "passed on once with the creation time that won"); vp_assert(w_count(L1, " J ") == 0, "not sent back"); vp_assert(w_count(L2, "BOUNCE") == 0, "no error");
#endif
}
