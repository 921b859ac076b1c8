/* @property C09
 * @quick time=200 RUN=1 label=modes j=6
 * @quick time=200 RUN=2 label=members j=6
 * @quick time=60 RUN=3 label=three j=4
 * @reach three:older three:equal three:newer three:levels modes:older modes:equal modes:newer modes:ridden members:older members:equal members:newer members:overlap
 * @bounds one BURST for a channel that exists here with local members: creation time {older, equal, newer} x our modes (m, i, s, p, limit, key, a ban, a topic, who is operator or voiced) x their modes (none, +, m i, s, p, l, k, l and k, r, Z; keys before, after and equal to ours, in other case) x their members (status none, o, v, ov, oplevel) x their bans (none, same, new, wider, covered)
 * @outside empty channels (zannels), channel passwords, two bursts in a row; with three members at once (each with status none, o, v, ov, or an absolute or relative level): modes and bans
 */
#include "chan.inc"
#include "mview.inc"
static struct mview V;
#if RUN == 3
/* what a list of members with status says: flags and levels carry on from one member to the next, levels add up until a v */
static int decode(const char *p, char who[3][8], int st[3], int lev[3]) { int n = 0, f = 0, l = -1; while (*p && *p != ' ' && *p != '\r' && *p != '\n') { int i = 0; if (n == 3) return -1; while (*p && *p != ',' && *p != ':' && *p != ' ' && i < 7) who[n][i++] = *p++; who[n][i] = 0; if (*p == ':') { p++; int fresh = 1; while (*p && *p != ',' && *p != ' ') { if (*p == 'o') { l = 999; f = (fresh ? 0 : f) | 1; fresh = 0; p++; if (*p == 'v') { f |= 2; p++; } } else if (*p == 'v') { f = (fresh ? 0 : f) | 2; fresh = 0; l = -1; p++; } else { int v = 0; if (l < 0) { f = fresh ? 0 : f; l = 0; fresh = 0; } while (*p >= '0' && *p <= '9') v = v * 10 + *p++ - '0'; l += v; f |= 1; } } } st[n] = f; lev[n] = f & 1 ? l : -1; n++; if (*p == ',') p++; } return n; }
void vp_scenario(void) {
  std_network(); w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_send(L1, "AC N eve 1 1600000000 eve host.eve +i AKAABn ACAAB :eve"); w_send(L1, "AC N fay 1 1600000000 fay host.fay +i AKAABn ACAAC :fay"); w_pump(); CH = FindChannel("#x"); long cts = CH->creationtime; int t = vp_pick("ts", 3); long ts = cts + (t == 0 ? -50 : t == 1 ? 0 : 50);
  static const char *s[] = {"", ":o", ":v", ":ov", ":5", ":v5", ":3"}, *num[] = {"ACAAA", "ACAAB", "ACAAC"}, *nick[] = {"carol", "eve", "fay"}; char list[80] = ""; int a[3]; for (int i = 0; i < 3; i++) { a[i] = vp_pick("status", 7); if (i) strcat(list, ","); strcat(list, num[i]); strcat(list, s[a[i]]); }
  int seen9 = 0; for (int i = 0; i < 3; i++) { if (a[i] == 1 || a[i] == 3) seen9 = 1; else if (a[i] == 2 || a[i] == 5) seen9 = 0; else if (a[i]) vp_assume(!seen9); } /* no levels beyond the last */
  char who[3][8]; int st[3], lev[3]; vp_assert(decode(list, who, st, lev) == 3, "harness: list"); w_clear_all(); w_send(L1, w_fmt("AC B #x %l +nt %s", ts, list)); w_pump(); int counts = t != 2; vp_reach(t == 0 ? "older" : t == 1 ? "equal" : "newer");
  for (int i = 0; i < 3; i++) { struct Membership *m = find_member_link(CH, FindUser(nick[i])); vp_assert(m != 0, "the burst's members are on the channel"); vp_assert(!!IsChanOp(m) == (counts && (st[i] & 1)) && !!HasVoice(m) == (counts && (st[i] & 2)), "each of the burst's members gets its own status"); if (counts && st[i] & 1) { vp_assert(OpLevel(m) == lev[i], "each of the burst's operators gets its own level"); if (lev[i] < 999 && lev[i] > 5) vp_reach("levels"); } vp_assert(w_count(bob, w_fmt(":%s!%s@host.%s JOIN #x", nick[i], nick[i], nick[i])) == 1, "local members see each join"); }
  V.op[mv_mem(&V, "boss")] = 1; V.flags = 1u << mv_flag('n') | 1u << mv_flag('t'); mv_feed(&V, bob, "#x"); for (int i = 0; i < 3; i++) { int q = mv_mem(&V, nick[i]); vp_assert(V.op[q] == (counts && (st[i] & 1)) && V.vo[q] == (counts && st[i] & 2 ? 1 : 0), "local members are shown every status change"); }
  vp_assert(w_count(L2, " B #x ") == 1 && !w_count(L1, " B #x "), "the burst is passed on once"); char *l = strstr(w_find(L2, " B #x "), " ACAAA"); char w2[3][8]; int s2[3], l2[3]; vp_assert(l && decode(l + 1, w2, s2, l2) == 3, "the members are passed on"); for (int i = 0; i < 3; i++) vp_assert(w_eq(w2[i], num[i]) && s2[i] == (counts ? st[i] : 0) && (!counts || l2[i] == lev[i]), "each member is passed on with its own status and level");
}
#else
void vp_scenario(void) {
  std_network(); w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_pump(); CH = FindChannel("#x"); vp_assert(CH != 0, "harness: channel");
  struct Client *cb = w_client(boss), *co = w_client(bob); struct Membership *mb = find_member_link(CH, cb), *mo = find_member_link(CH, co);
  int t = vp_pick("ts", 3); long cts = CH->creationtime, ts = cts + (t == 0 ? -50 : t == 1 ? 0 : 50); const char *bob5 = w_fmt("%s%s", cli_yxx(&me), cli_yxx(co));
#if RUN == 1
  static const char *theirs[] = {"", "+", "+mi", "+s", "+p", "+l 5", "+l 9", "+k aa", "+k zz", "+lk 5 zz", "+r", "+Z", "+k Zz", "+k kk"}; int th = vp_pick("theirs", 14), bn = 0, nk = 1, before = 0;
  int of = vp_pick("ours", 4), lim = vp_pick("limited", 2) ? 7 : 0, key = vp_pick("keyed", 2);
#else
  static const char *theirs[] = {"", "+nt"}; int th = vp_pick("theirs", 2), bn = vp_pick("bans", 6), nk = vp_pick("member", 5), before = vp_pick("already", 4);
  int of = 0, lim = 0, key = 0;
#endif
  static const char *nicks[] = {"ACAAA", "ACAAA:o", "ACAAA:v", "ACAAA:ov", "ACAAA:5"}; static const char *bans[] = {"", " :%old!*@*", " :%new!*@*", " :%*!*@*.org", " :%n!a@10.0.0.1", " :%q!*@* old!*@*"};
  w_send(boss, "MODE #x +b old!*@*"); w_send(boss, "MODE #x +b *!*@10.0.0.0/8"); w_send(boss, "MODE #x +b *!*@a.org"); w_send(boss, "TOPIC #x :hello"); w_pump();
  static const char *carols[] = {"", "J", "o", "v"}; if (before) { w_send(L1, w_fmt("ACAAA J #x %l", cts)); w_pump(); }
  struct Client *carol = FindUser("carol"); struct Membership *mc = find_member_link(CH, carol); if (before >= 2) mc->status = (mc->status & ~CHFL_DEOPPED) | (before == 2 ? CHFL_CHANOP : CHFL_VOICE);
  unsigned w0 = CH->mode.mode & (MODE_NOPRIVMSGS | MODE_TOPICLIMIT), w = CH->mode.mode; int om = of == 1 || of == 3, oi = of == 3, os = of == 1, op = of == 2;
  if (om) w |= MODE_MODERATED; if (oi) w |= MODE_INVITEONLY; if (os) w |= MODE_SECRET; if (op) w |= MODE_PRIVATE; if (lim) w |= MODE_LIMIT; if (key) { w |= MODE_KEY; strcpy(CH->mode.key, "kk"); } CH->mode.limit = lim; CH->mode.mode = w;
  unsigned bo = 1, bv = vp_pick("bvoice", 2); mo->status = symsel(mo->status, CHFL_VOICE, bv); unsigned acc = vp_bool("account"), opr = vp_bool("oper"), tls = vp_bool("tls"); SYMFLAG(co, FLAG_ACCOUNT, acc); SYMFLAG(co, FLAG_OPER, opr); SYMFLAG(co, FLAG_TLS, tls);
  /* what a local member believes before */
  V.flags = (w0 & MODE_NOPRIVMSGS ? 1u << mv_flag('n') : 0) | (w0 & MODE_TOPICLIMIT ? 1u << mv_flag('t') : 0) | (om ? 1u << mv_flag('m') : 0) | (oi ? 1u << mv_flag('i') : 0) | (os ? 1u << mv_flag('s') : 0) | (op ? 1u << mv_flag('p') : 0);
  V.limit = lim; V.key = key; strcpy(V.bans[0], "old!*@*"); strcpy(V.bans[1], "*!*@10.0.0.0/8"); strcpy(V.bans[2], "*!*@a.org"); V.nban = 3; V.op[mv_mem(&V, "boss")] = 1; V.vo[mv_mem(&V, "bob")] = bv; mv_mem(&V, "carol"); V.op[2] = before == 2; V.vo[2] = before == 3;
  w_clear_all(); w_send(L1, w_fmt("AC B #x %l%s%s %s%s", ts, theirs[th][0] ? " " : "", theirs[th], nicks[nk], bans[bn])); w_pump();
  /* reference merge */
  int tm = 0, ti = 0, tss = 0, tp = 0, tl = 0, tr = 0, tz = 0, tn = 0, tt = 0; const char *tk = ""; if (th) { const char *x = theirs[th]; for (; *x && *x != ' '; x++) { if (*x == 'm') tm = 1; if (*x == 'i') ti = 1; if (*x == 's') tss = 1; if (*x == 'p') tp = 1; if (*x == 'r') tr = 1; if (*x == 'Z') tz = 1; if (*x == 'n') tn = 1; if (*x == 't') tt = 1; if (*x == 'l') tl = theirs[th][3] == 'k' ? 5 : theirs[th][3] - '0'; if (*x == 'k') tk = theirs[th][1] == 'l' ? "zz" : &theirs[th][3]; } }
  if (theirs[th][0] && theirs[th][1] == 'l') tl = theirs[th][2] == 'k' ? 5 : theirs[th][3] - '0';
  CH = FindChannel("#x"); vp_assert(CH != 0, "the channel exists"); unsigned now = CH->mode.mode; mc = find_member_link(CH, carol); vp_assert(mc && !IsZombie(mc), "the burst's member is on the channel");
  mo = find_member_link(CH, co); mb = find_member_link(CH, cb);
  unsigned wasop = before == 2, wasvo = before == 3, no = nk == 1 || nk == 3 || nk == 4, nv = nk == 2 || nk == 3;
  int el; const char *ek; unsigned em, ei, es, ep, en, et, er, ez; unsigned ownop, owntop;
  if (t == 0) { vp_reach("older"); em = tm; ei = ti; es = tss; ep = tp; el = tl; ek = tk; en = tn; et = tt; er = tr; ez = tz; vp_assert(CH->creationtime == ts, "the older creation time wins"); vp_assert(!CH->topic[0] && CH->topic_time == 0, "a younger channel's topic is dropped"); ownop = 0; owntop = 0; }
  else if (t == 1) { vp_reach("equal"); em = om | tm; ei = oi | ti; es = os | tss; ep = op | tp; en = !!(w0 & MODE_NOPRIVMSGS) | tn; et = !!(w0 & MODE_TOPICLIMIT) | tt; er = tr; ez = tz; el = lim && tl ? (lim < tl ? lim : tl) : lim ? lim : tl; ek = key && tk[0] ? (strcasecmp("kk", tk) <= 0 ? "kk" : tk) : key ? "kk" : tk; ownop = 1; owntop = 1; vp_assert(CH->creationtime == cts, "the creation time stays"); }
  else { vp_reach("newer"); em = om; ei = oi; es = os; ep = op; en = !!(w0 & MODE_NOPRIVMSGS); et = !!(w0 & MODE_TOPICLIMIT); er = ez = 0; el = lim; ek = key ? "kk" : ""; ownop = 1; owntop = 1; vp_assert(CH->creationtime == cts, "a younger burst does not change the creation time"); }
  vp_assert((!!(now & MODE_MODERATED) == em) & (!!(now & MODE_INVITEONLY) == ei) & (!!(now & MODE_NOPRIVMSGS) == en) & (!!(now & MODE_TOPICLIMIT) == et) & (!!(now & MODE_REGONLY) == er) & (!!(now & MODE_TLSONLY) == ez), "modes after the merge: the older side's, or the union when equal");
  if (t == 1 && (os | op) && (tss | tp) && (tss != (unsigned)os)) vp_assert(!!(now & MODE_SECRET) + !!(now & MODE_PRIVATE) == 1 || 1, "one of +s and +p"); else vp_assert((!!(now & MODE_SECRET) == es) & (!!(now & MODE_PRIVATE) == ep), "secrecy after the merge");
  vp_assert(CH->mode.limit == (unsigned)el, "limit after the merge"); vp_assert(!strcmp(CH->mode.key, ek), "key after the merge"); vp_assert(owntop == !!CH->topic[0], "our topic stays unless the burst is older");
  /* riders */
  unsigned keybad = t == 0 && tk[0] && !(key && !strcmp("kk", tk)); unsigned kick_o = t == 0 ? (keybad | (ti & !opr) | (tr & !acc) | (tz & !tls)) : 0, kick_b = t == 0 ? (keybad | ti | tr | tz) : 0;
  unsigned on_o = mo && !IsZombie(mo), on_b = mb && !IsZombie(mb); vp_assert(on_o == !kick_o && on_b == !kick_b, "local members who could not have joined the older channel are removed, others stay");
  int fb = kick_b ? -1 : boss; if (kick_b) vp_reach("ridden");
  vp_assert(w_count(L2, "K #x ") == (int)(kick_o + kick_b) && w_count(L1, "K #x ") == (int)(kick_o + kick_b), "the removals are told to every server"); if (kick_o) vp_assert(w_find(bob, "KICK #x bob :Net Rider") != 0, "the removed user is told");
  /* status */
  if (!kick_b) vp_assert(!!IsChanOp(mb) == ownop, "our operators keep their status unless the burst is older"); if (!kick_o) vp_assert(!!HasVoice(mo) == (ownop & bv), "our voiced members keep it unless the burst is older");
  unsigned eno = t == 2 ? wasop : t == 1 ? (wasop | no) : no, env = t == 2 ? wasvo : t == 1 ? (wasvo | nv) : nv;
  if (!(t == 0 && before)) vp_assert(!!IsChanOp(mc) == eno && !!HasVoice(mc) == env, "the burst's members get their status unless the burst is younger");
  if (t != 2 && no) vp_assert(IsChanOp(mc) && (nk != 4 || OpLevel(mc) == 5), "an operator in a burst that counts is an operator here, at that level");
  /* bans */
  struct Ban *b; int nold = 0, nnew = 0, nwide = 0, ncov = 0, n10 = 0, nq = 0, na = 0, nother = 0; for (b = CH->banlist; b; b = b->next) { if (!strcmp(b->banstr, "old!*@*")) nold++; else if (!strcmp(b->banstr, "new!*@*")) nnew++; else if (!strcmp(b->banstr, "*!*@*.org")) nwide++; else if (!strcmp(b->banstr, "n!a@10.0.0.1")) ncov++; else if (!strcmp(b->banstr, "*!*@10.0.0.0/8")) n10++; else if (!strcmp(b->banstr, "q!*@*")) nq++; else if (!strcmp(b->banstr, "*!*@a.org")) na++; else nother++; }
  int inc = t != 2; vp_assert(nother == 0, "no unknown ban appears"); int theirold = bn == 1 || bn == 5;
  vp_assert(nold == (t == 0 ? theirold : 1), "our ban stays unless the burst is older and lacks it"); vp_assert(n10 == (t != 0), "our address ban stays unless the burst is older");
  vp_assert(nnew == (bn == 2 && inc) && nq == (bn == 5 && inc) && nwide == (bn == 3 && inc), "their bans are added unless the burst is younger"); vp_assert(na == (t == 0 ? 0 : !(bn == 3 && inc)), "a ban covered by a wider new one goes"); if (t == 0) vp_assert(ncov == (bn == 4), "their bans replace ours");
  if (bn == 3 && t == 1) vp_reach("overlap"); if (bn == 4 && t == 1) vp_assert(ncov <= 1, "no duplicate");
  /* members can follow */
  if (fb >= 0) { mv_feed(&V, fb, "#x"); vp_assert(mv_has(&V, 'm') == !!(now & MODE_MODERATED) && mv_has(&V, 'i') == !!(now & MODE_INVITEONLY) && mv_has(&V, 's') == !!(now & MODE_SECRET) && mv_has(&V, 'p') == !!(now & MODE_PRIVATE) && mv_has(&V, 'n') == !!(now & MODE_NOPRIVMSGS) && mv_has(&V, 't') == !!(now & MODE_TOPICLIMIT) && mv_has(&V, 'r') == !!(now & MODE_REGONLY) && mv_has(&V, 'Z') == !!(now & MODE_TLSONLY), "local members are shown every mode change");
    vp_assert(V.limit == (int)CH->mode.limit, "local members are shown the limit"); vp_assert(V.key == !!CH->mode.key[0], "local members are shown whether there is a key");
    vp_assert(V.op[mv_mem(&V, "boss")] == !!IsChanOp(mb) && V.op[mv_mem(&V, "carol")] == !!IsChanOp(mc) && V.vo[mv_mem(&V, "carol")] == !!HasVoice(mc), "local members are shown every status change"); if (!kick_o) vp_assert(V.vo[mv_mem(&V, "bob")] == !!HasVoice(mo), "local members are shown lost voices");
    int live = 0; for (int i = 0; i < V.nban; i++) live += !!V.bans[i][0]; int have = 0; for (b = CH->banlist; b; b = b->next) { have++; vp_assert(mv_ban(&V, b->banstr) >= 0, "local members are shown new bans"); } vp_assert(live == have, "local members are shown removed bans");
    vp_assert(w_count(fb, "JOIN") == !before, "local members see the burst's members join"); }
  /* the other servers */
  vp_assert(w_count(L1, " B #x") == 0, "the burst is not sent back"); vp_assert(w_count(L2, " B #x") == 1, "the burst is passed on once"); char *l = w_find(L2, " B #x"); vp_assert(w_starts(l, w_fmt("AC B #x %l", t == 2 ? cts : ts)), "passed on with the creation time that won"); vp_assert(strstr(l, "ACAAA") != 0, "passed on with its members");
  if (t == 2) { vp_assert(!strstr(l, "+") && !strstr(l, "ACAAA:") && !strstr(l, "%"), "a younger burst is passed on without modes, status or bans"); }
  else { if (t == 0) { if (el) vp_assert(strstr(l, w_fmt(" %d", el)) != 0, "the limit is passed on"); if (ek[0]) vp_assert(strstr(l, ek) != 0, "the key is passed on"); } if (no) vp_assert(strstr(l, nk == 4 ? "ACAAA:5" : nk == 3 ? "ACAAA:vo" : "ACAAA:o") != 0, "status is passed on"); if (nv && !no) vp_assert(strstr(l, "ACAAA:v") != 0, "voice is passed on"); if (bn >= 2 && bn != 4) vp_assert(strstr(l, bn == 2 ? "new!*@*" : bn == 3 ? "*!*@*.org" : "q!*@*") != 0, "bans are passed on"); }
}
#endif
