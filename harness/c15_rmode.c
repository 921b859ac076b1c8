/* @property C15
 * @quick time=120 RUN=1 label=peer j=4
 * @reach peer:applied peer:bounced peer:server peer:older peer:newer
 * @bounds one MODE message from a peer server for a channel known here: author {operator, non-operator member, non-member, server} x timestamp {absent, equal, older, newer} x change {+m -m +s +i, +l n, -l, +k, -k, +o, -o, +v, +b, -b} x any previous combination of modes m s p i, limit, key, target status
 * @outside U-lined servers, several changes in one message, oplevels
 */
#include "chan.inc"
void vp_scenario(void) {
  std_network(); std_channel("#x"); w_send(boss, "MODE #x +b old!*@*"); w_pump();
  int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al); w_send(al, "JOIN #x"); w_pump();
  int auth = vp_pick("author", 4), ts = vp_pick("ts", 4), ch = vp_pick("change", 12); struct Client *carol = FindUser("carol"); struct Membership *cm = find_member_link(CH, carol), *am = find_member_link(CH, a);
  unsigned mm = vp_bool("m"), ms = vp_bool("s"), mp = vp_bool("p"), mi = vp_bool("i"); vp_assume((ms & mp) == 0); unsigned w = CH->mode.mode; w = symsel(w, MODE_MODERATED, mm); w = symsel(w, MODE_SECRET, ms); w = symsel(w, MODE_PRIVATE, mp); w = symsel(w, MODE_INVITEONLY, mi);
  int lim = vp_pick("limited", 2) ? 7 : 0, key = vp_pick("keyed", 2); vp_assume(ch != 7 || key); if (lim) w |= MODE_LIMIT; CH->mode.limit = lim; CH->mode.mode = w; if (key) strcpy(CH->mode.key, "kk");
  cm->status = symsel(cm->status, CHFL_CHANOP, auth == 0); unsigned aop = vp_bool("aop"), avo = vp_bool("avoice"); am->status = symsel(symsel(am->status, CHFL_CHANOP, aop), CHFL_VOICE, avo);
  const char *yal = w_fmt("%s%s", cli_yxx(&me), cli_yxx(a)); const char *chs[] = {"+m", "-m", "+s", "+i", "+l 9", "-l", "+k nk", "-k kk", "+o ", "-o ", "+v ", "+b new!*@*"}; const char *chg = ch >= 8 && ch <= 10 ? w_fmt("%s%s", chs[ch], yal) : chs[ch];
  static const char *opp[] = {"-m", "+m", "-s", "-i", "-l", "+l 7", "-k nk", "+k kk", "-o ", "+o ", "-v ", "-b new!*@*"};
  long cts = CH->creationtime, t2 = ts == 1 ? cts : ts == 2 ? cts - 50 : cts + 50; const char *src = auth == 2 ? "ACAAB" : auth == 3 ? "AC" : "ACAAA"; if (auth == 2) { w_send(L1, "AC N erin 1 1600000000 erin host.erin +i AKAABp ACAAB :erin"); }
  w_clear_all(); w_send(L1, ts ? w_fmt("%s M #x %s %l", src, chg, t2) : w_fmt("%s M #x %s", src, chg)); w_pump();
  unsigned may = (auth == 0 || auth == 3) && ts != 3; unsigned now = CH->mode.mode; struct Ban *bn = 0, *bo = 0; for (struct Ban *b = CH->banlist; b; b = b->next) { if (!strcmp(b->banstr, "new!*@*")) bn = b; if (!strcmp(b->banstr, "old!*@*")) bo = b; }
  unsigned em = mm, es = ms, ep = mp, ei = mi, eo = aop, ev = avo, eb = 0, changed; int el = lim; const char *ek = key ? "kk" : ""; 
  if (may) { if (ch == 0) em = 1; if (ch == 1) em = 0; if (ch == 2) es = 1, ep = 0; if (ch == 3) ei = 1; if (ch == 4) el = 9; if (ch == 5) el = 0; if (ch == 6) ek = "nk"; if (ch == 7) ek = ""; if (ch == 8) eo = 1; if (ch == 9) eo = 0; if (ch == 10) ev = 1; if (ch == 11) eb = 1; }
  changed = (em ^ mm) | (es ^ ms) | (ei ^ mi) | (eo ^ aop) | (ev ^ avo) | eb | (unsigned)(el != lim) | (unsigned)(strcmp(ek, key ? "kk" : "") != 0);
  if (ts == 3 && (auth == 0 || auth == 3) && ch >= 4 && ch <= 7) { int keep = CH->mode.limit == lim && !strcmp(CH->mode.key, key ? "kk" : ""); vp_assert(keep, "a limit or key change with a later creation time is not applied"); return; }
  vp_assert((!!(now & MODE_MODERATED) == em) & (!!(now & MODE_SECRET) == es) & (!!(now & MODE_PRIVATE) == ep) & (!!(now & MODE_INVITEONLY) == ei), "modes change exactly as an entitled peer asks");
  vp_assert(CH->mode.limit == el && !!(now & MODE_LIMIT) == (el != 0), "the limit changes exactly as an entitled peer asks"); vp_assert(!strcmp(CH->mode.key, ek), "the key changes exactly as an entitled peer asks");
  vp_assert(bo && !!bn == eb, "bans change exactly as an entitled peer asks"); vp_assert((!!(am->status & CHFL_CHANOP) == eo) & (!!(am->status & CHFL_VOICE) == ev), "member status changes exactly as an entitled peer asks");
  int nb = w_count(bob, " MODE #x "), nB = w_count(boss, " MODE #x "), n2 = w_count(L2, " M #x "), n1 = w_count(L1, " M #x ");
  vp_assert(nb == (int)changed && nB == nb && n2 == nb, "an accepted change is shown once to local members and passed on once to the other servers; a refused one is not");
  if (may) { vp_assert(n1 == 0, "an accepted change is not sent back"); if (changed) { vp_reach(auth == 3 ? "server" : "applied"); vp_assert(w_starts(w_find(L2, " M #x "), w_fmt("%s M #x %s", src, "")), "passed on with its author"); } if (ts == 2) { vp_assert(CH->creationtime == t2, "an earlier creation time is adopted"); vp_reach("older"); } else vp_assert(CH->creationtime == cts, "the creation time stays"); }
  else { vp_assert(CH->creationtime == (ts == 2 ? CH->creationtime : cts), "a refused change keeps the creation time"); if (ts == 3) vp_reach("newer");
    /* would the peer, having applied the change, be undone by our answer? */
    unsigned eff = ch == 0 ? mm ^ 1u : ch == 1 ? mm : ch == 2 ? ms ^ 1u : ch == 3 ? mi ^ 1u : ch == 5 ? (unsigned)(lim != 0) : ch == 7 ? (unsigned)key : ch == 8 ? aop ^ 1u : ch == 9 ? aop : ch == 10 ? avo ^ 1u : 1u;
    if (eff) { vp_assert(n1 >= 1, "a refused change is reverted at the peer"); char *l = w_find(L1, " M #x "); vp_reach("bounced"); vp_assert(w_starts(l, "AB M #x "), "the correction comes from this server");
      /* interpret the correction */
      char *p = l + 8; int add = 1, hit = 0; char *arg = strchr(p, ' '); arg = arg ? arg + 1 : ""; char need = opp[ch][1]; int needadd = opp[ch][0] == '+'; if (ch == 4 && lim) needadd = 1; if (ch == 6 && key) needadd = 1;
      for (; *p && *p != ' '; p++) { if (*p == '+') add = 1; else if (*p == '-') add = 0; else { int takes = *p == 'o' || *p == 'v' || *p == 'k' || *p == 'b' || (*p == 'l' && add);
          if (*p == need && add == needadd) { if (*p == 'l') { if (!add || !strncmp(arg, "7 ", 2)) hit = 1; } else if (*p == 'k') { if (!add ? 1 : !strncmp(arg, "kk ", 3)) hit = 1; } else if (*p == 'o' || *p == 'v') { if (!strncmp(arg, yal, 5)) hit = 1; } else hit = 1; }
          if (takes) { arg = strchr(arg, ' '); arg = arg ? arg + 1 : ""; } } }
      vp_assert(hit, "the correction restores what the peer changed"); } }
}
