/* @property C06
 * @quick time=60 RUN=1 label=local j=4
 * @quick time=60 RUN=2 label=peer j=2
 * @quick time=60 RUN=3 label=long j=2
 * @quick time=100 RUN=4 D=2 label=history j=4
 * @thorough time=60 RUN=1 label=local j=4
 * @thorough time=60 RUN=2 label=peer j=2
 * @thorough time=60 RUN=3 label=long j=2
 * @thorough time=900 RUN=4 D=4 label=history j=8
 * @reach local:set local:same local:denied local:cleared local:query peer:taken peer:ignored long:cut history:future history:stale history:same
 * @bounds one TOPIC command: {query, set to two arbitrary bytes, clear} x {member, non-member} x modes t m s n r M x operator, voice, account, matching ban x previous topic {none, some}; one topic from a peer x channel time {older, equal, newer} x topic time {none, older, equal, newer} x same or other text; topics of TOPICLEN-1 .. TOPICLEN+1 bytes; every sequence of 2 (thorough 4) topics, each from here or a peer, of three texts with a common beginning, of a past, present or future time
 * @outside local (&) channels, topics set while a burst is in progress
 */
#include "chan.inc"
void vp_scenario(void) {
  std_network(); std_channel("#x"); w_send(boss, "MODE #x -o+v boss bob"); w_pump();
  int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al);
#if RUN == 1
  int mem = vp_pick("member", 2), kind = vp_pick("kind", 3), had = vp_pick("had", 2), ban = vp_pick("ban", 2); if (mem) w_send(al, "JOIN #x"); w_pump(); struct Membership *m = find_member_link(CH, a); 
  if (had) { strcpy(CH->topic, "xy"); strcpy(CH->topic_nick, "who"); CH->topic_time = w_now - 100; } if (ban) { find_member_link(CH, w_client(boss))->status |= CHFL_CHANOP; w_send(boss, "MODE #x +b *!*@10.0.0.5"); w_pump(); }
  unsigned mt = vp_bool("t"), mm = vp_bool("m"), ms = vp_bool("s"), mn = vp_bool("n"), mr = vp_bool("r"), mM = vp_bool("M"), acct = vp_bool("account"), op = 0, vo = 0; unsigned w = CH->mode.mode; w = symsel(w, MODE_TOPICLIMIT, mt); w = symsel(w, MODE_MODERATED, mm); w = symsel(w, MODE_SECRET, ms); w = symsel(w, MODE_NOPRIVMSGS, mn); w = symsel(w, MODE_REGONLY, mr); w = symsel(w, MODE_MODERATENOREG, mM); CH->mode.mode = w; SYMFLAG(a, FLAG_ACCOUNT, acct);
  if (m) { op = vp_bool("op"); vo = vp_bool("voice"); m->status = symsel(symsel(m->status, CHFL_CHANOP, op), CHFL_VOICE, vo); }
  unsigned char c0 = vp_byte("text"), c1 = vp_byte("text"); vp_assume(c0 && c0 != 10 && c0 != 13 && c1 && c1 != 10 && c1 != 13);
  char line[32]; strcpy(line, kind == 0 ? "TOPIC #x" : kind == 1 ? "TOPIC #x :ab" : "TOPIC #x :"); if (kind == 1) { line[10] = c0; line[11] = c1; }
  w_clear_all(); w_send(al, line); w_pump(); int nb = w_count(bob, " TOPIC #x :"), nB = w_count(boss, " TOPIC #x :"), na = w_count(al, " TOPIC #x :"), n1 = w_count(L1, " T #x "), n2 = w_count(L2, " T #x ");
  if (kind == 0) { int deny = !mem && ms; vp_assert(nb + nB + na + n1 + n2 == 0, "asking for the topic changes nothing"); int r = w_count(al, " 331 alice #x "), t = w_count(al, " 332 alice #x :xy"), t3 = w_count(al, " 333 alice #x who "), d = w_count(al, " 442 alice #x "); vp_assert(d == deny && r == (!deny && !had) && t == (!deny && had) && t3 == t, "the topic is told to members, and to others unless the channel is secret"); vp_reach("query"); return; }
  unsigned gated = ((mr | mM) & (acct ^ 1u)) | (unsigned)ban, may = (unsigned)mem & ((mt ^ 1u) | op) & ((op | vo) | ((mm | gated) ^ 1u)) & 1u; unsigned same = kind == 1 ? (unsigned)had & (unsigned)(c0 == 'x') & (unsigned)(c1 == 'y') : !had;
  /* topics compare under case folding for announcing */
  unsigned fold = kind == 1 ? (unsigned)had & (unsigned)((c0 | 32) == 'x') & (unsigned)((c1 | 32) == 'y') & (unsigned)(c0 == 'x' || c0 == 'X') & (unsigned)(c1 == 'y' || c1 == 'Y') : same;
  if (n1) { vp_assert(may, "a topic is set only by a member the modes allow"); vp_assert(n1 == 1 && n2 == 1, "a topic is sent to every server once"); vp_assert(na == 1, "the setter sees the topic once"); vp_assert(nb == (int)(fold ^ 1u) && nB == nb, "a changed topic is shown once to each local member"); unsigned t0 = (unsigned char)CH->topic[0], t1 = (unsigned char)CH->topic[1]; vp_assert(kind == 1 ? (t0 == c0) & (t1 == c1) & (CH->topic[2] == 0) : t0 == 0, "the topic is what was set"); vp_assert(!strcmp(CH->topic_nick, "alice") && CH->topic_time >= w_now, "the topic records setter and time");
    char e[64] = ":alice!alice@10.0.0.5 TOPIC #x :ab"; int k = strlen(e); if (kind == 1) { e[k - 2] = c0; e[k - 1] = c1; } else e[k - 2] = 0; if (nb) vp_assert(w_eq(w_find(bob, " TOPIC #x :"), e), "members see the text and its setter"); vp_reach(kind == 2 ? "cleared" : fold ? "same" : "set"); }
  else { vp_assert(!may, "an allowed topic change takes effect"); vp_assert(n2 + na + nb + nB == 0, "a refused topic is shown to nobody"); vp_assert(had ? !strcmp(CH->topic, "xy") && !strcmp(CH->topic_nick, "who") : !CH->topic[0], "a refused topic changes nothing"); vp_assert(w_count(al, " 442 alice #x") + w_count(al, " 482 alice #x") + w_count(al, " 404 alice #x") == 1, "a refused topic gets one explanation"); vp_reach("denied"); }
#elif RUN == 2
  strcpy(CH->topic, "xy"); strcpy(CH->topic_nick, "who"); CH->topic_time = w_now - 100; int src = vp_pick("source", 2), ct = vp_pick("chants", 3), tt = vp_pick("topicts", 4), same = vp_pick("same", 2); long cts = CH->creationtime + (ct - 1) * 10, tts = w_now - 100 + (tt - 2) * 10;
  const char *tx = same ? "xy" : "new"; const char *s = src ? "ACAAA" : "AC"; w_clear_all(); w_send(L1, tt ? w_fmt("%s T #x %l %l carol :%s", s, cts, tts, tx) : w_fmt("%s T #x :%s", s, tx)); w_pump();
  int may = tt == 0 || (ct <= 1 && tt >= 2); int nb = w_count(bob, " TOPIC #x :"), n1 = w_count(L1, " T #x "), n2 = w_count(L2, " T #x ");
  if (may) { vp_assert(!strcmp(CH->topic, tx), "a newer topic for the same or an older channel is taken"); vp_assert(nb == !same, "a changed topic is shown once"); vp_assert(n2 == 1 && n1 == 0, "a peer's topic is passed on once and not sent back"); vp_assert(CH->topic_time == (tt ? tts : w_now), "the topic time is kept"); vp_assert(w_starts(w_find(L2, " T #x "), w_fmt("%s T #x ", s)), "passed on with its author"); vp_reach("taken"); }
  else { vp_assert(!strcmp(CH->topic, "xy") && CH->topic_time == w_now - 100 && nb == 0 && n2 == 0 && n1 == 0, "an older topic, or one for a later channel, is ignored"); vp_reach("ignored"); }
#elif RUN == 4
  w_send(al, "JOIN #x"); w_pump(); static const char *tx[] = {"a topic of many words, first", "a topic of many words, second", "A TOPIC OF MANY WORDS, FIRST"}; char text[80] = "", who[30] = ""; long at = 0, cts = CH->creationtime;
  for (int s = 0; s < D; s++) { w_advance(7); w_clear_all(); int p = vp_pick("from", 3), t = vp_pick("text", 3), ok = 1, same = !ircd_strcmp(text, tx[t]); long ts; const char *nk;
    if (p == 0) { w_send(al, w_fmt("TOPIC #x :%s", tx[t])); ts = w_now > at ? w_now : at; nk = "alice"; } else { int k = vp_pick("time", 4); ts = k == 0 ? w_now - 1000 : k == 1 ? at : k == 2 ? w_now : w_now + 5000; nk = p == 1 ? "carol" : "other"; ok = ts >= at; if (k == 1 && !at) return; if (k == 3) vp_reach("future"); w_send(L1, w_fmt("ACAAA T #x %l %l %s :%s", cts, ts, nk, tx[t])); }
    w_pump(); int seen = w_count(bob, " TOPIC #x :"), out = w_count(L2, " T #x "), back = w_count(L1, " T #x ");
    if (!ok) { vp_assert(!strcmp(CH->topic, text) && !strcmp(CH->topic_nick, who) && CH->topic_time == at && !seen && !out, "a topic older than the current one is ignored"); vp_reach("stale"); continue; }
    strcpy(text, tx[t]); strcpy(who, nk); at = ts; vp_assert(!strcmp(CH->topic, text) && !strcmp(CH->topic_nick, who) && CH->topic_time == at, "the topic has its text, setter and time, never a time before that of the topic it replaces"); if (same) vp_reach("same");
    vp_assert(seen == !same && out == 1 && back == (p == 0), "shown once if it differs, sent on once"); vp_assert(strstr(w_find(L2, " T #x "), w_fmt(" T #x %l %l %s :%s", cts, at, who, text)) != 0, "sent on with the channel's time, its own time, setter and text"); if (seen) vp_assert(strstr(w_find(bob, " TOPIC #x :"), text) != 0, "with its text"); }
#else
  w_send(al, "JOIN #x"); w_pump(); int d = vp_pick("extra", 3) - 1, n = TOPICLEN + d; char *l = malloc(n + 32); strcpy(l, "TOPIC #x :"); memset(l + 10, 'q', n); l[10 + n - 1] = 'Z'; l[10 + n] = 0; w_clear_all(); w_send(al, l); w_pump(); int want = n > TOPICLEN ? TOPICLEN : n; vp_assert((int)strlen(CH->topic) == want, "a topic is cut to the maximum length"); char *o = strstr(w_find(bob, " TOPIC #x :"), " :") + 2; vp_assert((int)strlen(o) == want && !strncmp(o, l + 10, want), "members see the topic as stored"); vp_reach(d > 0 ? "cut" : "fits");
#endif
}
