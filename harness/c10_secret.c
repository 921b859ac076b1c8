/* @property C10
 * @quick time=60 RUN=1 label=query j=4
 * @quick time=60 RUN=2 label=long j=2
 * @reach query:seen query:hidden long:split
 * @bounds one of LIST, LIST #x, NAMES #x, NAMES 0, WHO #x, WHOIS of members, WHO of a member's nick, WHO by host mask, MODE #x by a non-operator x member or outsider x any combination of +p +s +i-lonely users, key set, operator or not; NAMES of a channel with 4..48 members with nicks of 1..12 letters and channel names of 2, 100 or 200 characters
 * @outside IRC operators (who may see more by privilege), delayed joins (C13)
 */
#include "chan.inc"
/* does some line of fd with numeric num contain text */
static int has(int fd, const char *num, const char *text) { int n = w_lines(fd); for (int i = 0; i < n; i++) { char *l = w_line(fd, i); if (strstr(l, num) && strstr(l, text)) return 1; } return 0; }
void vp_scenario(void) {
  std_network();
#if RUN == 1
  std_channel("#x"); w_send(boss, "MODE #x +k sesam"); w_send(boss, "TOPIC #x :hush"); int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al), *b = w_client(bob); w_pump(); int mem = vp_pick("member", 2), q = vp_pick("query", 9); if (mem) { w_send(boss, "INVITE alice #x"); w_send(al, "JOIN #x"); } w_pump();
  unsigned p = vp_bool("p"), s = vp_bool("s"), inv = vp_bool("invisible"); vp_assume((p & s) == 0); unsigned w = CH->mode.mode; w = symsel(w, MODE_PRIVATE, p); w = symsel(w, MODE_SECRET, s); CH->mode.mode = w; SYMFLAG(b, FLAG_INVISIBLE, inv); SYMFLAG(w_client(boss), FLAG_INVISIBLE, 0);
  unsigned op = 0; if (q == 8 && mem) { op = vp_bool("op"); struct Membership *m = find_member_link(CH, a); m->status = symsel(m->status, CHFL_CHANOP, op); }
  static const char *qs[] = {"LIST", "LIST #x", "NAMES #x", "NAMES 0", "WHO #x", "WHOIS bob,boss,carol", "WHO bob", "WHO *!*@10.0.0.6", "MODE #x"}; w_clear_all(); w_send(al, q == 7 ? "WHO 10.0.0.* h" : qs[q]); w_pump(); unsigned vis = (unsigned)mem | ((p | s) ^ 1u), both = (unsigned)mem | (inv ^ 1u); int seen;
  switch (q) {
  case 0: case 1: seen = has(al, " 322 ", " #x "); vp_assert((unsigned)seen == vis, "LIST shows a channel exactly to members, and to others unless it is private or secret"); vp_assert(has(al, " 32", "hush") == seen, "the topic is listed with the channel"); if (seen) vp_assert(has(al, " 322 alice #x ", mem ? "#x 4 :hush" : "#x 3 :hush"), "LIST counts the members"); break;
  case 2: seen = has(al, " 353 ", " #x :"); vp_assert((unsigned)seen == vis, "NAMES shows a channel exactly to members, and to others unless it is private or secret"); vp_assert((unsigned)has(al, " 353 ", "@boss") == vis && (unsigned)has(al, " 353 ", "bob") == (vis & both), "NAMES lists members; outsiders see no invisible ones"); if (seen) vp_assert(has(al, " 353 ", s ? " @ #x" : p ? " * #x" : " = #x"), "the kind of channel is shown"); break;
  case 3: seen = has(al, " 353 ", " #x :"); vp_assert((unsigned)seen == vis && (unsigned)has(al, " 353 ", "@boss") == vis, "NAMES shows a channel exactly to members, and to others unless it is private or secret"); break;
  case 4: { unsigned v2 = (unsigned)mem | (s ^ 1u); seen = has(al, " 352 alice #x ", " boss "); vp_assert((unsigned)seen == v2 && (unsigned)has(al, " 352 alice #x ", " bob ") == (v2 & both), "WHO lists the visible members of a channel, unless it is secret to the asker"); break; }
  case 5: seen = has(al, " 319 ", "#x"); vp_assert((unsigned)seen == vis && (unsigned)has(al, " 319 alice bob ", "#x") == vis && (unsigned)has(al, " 319 alice boss ", "@#x") == vis && (unsigned)has(al, " 319 alice carol ", "#x") == vis, "WHOIS shows a channel exactly to members, and to others unless it is private or secret"); vp_assert(has(al, " 311 alice bob ", "bob 10.0.0.6"), "WHOIS finds the user"); break;
  case 6: seen = has(al, " 352 ", "#x"); vp_assert(has(al, " 352 ", " bob "), "WHO finds a user by nick"); vp_assert(!(mem == 0 && seen && (p | s)), "WHO of a user does not reveal a hidden channel"); break;
  case 7: seen = has(al, " 352 ", " bob "); vp_assert((unsigned)seen == both, "WHO by mask shows users sharing a channel and others who are not invisible"); vp_assert(!(mem == 0 && (p | s) && has(al, " 352 ", "#x")), "WHO by mask does not reveal a hidden channel"); break;
  default: seen = has(al, " 324 alice #x ", "sesam"); vp_assert((unsigned)seen == op, "the key is shown to channel operators only"); vp_assert(has(al, " 324 alice #x +", "k"), "MODE tells that there is a key"); break; }
  vp_reach(seen ? "seen" : "hidden");
#else
  static char cn[256]; int L = vp_pick("name", 3); L = L == 0 ? 2 : L == 1 ? 100 : 200; memset(cn, 'c', L); cn[0] = '#'; cn[L] = 0; int nl = vp_pick("nick", 3), n = vp_pick("members", 12) * 4 + 3; nl = nl == 0 ? 3 : nl == 1 ? 9 : 12; char nick[48][16];
  for (int i = 0; i < n; i++) { memset(nick[i], 'n', nl); nick[i][nl - 2] = 'a' + i / 8; nick[i][nl - 1] = 'a' + i % 8; nick[i][nl] = 0; w_send(L1, w_fmt("AC N %s 1 1600000000 u h + AKAABn ACA%c%c :r", nick[i], 'B' + i / 26, 'A' + i % 26)); w_send(L1, w_fmt("ACA%c%c J %s 1600000000", 'B' + i / 26, 'A' + i % 26, cn)); }
  w_send(bob, w_fmt("JOIN %s", cn)); w_pump(); w_clear_all(); int by = vp_pick("by", 2); int fd = by ? boss : bob; w_send(fd, w_fmt("NAMES %s", cn)); w_pump(); int lines = w_count(fd, " 353 "); vp_assert(lines >= 1 && w_count(fd, " 366 ") == 1, "NAMES ends"); if (lines > 1) vp_reach("split"); int tot = 0, k = w_lines(fd);
  for (int i = 0; i < k; i++) { char *l = w_line(fd, i); vp_assert(strlen(l) <= 510, "a line keeps to the protocol limit"); if (!strstr(l, " 353 ")) continue; for (char *q = strstr(l, " :") + 2; *q;) { char *e = strchr(q, ' '); int len = e ? e - q : strlen(q); if (len) tot++; int f = len == 3 && !strncmp(q, "bob", 3); if (len == nl) for (int j = 0; j < n; j++) f |= !strncmp(q, nick[j], nl); vp_assert(f || !len, "only members are listed"); if (!e) break; q = e + 1; } }
  vp_assert(tot == n + 1, "every member is listed once"); for (int j = 0; j < n; j++) vp_assert(w_count(fd, nick[j]) == 1, "each member is listed");
#endif
}
