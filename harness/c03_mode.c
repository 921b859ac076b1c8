/* @property C03
 * @quick time=150 RUN=1 label=flags j=4
 * @quick time=100 RUN=2 label=param j=2
 * @quick time=100 RUN=3 label=member j=2
 * @reach flags:changed flags:unchanged flags:denied flags:outsider param:changed param:denied param:badkey member:changed member:denied member:service
 * @bounds one MODE command by a local user against one channel. flags: any two signed letters out of {p s m t i n r D c C u M Z l y} x every previous combination of those modes x {operator, plain member, non-member}. param: +l with an optional leading digit and any byte or a number beyond the range, -l, +k/-k with any two bytes, x previous limit and key. member: +o -o +v -v on {local member, self, remote member, non-member, unknown nick} x target status, service flag and oplevels from {0 5 6 998 999}, alone or after three removals of voice that change nothing
 * @outside more than two changes in one command, A/U passwords (C12), bans (C02), changes by servers (C15), local (&) channels
 */
#include "chan.inc"
static const char LET[] = "pstminrDcCuMZly"; 
static const unsigned BIT[] = { MODE_PRIVATE, MODE_SECRET, MODE_TOPICLIMIT, MODE_MODERATED, MODE_INVITEONLY, MODE_NOPRIVMSGS, MODE_REGONLY, MODE_DELJOINS, MODE_NOCOLOR, MODE_NOCTCP, MODE_NOPARTMSGS, MODE_MODERATENOREG, MODE_TLSONLY, MODE_LIMIT };
static unsigned bit_of(char c) { for (int i = 0; i < 14; i++) if (LET[i] == c) return BIT[i]; return 0; }
/* changes announced by the flag part of a MODE line: returns flags after applying it to `was` */
static unsigned play(const char *p, unsigned was, int *ok) { int add = 1; *ok = 1; int any = 0; for (; *p && *p != ' '; p++) { if (*p == '+') add = 1; else if (*p == '-') add = 0; else { unsigned b = bit_of(*p == 'z' ? 'Z' : *p); if (!b) *ok = 0; any = 1; was = add ? was | b : was & ~b; } } if (!any) *ok = 0; return was; }
static char *body(char *line, const char *after) { char *p = strstr(line, after); return p ? p + strlen(after) : 0; }
static unsigned r_eq2(unsigned char a, unsigned char b) { unsigned u = a + 32u * (unsigned)((a >= 65) & (a <= 94)), v = b + 32u * (unsigned)((b >= 65) & (b <= 94)); return (unsigned)(u == 97) & (unsigned)(v == 98); } /* equals the key "Ab" under case folding */
void vp_scenario(void) {
  std_network(); std_channel("#x");
  int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al);
  int member = RUN == 1 ? vp_pick("member", 2) : 1; if (member) w_send(al, "JOIN #x"); w_pump();
  struct Membership *m = find_member_link(CH, a); unsigned op = 0;
  if (m) { op = RUN == 1 ? (unsigned)vp_pick("op", 2) : vp_bool("op"); m->status = symsel(m->status, CHFL_CHANOP, op); }
  unsigned was = 0;
#if RUN == 1
  for (int i = 0; i < 13; i++) { char nm[3] = {'m', LET[i], 0}; unsigned s = vp_bool(nm); was |= BIT[i] & (0u - s); }
  vp_assume((was & (MODE_SECRET | MODE_PRIVATE)) != (MODE_SECRET | MODE_PRIVATE));
  unsigned lim = (unsigned)vp_range("limit", 0, 2); was |= MODE_LIMIT & (0u - (unsigned)(lim != 0));
  CH->mode.mode = was | (was & MODE_TLSONLY ? MODE_TLSINSECURE : 0); CH->mode.limit = lim;
  int s1 = vp_pick("sign1", 2), s2 = vp_pick("sign2", 2), l1 = vp_pick("let1", 15), l2 = vp_pick("let2", 15);
  vp_assume(!(s1 && LET[l1] == 'l') && !(s2 && LET[l2] == 'l'));
  char cmd[5] = { s1 ? '+' : '-', LET[l1], s2 ? '+' : '-', LET[l2], 0 };
  w_clear_all(); w_send(al, w_fmt("MODE #x %s", cmd)); w_pump();
  unsigned want = was;
  if (op) for (int i = 0; i < 4; i += 2) { unsigned b = bit_of(cmd[i + 1]); if (cmd[i] == '+') { want |= b; if (b == MODE_SECRET) want &= ~MODE_PRIVATE; if (b == MODE_PRIVATE) want &= ~MODE_SECRET; } else want &= ~b; }
  unsigned mask = 0; for (int i = 0; i < 14; i++) mask |= BIT[i];
  unsigned now = CH->mode.mode & mask;
  int nb = w_count(bob, " MODE #x "), nB = w_count(boss, " MODE #x "), na = w_count(al, " MODE #x "), n1 = w_count(L1, " M #x "), n2 = w_count(L2, " M #x ");
  vp_assert(now == want, "exactly the requested modes change, and only for an operator"); vp_assert((CH->mode.limit != 0) == ((want & MODE_LIMIT) != 0), "the limit follows its mode");
  if (want != was) {
    vp_assert(nb == 1 && nB == 1 && na == 1 && n1 == 1 && n2 == 1, "a change is shown once to each local member and sent once to each server");
    int ok; char *l = w_find(bob, " MODE #x "), *s = w_find(L1, " M #x "); vp_assert(w_starts(l, ":alice!alice@10.0.0.5 MODE #x "), "the change is attributed to its author");
    vp_assert(w_starts(s, w_fmt("%s%s M #x ", cli_yxx(&me), cli_yxx(a))), "servers learn the author");
    vp_assert(play(body(l, " MODE #x "), was, &ok) == want && ok, "members see the change that happened"); vp_assert(play(body(s, " M #x "), was, &ok) == want && ok, "servers see the change that happened");
    vp_assert(w_eq(w_find(L2, " M #x "), s), "all servers see the same"); vp_reach("changed");
  } else {
    vp_assert(nb == 0 && nB == 0 && na == 0 && n1 == 0 && n2 == 0, "nothing is announced when nothing changed");
    if (op) vp_reach("unchanged"); else { vp_assert(w_count(al, member ? " 482 alice #x" : " 442 alice #x") == ((LET[l1] != 'y') | (LET[l2] != 'y')), "a user without operator status is told so once"); vp_reach(member ? "denied" : "outsider"); }
  }
#elif RUN == 2
  unsigned lim = (unsigned)vp_range("limit", 0, 30); CH->mode.limit = lim; CH->mode.mode |= MODE_LIMIT & (0u - (unsigned)(lim != 0)); was = CH->mode.mode;
  int haskey = vp_pick("haskey", 3); if (haskey) strcpy(CH->mode.key, haskey == 2 ? "Abc" : "Ab"); int kind = vp_pick("kind", 5);
  unsigned char c0 = vp_byte("arg"), c1 = vp_byte("arg"), c2 = '0'; char line[40];
  if (kind < 1) { vp_assume(c0 != 0 && c0 != ' ' && c0 != 10 && c0 != 13 && c1 == 'x'); int lead = vp_pick("lead", 3); strcpy(line, w_fmt("MODE #x +l %sx", lead == 2 ? "" : lead ? "1" : "0")); line[strlen(line) - 1] = c0; if (lead == 2) vp_assume(c0 != ':' && c0 != '+' && c0 != '-'); c2 = lead == 1; }
  else if (kind == 1) { vp_assume(c0 == 'x' && c1 == 'x'); strcpy(line, "MODE #x -l"); }
  else if (kind == 4) vp_assume(c0 == 'x' && c1 == 'x'); else { vp_assume(c0 != 0 && c0 != ' ' && c0 != 10 && c0 != 13 && c0 != ':' && c1 != 0 && c1 != ' ' && c1 != 10 && c1 != 13); strcpy(line, kind == 2 ? "MODE #x +k xx" : "MODE #x -k xx"); line[11] = c0; line[12] = c1; }
  if (kind == 4) { static const char *num[] = {"-1", "-2", "4294967295", "2147483648", "2147483647", "-0", "007"}; static const unsigned val[] = {0, 0, 0, 0, 2147483647u, 0, 7}; int q = vp_pick("number", 7); vp_assume(haskey == 0); w_clear_all(); w_send(al, w_fmt("MODE #x +l %s", num[q])); w_pump(); unsigned want = op && val[q] ? val[q] : lim; vp_assert(CH->mode.limit == want, "a limit changes to the requested value, for an operator only"); vp_assert(w_count(bob, " MODE #x ") == (int)(want != lim) && w_count(L1, " M #x ") == (int)(want != lim), "exactly the changes are announced"); if (want != lim) vp_assert(w_eq(w_find(bob, " MODE #x "), w_fmt(":alice!alice@10.0.0.5 MODE #x +l %l", (long)val[q])), "members see the new limit"); return; }
  char okey[32]; strcpy(okey, CH->mode.key); w_clear_all(); w_send(al, line); w_pump();
  int nb = w_count(bob, " MODE #x "), nB = w_count(boss, " MODE #x "), na = w_count(al, " MODE #x "), n1 = w_count(L1, " M #x "), n2 = w_count(L2, " M #x "); int chg = nb == 1 && nB == 1 && na == 1 && n1 == 1 && n2 == 1; vp_assert(chg || (!nb && !nB && !na && !n1 && !n2), "a change is announced to everybody or nobody");
  if (kind < 2) {
    unsigned dig = (unsigned)((c0 >= '0') & (c0 <= '9')), v = kind ? 0 : dig ? c2 * 10u + (c0 - '0') : c2; unsigned want = kind ? lim & (0u - (op ^ 1u)) : op & (v != 0) ? v : lim;
    vp_assert(CH->mode.limit == want, "a limit changes to the requested value, for an operator only"); vp_assert(((CH->mode.mode & MODE_LIMIT) != 0) == (want != 0), "the limit mode follows the limit"); vp_assert((chg != 0) == (want != lim), "exactly the changes are announced");
    if (chg) { vp_reach("changed"); vp_assert(w_eq(w_find(bob, " MODE #x "), kind ? ":alice!alice@10.0.0.5 MODE #x -l" : w_fmt(":alice!alice@10.0.0.5 MODE #x +l %l", (long)v)), "members see the new limit"); vp_assert(w_starts(body(w_find(L1, " M #x "), " M #x "), kind ? "-l " : w_fmt("+l %l ", (long)v)), "servers see the new limit"); }
  } else {
    unsigned bad = (c0 <= ' ') | (c0 == ',') | (c1 <= ' ') | (c1 == ','), same = r_eq2(c0, c1), could = op & (bad ^ 1u) & (kind == 2 ? (unsigned)!haskey : haskey == 1 ? same : 0u);
    unsigned now0 = (unsigned char)CH->mode.key[0], now1 = (unsigned char)CH->mode.key[1];
    if (kind == 2) vp_assert(could ? (now0 == c0) & (now1 == c1) & (CH->mode.key[2] == 0) : now0 == (unsigned char)okey[0], "a key is set only by an operator, when valid and none is set");
    else vp_assert(could ? now0 == 0 : now0 == (unsigned char)okey[0], "a key is removed only by an operator naming it");
    vp_assert((chg != 0) == could, "exactly the changes are announced");
    if (chg) { vp_reach("changed"); char e[64]; strcpy(e, w_fmt(":alice!alice@10.0.0.5 MODE #x %sk ??", kind == 2 ? "+" : "-")); int k = strlen(e); e[k - 2] = c0; e[k - 1] = c1; vp_assert(w_eq(w_find(bob, " MODE #x "), e), "members see the key change"); }
    if (bad) vp_reach("badkey");
  }
  if (!op) { vp_assert(!chg, "a plain member changes nothing"); vp_reach("denied"); }
#else
  static const char *tn[] = {"bob", "alice", "carol", "dave", "nobody"}; int t = vp_pick("target", 5), add = vp_pick("add", 2), voice = vp_pick("voice", 2), levs[] = {0, 5, 998, 999, 6}, lev = levs[vp_pick("mylevel", 4)], tlev = t == 1 || t > 2 ? 0 : levs[vp_pick("tlevel", 5)];
  struct Client *tc = t < 4 ? FindUser(tn[t]) : 0; struct Membership *tm = tc ? find_member_link(CH, tc) : 0; unsigned top = 0, tvo = 0, svc = 0;
  SetOpLevel(m, lev);
  if (tm && tm != m) { top = vp_bool("top"); SetOpLevel(tm, tlev); tm->status = symsel(tm->status, CHFL_CHANOP, top); } else top = tm ? op : 0, tlev = lev;
  if (tm) { tvo = vp_bool("tvoice"); tm->status = symsel(tm->status, CHFL_VOICE, tvo); svc = vp_bool("service"); SYMFLAG(tc, FLAG_CHSERV, svc); }
  int lead = !voice && vp_pick("lead", 2); const char *ln[3] = {"", "", ""}; if (lead) { int q = 0; static const char *all[] = {"boss", "bob", "carol", "alice"}; for (int i = 0; i < 4 && q < 3; i++) if (t > 3 || strcmp(all[i], tn[t])) ln[q++] = all[i]; }
  w_clear_all(); w_send(al, lead ? w_fmt("MODE #x -vvv%s%s %s %s %s %s", add ? "+" : "-", "o", ln[0], ln[1], ln[2], tn[t]) : w_fmt("MODE #x %s%s %s", add ? "+" : "-", voice ? "v" : "o", tn[t])); w_pump();
  unsigned cur = voice ? tvo : top, could = op & (tm != 0) & (unsigned)(cur != (unsigned)add);
  if (tm && !add && !voice) { could &= svc ^ 1u; if (tm != m) could &= (unsigned)((tlev > lev) | ((tlev == lev) & (lev >= MAXOPLEVEL))); }
  unsigned want = could ? (unsigned)add : cur;
  if (tm) { vp_assert(voice ? !!(tm->status & CHFL_VOICE) == want : !!(tm->status & CHFL_CHANOP) == want, "member status changes as requested, for an operator only"); vp_assert(voice ? !!(tm->status & CHFL_CHANOP) == top : !!(tm->status & CHFL_VOICE) == tvo, "only the named status changes"); }
  if (tm && add && !voice && could) vp_assert(OpLevel(tm) == (lev >= MAXOPLEVEL ? MAXOPLEVEL : lev + 1), "a new operator ranks below the one who made it");
  int nb = w_count(bob, " MODE #x "), nB = w_count(boss, " MODE #x "), na = w_count(al, " MODE #x "), n1 = w_count(L1, " M #x "), n2 = w_count(L2, " M #x ");
  vp_assert(nb == (int)could && nB == nb && na == nb && n1 == nb && n2 == nb, "a status change is announced once to members and servers, and only if it happened");
  if (could) { vp_reach("changed"); vp_assert(w_eq(w_find(bob, " MODE #x "), w_fmt(":alice!alice@10.0.0.5 MODE #x %s%s %s", add ? "+" : "-", voice ? "v" : "o", tn[t])), "members see who changed"); vp_assert(w_starts(body(w_find(L2, " M #x "), " M #x "), w_fmt("%s%s %s%s", add ? "+" : "-", voice ? "v" : "o", cli_yxx(cli_user(tc)->server), cli_yxx(tc))), "servers see who changed"); }
  else { if (!op) { vp_assert(w_count(al, " 482 alice #x") == 1, "a user without operator status is told so"); vp_reach("denied"); } else if (t < 4 && !tm) vp_assert(w_count(al, " 441 alice ") == 1, "told about a non-member"); else if (t == 4) vp_assert(w_count(al, " 401 alice ") == 1, "told about an unknown nick"); if (svc) vp_reach("service"); }
#endif
}
