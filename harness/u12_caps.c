/* @property U12
 * @quick time=200 RUN=1 D=3 label=talk j=4
 * @quick time=60 RUN=2 label=effect j=4
 * @quick time=60 RUN=3 label=notify j=2
 * @thorough time=1500 RUN=1 D=4 label=talk j=4
 * @thorough time=100 RUN=2 label=effect j=4
 * @thorough time=100 RUN=3 label=notify j=2
 * @reach talk:ack talk:nak talk:ls talk:list talk:value talk:held talk:registered talk:unknown talk:gone talk:sticky effect:away effect:account effect:host effect:join effect:invite effect:names effect:echo notify:del notify:new
 * @bounds talk: every sequence of 3 (thorough 4) out of 24 CAP commands and events (NICK and USER, END, the login server leaving, its mechanisms changing or withdrawn) by a new connection or a user, one capability disabled; effect: nine kinds of event seen by a member with any combination of all capabilities; notify: the login server leaving and returning with every combination of notification and request of three users
 * @outside lists of capabilities too long for one line, capabilities of a connection not yet registered when the login server leaves, message tags (W04), login itself (U13)
 */
#include "chan.inc"
#include "capab.h"
const char *vp_features = "\"HUB\" = \"TRUE\"; \"HOST_HIDING\" = \"TRUE\"; \"ANNOUNCE_INVITES\" = \"TRUE\"; \"HIDDEN_HOST\" = \"hid.net\"; "
#if RUN == 1
 "\"CAP_CHGHOST\" = \"FALSE\"; "
#endif
 ;
#ifndef D
#define D 3
#endif
const char *vp_conf_extra = "UWorld { name = \"leaf1.test.net\"; };\n";
static const char *CN[] = {"account-notify", "account-tag", "away-notify", "cap-notify", "chghost", "echo-message", "extended-join", "invite-notify", "message-tags", "sasl", "server-time", "userhost-in-names"};
static const unsigned CB[] = {CAP_ACCOUNTNOTIFY, CAP_ACCOUNT_TAG, CAP_AWAYNOTIFY, CAP_CAPNOTIFY, CAP_CHGHOST, CAP_ECHOMESSAGE, CAP_EXTJOIN, CAP_INVITENOTIFY, CAP_MESSAGE_TAGS, CAP_SASL, CAP_SERVER_TIME, CAP_UHNAMES};
#define NC 12
static int bad; static char saslval[80];
static unsigned toks(const char *p, int neg) { unsigned m = 0; bad = 0; saslval[0] = 0; while (*p) { while (*p == ' ') p++; if (!*p) break; char t[80]; int n = 0, ng = *p == '-'; if (ng) p++; while (*p && *p != ' ' && n < 79) t[n++] = *p++; t[n] = 0; char *eq = strchr(t, '='); if (eq) { *eq = 0; strcpy(saslval, eq + 1); } int i; for (i = 0; i < NC; i++) if (!ircd_strcmp(t, CN[i])) break; if (i == NC || (eq && i != 9)) { bad = 1; continue; } if (ng == neg) m |= CB[i]; } return m; }
static unsigned dec(struct Client *c) { return cli_active(c); }
void vp_scenario(void) {
  std_network(); (void)dec; const char *mech = "PLAIN,EXTERNAL";
#if RUN == 1 || RUN == 3
  w_send(L1, "AC CF 1600000000 sasl.server :leaf2.*"); w_send(L1, w_fmt("AC CF 1600000000 sasl.mechanisms :%s", mech)); w_pump(); int avail = 1;
#endif
#if RUN == 1
  static const char *cmd[] = {"LS", "LS 302", "LS 301", "LIST", "REQ :away-notify", "REQ :-away-notify echo-message", "REQ :cap-notify", "REQ :-cap-notify", "REQ :sasl", "REQ :-sasl", "REQ :away-notify bogus", "REQ :ECHO-message   server-time", "REQ :-echo-message away-notify -away-notify", "REQ :away-notifyx", "REQ away-notify", "REQ", "REQ :chghost", "REQ :message-tags -sasl sasl", "END", "FOO", 0, 0, 0, 0};
  int user = vp_pick("user", 2), fd = user ? w_user("newb", "10.0.0.77") : w_connect(6667, "10.0.0.77", 5000), named = user, pend = 0, reg = user, is302 = 0; unsigned act = 0, cap = 0, fuzz = 0; w_advance(20); w_clear_all();
  for (int s = 0; s < D; s++) { int a = vp_pick("event", 24); const char *q = cmd[a]; w_clear(fd); struct Client *c = w_client(fd); const char *nk = reg || named ? "newb" : "*"; int was = avail; (void)was;
    if (q) w_send(fd, w_fmt("CAP %s", q));
    else if (a == 20) { if (named) vp_end(); w_send(fd, "NICK newb"); w_send(fd, "USER newb 0 0 :new"); named = 1; }
    else if (a == 21) { if (w_closed(L2)) vp_end(); w_eof(L2); avail = 0; }
    else if (a == 22) { mech = "SCRAM"; w_send(L1, w_fmt("AC CF 160000000%d sasl.mechanisms :%s", s + 1, mech)); avail = !w_closed(L2); }
    else { w_send(L1, w_fmt("AC CF 160000000%d sasl.mechanisms", s + 1)); avail = 0; }
    w_pump(); { char *p = strstr(w_out(fd), "PING :"); if (p && named) { w_send(fd, w_fmt("PONG :%s", p + 6)); w_pump(); } }
    if (!user && (q && (a < 3 || !strncmp(q, "REQ", 3))) && !reg) pend = 1; if (a == 18) pend = 0; int now = named && !pend; if (now && !reg) vp_reach("registered"); if (named && pend && !reg) vp_reach("held"); if (now) reg = 1; vp_assert(!w_closed(fd) && w_client(fd) == c && !!IsUser(c) == reg, "registration waits from the first LS or REQ until END");
    char *l = w_find(fd, ":vp.test.net CAP "); int lines = w_count(fd, ":vp.test.net CAP "); const char *pre = w_fmt(":vp.test.net CAP %s ", nk); char *rest = 0; if (l) { vp_assert(w_starts(l, pre), "answers name the client"); rest = l + strlen(pre); }
    if (a <= 2) { if (a == 1) { is302 = 1; act |= CAP_CAPNOTIFY; fuzz |= 0; } unsigned want = 0; for (int i = 0; i < NC; i++) want |= CB[i]; want &= ~CAP_CHGHOST; if (!avail) want &= ~CAP_SASL; if (is302) want &= ~CAP_CAPNOTIFY; vp_assert(lines == 1 && rest && w_starts(rest, "LS :"), "LS is answered"); unsigned got = toks(rest + 4, 0); vp_assert(got == want && !bad, "exactly what is configured and available is offered"); vp_assert(w_eq(saslval, is302 && avail ? mech : ""), "with its value to those who understand it"); vp_reach("ls"); if (saslval[0]) vp_reach("value"); }
    else if (a == 3) { vp_assert(lines == 1 && rest && w_starts(rest, "LIST :"), "LIST is answered"); unsigned got = toks(rest + 6, 0), ig = fuzz | (is302 ? CAP_CAPNOTIFY : 0); vp_assert((got & ~ig) == (cap & ~ig) && !bad && !saslval[0], "with exactly what is enabled"); vp_reach("list"); }
    else if (a < 18) { /* REQ */ const char *p = q[3] ? q + 4 + (q[4] == ':') : ""; unsigned set = 0, rem = 0; int nak = !*p; const char *t = p; while (*t && !nak) { while (*t == ' ') t++; int ng = *t == '-'; if (ng) t++; char w[40]; int n = 0; while (*t && *t != ' ') w[n++] = *t++; w[n] = 0; int i; for (i = 0; i < NC; i++) if (!ircd_strcmp(w, CN[i])) break; if (i == NC || i == 4 || (i == 9 && !ng && !avail) || (i == 3 && ng && is302)) { nak = 1; if (i == 3) vp_reach("sticky"); break; } if (ng) { rem |= CB[i]; set &= ~CB[i]; } else { set |= CB[i]; rem &= ~CB[i]; } }
      vp_assert(lines == 1 && rest, "a request is answered once"); if (nak) { vp_assert(w_eq(rest, w_fmt("NAK :%s", p)), "a request that cannot be granted whole is refused whole"); vp_reach("nak"); } else { vp_assert(w_starts(rest, "ACK :"), "a request that can be granted is"); vp_assert(toks(rest + 5, 0) == set && !bad && toks(rest + 5, 1) == rem && !bad, "naming exactly the changes"); cap = (cap | set) & ~rem; act = (act | set) & ~rem; fuzz &= ~(set | rem); vp_reach("ack"); } }
    else if (a == 19) { vp_assert(lines == 0 && w_count(fd, w_fmt(" 410 %s FOO ", nk)) == 1, "an unknown subcommand is refused"); vp_reach("unknown"); }
    else if (a >= 21) { int told = reg && (act & CAP_CAPNOTIFY) && was != avail; vp_assert(lines == told, "who wants to know is told of capabilities coming and going, once"); if (told) vp_assert(avail ? w_eq(rest, is302 ? w_fmt("NEW sasl=%s", mech) : "NEW sasl") : w_eq(rest, "DEL :sasl"), "of which, and how"); if (!avail && was) { if (told) { act &= ~CAP_SASL; cap &= ~CAP_SASL; vp_reach("gone"); } else fuzz |= CAP_SASL; } }
    else vp_assert(lines == 0, "nothing else is said");
    vp_assert((cli_active(c) & ~fuzz) == (act & ~fuzz), "what is in effect is exactly what was agreed");
  }
#elif RUN == 2
  /* bob sees what carol (behind leaf1), eve (here) and himself do on #x */
  int eve = w_user("eve", "10.0.0.7"), ev = vp_pick("event", 9); w_send(bob, "JOIN #x"); w_pump(); if (ev != 3 && ev != 4) { w_send(eve, "JOIN #x"); w_send(L1, w_fmt("ACAAA J #x %l", (long)w_now)); } w_pump(); w_send(L1, w_fmt("AC M #x +v AB%s", "")); w_pump(); if (ev == 2) w_send(eve, "MODE eve +x"); w_pump(); if (ev == 4) { w_send(L1, "AC AC ACAAA acc"); w_send(L1, "ACAAA A :away here"); } w_pump();
  struct Client *b = w_client(bob), *e = w_client(eve); w_advance(20); w_clear_all(); capset_t caps = vp_range("caps", 0, (1u << _E_CAP_LAST_CAP) - 1) & ~(CAP_MESSAGE_TAGS | CAP_SERVER_TIME | CAP_ACCOUNT_TAG); cli_active(b) = cli_capab(b) = caps;
#define HAS(x) ((caps & CAP_##x) != 0)
  if (ev == 0) { w_send(eve, "AWAY :gone"); w_pump(); vp_assert(w_lines(bob) == HAS(AWAYNOTIFY) && (!HAS(AWAYNOTIFY) || w_eq(w_line(bob, 0), ":eve!eve@10.0.0.7 AWAY :gone")), "going away is shown exactly to those who asked"); w_clear(bob); w_send(eve, "AWAY :still"); w_send(eve, "AWAY"); w_pump(); vp_assert(w_lines(bob) == HAS(AWAYNOTIFY) && (!HAS(AWAYNOTIFY) || w_starts(w_line(bob, 0), ":eve!eve@10.0.0.7 AWAY")), "and coming back"); vp_assert(!strstr(w_out(bob), "gone"), "without a message"); vp_reach("away"); }
  else if (ev == 1) { w_send(L1, w_fmt("AC AC AB%s acc", cli_yxx(e))); w_pump(); vp_assert(w_lines(bob) == HAS(ACCOUNTNOTIFY) && (!HAS(ACCOUNTNOTIFY) || w_eq(w_line(bob, 0), ":eve!eve@10.0.0.7 ACCOUNT acc")), "logging in is shown exactly to those who asked"); vp_reach("account"); }
  else if (ev == 2) { w_send(L1, w_fmt("AC AC AB%s acc", cli_yxx(e))); w_pump(); int i = 0; if (HAS(ACCOUNTNOTIFY)) i++; if (HAS(CHGHOST)) vp_assert(w_lines(bob) == i + 1 && w_count(bob, ":eve!eve@10.0.0.7 CHGHOST eve acc.hid.net") == 1, "a new host is shown as such to those who asked"); else vp_assert(w_count(bob, ":eve!eve@10.0.0.7 QUIT :Registered") == 1 && w_count(bob, ":eve!eve@acc.hid.net JOIN #x") == 1 && !w_count(bob, "CHGHOST") && w_lines(bob) == i + 2, "and to others as leaving and joining"); if (!HAS(CHGHOST)) vp_assert((w_count(bob, HAS(EXTJOIN) ? " JOIN #x acc :real name" : " JOIN #x acc ") == 1) == HAS(EXTJOIN), "with account and name to those who asked"); vp_reach("host"); }
  else if (ev == 3) { w_send(eve, "JOIN #x"); w_pump(); vp_assert(w_lines(bob) == 1 && w_eq(w_line(bob, 0), HAS(EXTJOIN) ? ":eve!eve@10.0.0.7 JOIN #x * :real name" : ":eve!eve@10.0.0.7 JOIN #x"), "who joins is shown with account and name exactly to those who asked"); vp_reach("join"); }
  else if (ev == 4) { w_send(L1, w_fmt("ACAAA J #x %l", (long)w_now)); w_pump(); char *j = w_find(bob, " JOIN #x"); vp_assert(w_lines(bob) == 1 + HAS(AWAYNOTIFY) && j && w_eq(j, HAS(EXTJOIN) ? ":carol!carol@host.carol JOIN #x acc :carol real" : ":carol!carol@host.carol JOIN #x") == 1, "likewise from elsewhere"); if (HAS(AWAYNOTIFY)) vp_assert(w_eq(w_line(bob, 1), ":carol!carol@host.carol AWAY :away here"), "and away at once"); vp_reach("join"); }
  else if (ev == 5) { w_send(bob, "PRIVMSG #x :hi"); w_send(bob, "PRIVMSG eve :yo"); w_send(bob, "NOTICE carol :no"); w_pump(); int h = HAS(ECHOMESSAGE); vp_assert(w_lines(bob) == 3 * h && w_count(bob, ":bob!bob@10.0.0.6 PRIVMSG #x :hi") == h && w_count(bob, ":bob!bob@10.0.0.6 PRIVMSG eve :yo") == h && w_count(bob, ":bob!bob@10.0.0.6 NOTICE carol :no") == h, "own messages are echoed exactly to those who asked"); vp_assert(w_count(eve, ":hi") == 1 && w_count(eve, ":yo") == 1 && w_count(L1, ":no") == 1 && w_count(L1, ":hi") == 1, "and delivered once either way"); vp_reach("echo"); }
  else if (ev == 6) { int h = HAS(UHNAMES); w_send(bob, "NAMES #x"); w_pump(); char *n = w_find(bob, " 353 "); vp_assert(n && w_count(bob, " 353 ") == 1, "harness: names"); vp_assert(!!strstr(n, "eve!eve@10.0.0.7") == h && !!strstr(n, "carol!carol@host.carol") == h && !!strstr(n, "@bob!bob@10.0.0.6") == h && strstr(n, "eve") && strstr(n, "carol") && strstr(n, "@bob"), "names carry hosts exactly for those who asked"); vp_reach("names"); }
  else if (ev == 7) { w_send(eve, "INVITE dave #x"); w_pump(); vp_assert(!w_count(bob, "INVITE"), "harness: only operators invite"); w_send(L1, w_fmt("AC M #x +o AB%s", cli_yxx(e))); w_pump(); w_clear_all(); w_send(eve, "INVITE dave #x"); w_pump(); int h = HAS(INVITENOTIFY); vp_assert(w_lines(bob) == 1 && w_count(bob, ":eve!eve@10.0.0.7 INVITE dave #x") == h && w_count(bob, " 345 ") == !h, "invitations are shown in the way asked for"); vp_reach("invite"); }
  else { w_send(L1, "ACAAA P #x :hey"); w_send(eve, "PART #x"); w_pump(); vp_assert(w_lines(bob) == 2 && w_count(bob, "PRIVMSG #x :hey") == 1 && w_count(bob, ":eve!eve@10.0.0.7 PART :#x") == 1, "nothing else depends on it"); }
#else
  /* three users; the login server leaves and comes back */
  const char *nm[] = {"boss", "bob", "last"}; int fds[3] = {boss, bob, w_user("last", "10.0.0.78")}, k[3], rq[3]; w_advance(20);
  for (int i = 0; i < 3; i++) { k[i] = vp_pick("notify", 3); rq[i] = vp_pick("request", 2); if (k[i]) w_send(fds[i], k[i] == 1 ? "CAP REQ :cap-notify" : "CAP LS 302"); if (rq[i]) w_send(fds[i], "CAP REQ :sasl"); } w_pump(); w_clear_all();
  w_eof(L2); w_pump(); for (int i = 0; i < 3; i++) { vp_assert(w_count(fds[i], w_fmt(" CAP %s DEL :sasl", nm[i])) == !!k[i] && w_count(fds[i], " CAP ") == !!k[i], "every user who wants to know is told that it is gone"); if (k[i]) vp_assert(!(cli_active(w_client(fds[i])) & CAP_SASL), "and no longer has it"); } w_clear_all(); vp_reach("del");
  for (int i = 0; i < 3; i++) { w_send(fds[i], "CAP LS"); w_send(fds[i], "CAP REQ :sasl"); } w_pump(); for (int i = 0; i < 3; i++) vp_assert(w_count(fds[i], " NAK :sasl") == 1 && w_count(fds[i], "sasl") == 1, "nor is it offered or given"); w_clear_all(); w_advance(10);
  L2 = w_connect(4400, "10.0.0.102", 40000); w_send(L2, "PASS :lpass"); w_send(L2, w_fmt("SERVER leaf2.test.net 1 %l %l J10 AD]]] +h6 :leaf", (long)w_now - 1000, (long)w_now)); w_send(L2, "AD EB"); w_send(L2, "AD EA"); w_pump();
  for (int i = 0; i < 3; i++) { vp_assert(w_count(fds[i], w_fmt(k[i] == 2 ? " CAP %s NEW sasl=PLAIN,EXTERNAL" : " CAP %s NEW sasl", nm[i])) == !!k[i] && w_count(fds[i], " CAP ") == !!k[i], "and told when it is back"); if (k[i]) vp_assert(!(cli_active(w_client(fds[i])) & CAP_SASL), "without getting it unasked"); } vp_reach("new"); (void)avail;
#endif
}
