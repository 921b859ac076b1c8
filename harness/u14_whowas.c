/* @property U14
 * @quick time=200 D=4 label=hist j=4
 * @thorough time=2500 D=5 label=hist j=8
 * @reach hist:full hist:two hist:none hist:hidden hist:away hist:limit hist:chased hist:gone hist:late hist:remote
 * @bounds every sequence of 4 (thorough 5) of nick changes to and from three names of one hash bucket, quits, fresh users, going away and hiding the host by a user here and one elsewhere, with a history of 3 entries, then WHOWAS for one of the names by an ordinary user or an operator with several limits, then KILL of the name 5, 29 or 30 seconds after the last event
 * @outside several names in one query, remote queries (N01), the text of times
 */
#include "chan.inc"
const char *vp_features = "\"HUB\" = \"TRUE\"; \"HOST_HIDING\" = \"TRUE\"; \"HIDDEN_HOST\" = \"hid.net\"; \"NICKNAMEHISTORYLENGTH\" = \"3\"; ";
const char *vp_conf_extra = "UWorld { name = \"leaf1.test.net\"; };\n";
#ifndef D
#define D 4
#endif
static struct ent { const char *nick, *user, *host, *real, *info, *away, *srv; struct Client *on; long t; } lg[32]; static int nl;
static const char *dup(const char *s) { return strcpy(malloc(strlen(s) + 1), s); }
static void addh(struct Client *c, int still) { struct ent *e = &lg[nl++]; e->nick = dup(cli_name(c)); e->user = dup(cli_user(c)->username); e->host = dup(cli_user(c)->host); e->real = HasHiddenHost(c) ? dup(cli_user(c)->realhost) : 0; e->info = dup(cli_info(c)); e->away = cli_user(c)->away ? dup(cli_user(c)->away) : 0; e->srv = cli_name(cli_user(c)->server); e->on = still ? c : 0; e->t = w_now; }
static void gone(struct Client *c) { for (int i = 0; i < nl; i++) if (lg[i].on == c) lg[i].on = 0; }
static void pongs(void) { for (int i = 5; i < 60; i++) if (!w_closed(i) && LocalClientArray[i] && IsUser(LocalClientArray[i])) w_send(i, "PONG x"); else if (!w_closed(i) && LocalClientArray[i] && IsServer(LocalClientArray[i])) w_send(i, w_fmt("%s Z x", cli_yxx(LocalClientArray[i]))); w_pump(); }
void vp_scenario(void) {
  std_network(); w_oper(boss); static const char *nm[] = {"anna", "inte", "elis"}; int A = w_user("anna", "10.0.0.71"), rc = 0, ac = 0; struct Client *a = w_client(A), *r = FindUser("carol"); static const char *rnum[] = {"ACAAA", "ACAAD", "ACAAE", "ACAAF", "ACAAG"}; (void)rc;
  for (int s = 0; s < D; s++) { w_advance(31); pongs(); w_clear_all(); int ev = vp_pick("event", 11);
    if (ev <= 2) { if (!a || FindUser(nm[ev])) vp_end(); addh(a, 1); w_send(A, w_fmt("NICK %s", nm[ev])); w_pump(); vp_assert(w_eq(cli_name(a), nm[ev]), "harness: nick"); }
    else if (ev <= 5) { if (!r || FindUser(nm[ev - 3])) vp_end(); addh(r, 1); w_send(L1, w_fmt("%s N %s %l", rnum[rc], nm[ev - 3], (long)w_now)); w_pump(); vp_assert(w_eq(cli_name(r), nm[ev - 3]), "harness: nick"); }
    else if (ev == 6) { if (!a) vp_end(); addh(a, 0); gone(a); a = 0; w_eof(A); w_pump(); }
    else if (ev == 7) { if (!r) vp_end(); addh(r, 0); gone(r); r = 0; w_send(L1, w_fmt("%s Q :bye", rnum[rc])); w_pump(); }
    else if (ev == 8) { if (a) { if (r) vp_end(); rc++; if (FindUser("inte")) vp_end(); w_send(L1, w_fmt("AC N inte 1 1600000000 r%d host.r +i AKAgAB %s :new remote", rc, rnum[rc])); w_pump(); r = FindUser("inte"); vp_assert(r != 0, "harness: new"); } else { if (FindUser("anna")) vp_end(); A = w_user_on(6667, "anna", w_fmt("u%d", ++ac), "10.0.0.72"); a = w_client(A); vp_assert(a && IsUser(a), "harness: new"); } }
    else if (ev == 9) { if (!a) vp_end(); w_send(A, cli_user(a)->away ? "AWAY" : "AWAY :be back"); w_pump(); }
    else { if (!a || HasHiddenHost(a)) vp_end(); w_send(A, w_fmt("MODE %s +x", cli_name(a))); w_send(L1, w_fmt("AC AC AB%s acc", cli_yxx(a))); w_pump(); vp_assert(HasHiddenHost(a), "harness: hidden"); }
    if (w_closed(L1)) vp_end(); }
  static const int lates[] = {5, 29, 30}; w_advance(lates[vp_pick("late", 3)]); pongs(); w_clear_all(); static const int ops[] = {0, 1, 1, 0, 1}, lims[] = {0, 0, 1, 2, 3}; int o = vp_pick("query", 5), op = ops[o], q = vp_pick("who", 3), lim = lims[o], fd = op ? boss : bob; static const char *lt[] = {"", " 1", " 2", " 0"}, *up[] = {"ANNA", "inte", "eLis"};
  w_send(fd, w_fmt("WHOWAS %s%s", up[q], lt[lim])); w_pump(); int lo = nl > 3 ? nl - 3 : 0, n = 0, at = 0, max = lim == 1 ? 1 : lim == 2 ? 2 : 99; const char *me_ = op ? "boss" : "bob";
  for (int i = nl - 1; i >= lo; i--) if (!ircd_strcmp(lg[i].nick, nm[q])) { if (n == max) { vp_reach("limit"); break; } n++; struct ent *e = &lg[i]; char *l = w_lines(fd) > at ? w_line(fd, at++) : ""; vp_assert(w_eq(l, w_fmt(":vp.test.net 314 %s %s %s %s * :%s", me_, e->nick, e->user, e->host, e->info)), "each recent holder is shown as it was, newest first");
      if (op && e->real) { w_lines(fd); l = w_line(fd, at++); vp_assert(strstr(l, w_fmt(" 338 boss %s %s@%s ", e->nick, e->user, e->real)) != 0, "the real host to operators"); vp_reach("hidden"); }
      w_lines(fd); l = w_line(fd, at++); vp_assert(w_starts(l, w_fmt(":vp.test.net 312 %s %s %s :", me_, e->nick, op ? e->srv : "*.undernet.org")), "with the server"); if (e->away) { w_lines(fd); l = w_line(fd, at++); vp_assert(w_eq(l, w_fmt(":vp.test.net 301 %s %s :%s", me_, e->nick, e->away)), "and away message"); vp_reach("away"); } if (!w_eq((char *)e->srv, "vp.test.net")) vp_reach("remote"); }
  if (!n) { vp_assert(w_lines(fd) > at && w_starts(w_line(fd, at++), w_fmt(":vp.test.net 406 %s %s ", me_, up[q])), "or that there was none"); vp_reach("none"); } vp_assert(w_lines(fd) == at + 1 && w_starts(w_line(fd, at), w_fmt(":vp.test.net 369 %s %s ", me_, up[q])), "and nobody else"); if (n > 1) vp_reach("two"); if (nl > 3) vp_reach("full");
  /* an operator's KILL by a name just given up reaches who gave it up, nobody else */
  w_clear_all(); struct Client *tgt = FindUser(nm[q]); struct ent *e = 0; if (!tgt) { for (int i = nl - 1; i >= lo; i--) if (!ircd_strcmp(lg[i].nick, nm[q])) { e = &lg[i]; break; } if (e && e->t > w_now - 30) { tgt = e->on; if (tgt) vp_reach("chased"); else vp_reach("gone"); } else if (e && e->on) vp_reach("late"); }
  const char *tn = tgt ? dup(cli_name(tgt)) : "", *an = a ? dup(cli_name(a)) : "", *rn = r ? dup(cli_name(r)) : ""; w_send(boss, w_fmt("KILL %s :out", nm[q])); w_pump(); vp_assert((w_count(boss, " 401 ") == 1) == !tgt, "a name nobody had lately is unknown"); if (a) vp_assert(!!FindUser(an) == !w_eq((char *)an, tn), "a name just given up reaches who gave it up"); if (r) vp_assert(!!FindUser(rn) == !w_eq((char *)rn, tn), "and nobody else");
}
