/* @property C12
 * @quick time=60 RUN=1 label=set j=6
 * @quick time=60 RUN=2 label=join j=4
 * @quick time=60 RUN=3 label=level j=4
 * @quick time=60 RUN=4 label=empty j=2
 * @reach set:seta set:cleara set:setu set:clearu set:notop set:notmanager set:secured set:wrong set:invalid join:manager join:upass join:denied join:plain join:speech level:opped level:deopped level:refused level:explicit level:outsider empty:kept empty:gone empty:plain
 * @bounds one MODE +A/-A/+U/-U by {manager, other operator, non-operator} with a password one byte of which is arbitrary, or an ill-formed one x {neither, admin, both} passwords set x channel age {new, 172799 s, 172800 s} x oper status; one JOIN with a key one byte of which is arbitrary x passwords set x channel modes {none, +i, +k, +b}; one op or deop with operator levels {0 1 5 998 999}, stated level {none, 0, 1, 5, 6, 999, 1000}; an emptied channel aged {new, 48 h} looked at {50 s, 125 s, 49 h} later
 * @outside OPLEVELS off (C03); password conflicts between servers; passwords differing only by letter case
 */
#include "chan.inc"
#ifndef RUN
#define RUN 1
#endif
const char *vp_features = "\"OPLEVELS\" = \"TRUE\"; ";
static int num(int fd, const char *n) { return w_count(fd, w_fmt(" %s ", n)); }
static char *modestr(int fd) { w_clear(fd); w_send(fd, "MODE #x"); w_pump(); return w_find(fd, " 324 "); }
void vp_scenario(void) {
  std_network(); std_channel("#x"); struct Client *bossc = w_client(boss), *bobc = w_client(bob), *carol = FindUser("carol"); struct Membership *mb = find_member_link(CH, bossc), *m;
#if RUN == 1
  w_send(boss, "MODE #x +o bob"); int al = w_user("alice", "10.0.0.5"); w_send(al, "JOIN #x"); w_pump(); struct Client *a = w_client(al);
  int who = vp_pick("who", 3), pw = vp_pick("passwords", 3), age = vp_pick("age", 3), op = vp_pick("op", 4), bad = vp_pick("form", 4); int fd = who == 0 ? boss : who == 1 ? bob : al; struct Client *c = w_client(fd); const char *nk = cli_name(c);
  if (pw) w_send(boss, "MODE #x +A aba"); if (pw > 1) w_send(boss, "MODE #x +U aca"); w_pump();
  vp_assert((CH->mode.apass[0] != 0) == (pw > 0) && (CH->mode.upass[0] != 0) == (pw > 1), "harness: passwords set");
  static const long ages[] = {0, 172799, 172800}; int oper = op >= 1 && age == 2 && who == 0 && op == 1 ? vp_pick("oper", 2) : 0; if (oper) w_oper(fd);
  char par[40]; unsigned char s = 0; if (bad == 0) { s = vp_byte("byte"); vp_assume((s >= 'a' && s <= 'z')); par[0] = 'a'; par[1] = s; par[2] = 'a'; par[3] = 0; } else strcpy(par, bad == 1 ? "a,a" : bad == 2 ? "abcdefghijklmnopqrstuvwxyz" : "a\001a");
  static const char *ops[] = {"+A", "-A", "+U", "-U"}; int oplev = OpLevel(find_member_link(CH, bobc)), isA = op < 2, add = !(op & 1);
  w_advance(20); CH->creationtime = w_now - ages[age]; w_clear_all(); w_send(fd, w_fmt("MODE #x %s %s", ops[op], par)); w_pump();
  int ea = pw > 0 && s == 'b', eu = pw > 1 && s == 'c', ok = 0; const char *err = 0;
  if (who == 2) err = "482"; else if (who == 1) err = pw ? "561" : "566";
  else if (op == 0) err = pw ? "467" : bad ? "525" : 0; else if (op == 1) err = pw > 1 ? "563" : !ea ? "467" : age == 2 && !oper ? "562" : 0;
  else if (bad) err = "525"; else if (op == 2) err = !pw ? "564" : ea ? "567" : pw > 1 ? "467" : 0; else err = eu ? 0 : "467";
  if (err) { vp_assert(num(fd, err) == 1, "a refused password change gets the right explanation"); vp_assert(num(boss, "MODE") + num(bob, "MODE") + num(al, "MODE") + num(L1, "M") + num(L2, "M") == 0, "a refused password change is announced to nobody");
    vp_assert(w_eq(CH->mode.apass, pw ? "aba" : "") && w_eq(CH->mode.upass, pw > 1 ? "aca" : "") && OpLevel(find_member_link(CH, bobc)) == oplev, "a refused password change changes nothing"); vp_reach(who == 2 ? "notop" : who == 1 ? "notmanager" : op == 1 && age == 2 && ea && pw == 1 ? "secured" : bad ? "invalid" : "wrong"); }
  else {
    char *l = w_find(al, " MODE #x "); vp_assert(l != 0 && num(al, "MODE") == 1 && num(boss, "MODE") == 1 && num(bob, "MODE") == 1, "a password change is announced once to every member"); int hidden = w_eq(strstr(l, " MODE "), w_fmt(" MODE #x %s *", ops[op])); vp_assert(hidden, "members see that a password changed but not the password");
    vp_assert(num(L1, "M") == 1 && num(L2, "M") == 1, "every server learns of a password change"); char *t = strstr(w_find(L1, " M #x "), " M #x "); char e[40]; strcpy(e, w_fmt(" M #x %s ", ops[op])); strcat(e, par); vp_assert(w_starts(t, e), "servers learn the password itself");
    const char *na = isA ? (add ? par : "") : "aba", *nu = isA ? (op == 1 ? "" : pw > 1 ? "aca" : "") : add ? par : ""; vp_assert(!strcmp(CH->mode.apass, na) && !strcmp(CH->mode.upass, nu), "a password change takes effect");
    if (op == 0) { vp_assert(num(boss, "030") == 1 && num(boss, "031") == 1, "the one who sets the admin password is warned to keep it"); vp_assert(OpLevel(mb) == 0, "the one who sets the admin password becomes the highest operator"); vp_assert(OpLevel(find_member_link(CH, bobc)) == MAXOPLEVEL, "setting the admin password leaves other operators at the lowest rank"); vp_reach("seta"); }
    if (op == 1) { vp_assert(num(boss, "032") == 1, "clearing the admin password is confirmed"); vp_assert(OpLevel(mb) == MAXOPLEVEL && OpLevel(find_member_link(CH, bobc)) == MAXOPLEVEL, "without an admin password all operators are equal"); vp_reach("cleara"); } if (op == 2) vp_reach("setu"); if (op == 3) vp_reach("clearu");
  }
  /* what MODE queries show */
  if (bad == 0) { w_advance(20); char *q = modestr(al), *z; vp_assert(q != 0, "modes can be queried"); z = strstr(q, " #x +"); vp_assert(z != 0, "modes can be queried"); int la = CH->mode.apass[0] != 0, lu = CH->mode.upass[0] != 0; vp_assert(w_starts(z, la ? lu ? " #x +AU * *" : " #x +A *" : " #x +"), "plain members never see channel passwords"); q = modestr(bob); z = strstr(q, " #x +"); vp_assert(w_starts(z, la ? lu ? " #x +AU * *" : " #x +A *" : " #x +"), "lower operators never see channel passwords");
    q = modestr(boss); z = strstr(q, " #x +"); char e[40]; strcpy(e, la ? lu ? " #x +AU * " : " #x +A *" : " #x +"); if (lu) strcat(e, CH->mode.upass); vp_assert(w_starts(z, e), "the highest operator sees the user password, nobody sees the admin password"); }
#elif RUN == 2
  int pw = vp_pick("passwords", 3), cm = vp_pick("modes", 4); if (pw) w_send(boss, "MODE #x +A aba"); if (pw > 1) w_send(boss, "MODE #x +U aca"); if (cm == 1) w_send(boss, "MODE #x +i"); if (cm == 2) w_send(boss, "MODE #x +k ada"); if (cm == 3) w_send(boss, "MODE #x +b *!*@10.0.0.5"); w_pump();
  int al = w_user("alice", "10.0.0.5"); unsigned char s = vp_byte("byte"); vp_assume(s > ' ' && s < 127 && s != ','); char line[32]; strcpy(line, "JOIN #x a?a"); line[9] = s; w_advance(20); w_clear_all(); w_send(al, line); w_pump(); m = find_member_link(CH, w_client(al));
  int mgr = pw > 0 && s == 'b', usr = pw > 1 && s == 'c' && !mgr, plain = !mgr && !usr && (cm == 0 || (cm == 2 && s == 'd')); const char *num_ = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(al)));
  vp_assert((m != 0) == (mgr | usr | plain), "a channel password admits past +i, +k and bans; without it they apply"); 
  if (!m) { vp_assert(w_count(boss, " JOIN ") + w_count(L1, " J ") + w_count(L1, " M ") == 0, "a refused join is not announced"); vp_assert(w_count(al, cm == 1 ? " 473 " : cm == 2 ? " 475 " : " 474 ") == 1, "a refused join is explained"); vp_reach("denied"); return; }
  vp_assert(w_count(boss, ":alice!alice@10.0.0.5 JOIN ") == 1 && w_count(L1, w_fmt("%s J #x", num_)) == 1 && w_count(L2, w_fmt("%s J #x", num_)) == 1, "a join is announced to members and servers");
  if (plain) { vp_assert(!IsChanOp(m) && w_count(boss, " MODE ") == 0 && w_count(L1, " M ") == 0, "a join without password gives no status"); vp_reach("plain"); return; }
  vp_assert(IsChanOp(m) && OpLevel(m) == (mgr ? 0 : 1), "the admin password gives rank 0, the user password rank 1"); char *b = w_find(boss, " MODE "), *l = w_find(L1, " M #x "), *l2 = w_find(L2, " M #x "); vp_assert(b && w_eq(strstr(b, " MODE "), " MODE #x +o alice"), "members see the operator status given by a password"); vp_assert(l && l2 && w_count(L1, " M ") == 1, "servers learn the status given by a password");
  int lv = w_starts(strstr(l, " M #x "), w_fmt(" M #x +o %s:%d", num_, mgr ? 0 : 1)); vp_assert(lv, "servers learn the rank given by a password");
  int leaked = 0; for (int i = 0; i < 1; i++) leaked = w_count(bob, CH->mode.apass) + w_count(bob, " :aca"); vp_assert(leaked == 0, "using a password does not show it");
  w_advance(20); w_clear_all(); w_send(al, "PRIVMSG #x :hi there"); w_pump(); vp_assert(w_count(boss, ":hi there") == !mgr && w_count(L1, ":hi there") == !mgr && num(al, "404") == mgr, "who used the admin password may not speak, who used the user password may"); vp_reach("speech");
  w_clear_all(); w_send(al, "MODE #x -o boss"); w_pump(); int deop = 0 < mgr ? 0 : 0; (void)deop; vp_assert(IsChanOp(mb) != 0, "the ranks given by passwords protect the manager"); vp_reach(mgr ? "manager" : "upass");
#elif RUN == 3
  static const int lv[] = {0, 1, 5, 998, 999}, rq[] = {-1, 0, 1, 5, 6, 999, 1000}; w_send(boss, "MODE #x +A aba"); w_pump();
  int outsider = vp_pick("actor", 3), mine = lv[vp_pick("mine", 5)], add = vp_pick("add", 2), req = add ? rq[vp_pick("asked", 7)] : rq[vp_pick("asked", 2)], t = vp_pick("target", 2); int theirs = add ? 999 : lv[vp_pick("theirs", 5)];
  struct Client *tc = t ? carol : bobc; struct Membership *tm = find_member_link(CH, tc); unsigned sop = outsider == 1 ? 0u : 1u; SetOpLevel(mb, mine); if (outsider == 1) mb->status &= ~CHFL_CHANOP; if (!add) { tm->status |= CHFL_CHANOP; SetOpLevel(tm, theirs); }
  const char *tn = w_fmt("%s%s", cli_yxx(cli_user(tc)->server), cli_yxx(tc)); w_advance(20); w_clear_all();
  if (outsider == 2) { /* a peer's operator or server states the level */ if (!add) return; if (req < 0) w_send(L2, w_fmt("AD M #x +o %s", tn)); else if (req <= 999) w_send(L2, w_fmt("AD M #x +o %s:%d", tn, req)); else return; w_pump(); vp_assert(IsChanOp(tm) && OpLevel(tm) == (req < 0 ? 999 : req), "a rank stated by a server is taken over"); if (req >= 0 && req < 999) { int k = w_starts(strstr(w_find(L1, " M #x "), " M #x "), w_fmt(" M #x +o %s:%d", tn, req)); vp_assert(k, "a rank stated by a server is passed on"); } vp_reach("outsider"); return; }
  if (req < 0) w_send(boss, w_fmt("MODE #x %so %s", add ? "+" : "-", cli_name(tc))); else w_send(boss, w_fmt("MODE #x %so %s:%d", add ? "+" : "-", cli_name(tc), req)); w_pump();
  int ok = sop && (add ? req < 0 || (req <= 999 && (req > mine || (req == mine && mine == 999))) : theirs > mine || (theirs == mine && mine == 999)); int nl = req >= 0 ? req : mine >= 999 ? 999 : mine + 1;
  if (ok) { vp_assert((IsChanOp(tm) != 0) == add && num(bob, "MODE") == 1 && w_count(L1, " M #x ") == 1 && w_count(L2, " M #x ") == 1, "a permitted status change takes effect and is announced once"); vp_assert(w_count(bob, w_fmt(" MODE #x %so %s", add ? "+" : "-", cli_name(tc))) == 1 && w_count(bob, ":999") + w_count(bob, w_fmt("%s:", cli_name(tc))) == 0, "members see the change without the rank");
    if (add) { vp_assert(OpLevel(tm) == nl, "a new operator ranks one below the giver unless a lower rank was stated"); char *l = strstr(w_find(L1, " M #x "), " M #x "), *c = strstr(l, tn); vp_assert(c != 0, "servers learn who was opped"); int told = c[5] == ':' ? atoi(c + 6) : mine >= 999 ? 999 : mine + 1; vp_assert(told == nl, "servers learn the rank of a new operator"); vp_reach(req >= 0 ? "explicit" : "opped"); } else vp_reach("deopped"); }
  else { vp_assert((IsChanOp(tm) != 0) == !add && (add || OpLevel(tm) == theirs), "nobody gives or takes status at or above the own rank"); vp_assert(num(bob, "MODE") + num(boss, "MODE") + w_count(L1, " M ") + w_count(L2, " M ") == 0, "a refused status change is not announced"); vp_assert(num(boss, sop ? "560" : "482") == 1, "a refused status change is explained"); vp_reach("refused"); }
#else
  int pw = vp_pick("password", 2), old = vp_pick("old", 2), wait = vp_pick("wait", 3); static const long ws[] = {50, 125, 176400}; if (pw) { w_send(boss, "MODE #x +A aba"); w_send(boss, "MODE #x +tmil 3"); } w_pump(); if (old) CH->creationtime = w_now - 172800;
  w_send(L1, "ACAAA L #x"); w_send(bob, "PART #x"); w_send(boss, "PART #x"); w_pump(); w_clear_all();
  long left = ws[wait]; vp_assert(FindChannel("#x") != 0, "an emptied channel is kept for a while"); w_send(bob, "QUIT"); w_pump(); w_eof(boss); w_pump(); if (wait == 2) { w_eof(L1); w_eof(L2); w_pump(); } w_clear_all();
  while (left > 0) { long s = left < 30000 ? left : 30000; w_advance(s); left -= s; } struct Channel *c2 = FindChannel("#x");
  if (wait == 0 || (wait == 1 && old)) { vp_assert(c2 != 0, "an emptied channel is kept for a minute when new, two days when old"); } if (wait == 2 || (wait == 1 && !old)) { vp_assert(c2 == 0, "an emptied channel goes away after its time"); if (wait == 1) vp_assert(w_count(L1, "AB DE #x ") == 1 && w_count(L2, "AB DE #x ") == 1, "servers are told that an emptied channel goes away"); vp_reach("gone"); }
  int al = w_user("alice", "10.0.0.5"), key = vp_pick("key", 2); w_clear_all(); w_send(al, key ? "JOIN #x aba" : "JOIN #x"); w_pump(); c2 = FindChannel("#x"); vp_assert(c2 != 0, "the channel can be joined"); m = find_member_link(c2, w_client(al)); vp_assert(m != 0, "the channel can be joined"); int kept = wait == 0 || (wait == 1 && old);
  if (kept && pw) { vp_assert(w_eq(c2->mode.apass, "aba") && (c2->mode.mode & (MODE_TOPICLIMIT | MODE_MODERATED)) == (MODE_TOPICLIMIT | MODE_MODERATED) && !(c2->mode.mode & MODE_INVITEONLY) && !c2->mode.limit, "a channel with a password keeps its modes while empty but stays open to join"); vp_assert((IsChanOp(m) != 0) == key && (!key || OpLevel(m) == 0), "an emptied channel with a password gives status only for the password"); vp_reach("kept"); }
  else { vp_assert(IsChanOp(m) && !c2->mode.apass[0] && OpLevel(m) == MAXOPLEVEL, "an emptied channel without password goes to whoever joins first"); vp_reach("plain"); }
#endif
}
