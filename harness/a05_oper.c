/* @property A05
 * @quick time=90 RUN=1 label=privs j=6
 * @quick time=60 RUN=2 label=oper j=4
 * @quick time=120 RUN=3 label=need j=6
 * @quick time=60 RUN=4 label=force j=4
 * @reach privs:global privs:local privs:given privs:taken oper:global oper:local oper:wrongpass oper:nohost oper:fingerprint oper:full need:plain need:refused need:allowed need:die need:restart need:rehash need:set need:opmode need:clearmode need:kill need:modelocal need:walk force:opmode force:clear force:remoteoper force:refused force:remote
 * @bounds privs: one of the privileges, and propagation, each {unset, on, off} in the operator block and in its class. oper: one OPER with {right, other-case, unknown, other} name, a password of two arbitrary bytes or ill-formed, address in or out of each of two host masks, fingerprint {none, right, wrong}, class full or not. need: one of 19 privileged commands by a plain user or an operator who lacks or alone has one of the privileges. force: one OPMODE or CLEARMODE by an operator who is not a member, with two arbitrary letters out of those allowed, on a channel with all clearable modes, a ban, key, limit, voiced and operator members; from a peer by a user or server; OPMODE +o -o +x of a user from U-lined servers with and without the operator right
 * @outside hashed passwords other than plain text, CONNECT and SQUIT (N02 N03), G-lines and jupes (N05 N06)
 */
#include "chan.inc"
#include "querycmds.h"
#include "s_conf.h"
#include "class.h"
#include "client.h"
#ifndef RUN
#define RUN 1
#endif
const char *vp_features = "\"CONFIG_OPERCMDS\" = \"TRUE\"; ";
const char *vp_conf_extra = "Class { name = \"Few\"; maxlinks = 1; local = no; };\n"
 "Operator { local = no; class = \"Few\"; host = \"*@10.0.0.5\"; host = \"*@10.0.0.7\"; password = \"$PLAIN$s3\"; name = \"sue\"; tls fingerprint = \"AABB\"; };\n"
 "Operator { local = yes; class = \"Opers\"; host = \"*@10.0.0.6\"; password = \"$PLAIN$s3\"; name = \"joe\"; };\n"
 "Quarantine { \"#q\" = \"no\"; };\nUWorld { oper = \"leaf2.test.net\"; };\nUWorld { name = \"leaf1.test.net\"; };\n";
static const char *pn[] = {"CHAN_LIMIT", "MODE_LCHAN", "WALK_LCHAN", "DEOP_LCHAN", "SHOW_INVIS", "SHOW_ALL_INVIS", "UNLIMIT_QUERY", "KILL", "LOCAL_KILL", "REHASH", "RESTART", "DIE", "GLINE", "LOCAL_GLINE", "JUPE", "LOCAL_JUPE", "OPMODE", "LOCAL_OPMODE", "SET", "WHOX", "BADCHAN", "LOCAL_BADCHAN", "SEE_CHAN", "PROPAGATE", "DISPLAY", "SEE_OPERS", "WIDE_GLINE", "LIST_CHAN", "FORCE_OPMODE", "FORCE_LOCAL_OPMODE", "APASS_OPMODE"};
static const int pv[] = {PRIV_CHAN_LIMIT, PRIV_MODE_LCHAN, PRIV_WALK_LCHAN, PRIV_DEOP_LCHAN, PRIV_SHOW_INVIS, PRIV_SHOW_ALL_INVIS, PRIV_UNLIMIT_QUERY, PRIV_KILL, PRIV_LOCAL_KILL, PRIV_REHASH, PRIV_RESTART, PRIV_DIE, PRIV_GLINE, PRIV_LOCAL_GLINE, PRIV_JUPE, PRIV_LOCAL_JUPE, PRIV_OPMODE, PRIV_LOCAL_OPMODE, PRIV_SET, PRIV_WHOX, PRIV_BADCHAN, PRIV_LOCAL_BADCHAN, PRIV_SEE_CHAN, PRIV_PROPAGATE, PRIV_DISPLAY, PRIV_SEE_OPERS, PRIV_WIDE_GLINE, PRIV_LIST_CHAN, PRIV_FORCE_OPMODE, PRIV_FORCE_LOCAL_OPMODE, PRIV_APASS_OPMODE};
#define NP 31
static int ran; int execv(const char *p, char *const a[]) { ran++; vp_reach("restart"); vp_end(); return -1; }
static int num(int fd, const char *n) { return w_count(fd, w_fmt(" %s ", n)); }
static void setflag(struct Privs *f, int p, int v) { if (v) FlagSet(f, p); else FlagClr(f, p); }
void vp_scenario(void) {
  L1 = w_server("leaf1.test.net", "AC", 101); L2 = w_server("leaf2.test.net", "AD", 102); w_send(L1, "AC N carol 1 1600000000 carol host.carol +i AKAABn ACAAA :carol real");
#if RUN == 1
  int al = w_user("alice", "10.0.0.9"); struct Client *a = w_client(al); struct ConfItem *ac; for (ac = GlobalConfList; ac; ac = ac->next) if ((ac->status & CONF_OPERATOR) && w_eq(ac->name, "god")) break; vp_assert(ac != 0, "harness: block");
  struct ConnectionClass *cl = ac->conn_class; int p = vp_pick("priv", NP), po = vp_pick("block", 3), pc = vp_pick("class", 3), go = vp_pick("blockprop", 3), gc = vp_pick("classprop", 3); if (!go && !gc) return; if (pv[p] == PRIV_PROPAGATE && (po || pc)) return;
  FlagClr(&ac->privs_dirty, PRIV_PROPAGATE); FlagClr(&cl->privs_dirty, PRIV_PROPAGATE);
  if (po) { FlagSet(&ac->privs_dirty, pv[p]); setflag(&ac->privs, pv[p], po == 1); } if (pc) { FlagSet(&cl->privs_dirty, pv[p]); setflag(&cl->privs, pv[p], pc == 1); }
  if (go) { FlagSet(&ac->privs_dirty, PRIV_PROPAGATE); setflag(&ac->privs, PRIV_PROPAGATE, go == 1); } if (gc) { FlagSet(&cl->privs_dirty, PRIV_PROPAGATE); setflag(&cl->privs, PRIV_PROPAGATE, gc == 1); }
  int links0 = Links(cl), glob = go ? go == 1 : gc == 1, nop = UserStats.opers; w_clear_all(); w_send(al, "OPER god secret"); w_pump(); vp_assert(num(al, "381") == 1 && IsAnOper(a), "the operator is granted");
  vp_assert((IsOper(a) != 0) == glob && (IsLocOp(a) != 0) == !glob && UserStats.opers == (unsigned)(nop + glob), "propagating operators are global, others local"); vp_assert(w_count(L1, " M alice :+o") == glob && w_count(L2, " M alice :+o") == glob, "only propagating operators are announced to servers");
  char want[600]; want[0] = 0; int has[NP];
  static const int lo[] = {PRIV_CHAN_LIMIT, PRIV_MODE_LCHAN, PRIV_SHOW_INVIS, PRIV_SHOW_ALL_INVIS, PRIV_LOCAL_KILL, PRIV_REHASH, PRIV_LOCAL_GLINE, PRIV_LOCAL_JUPE, PRIV_LOCAL_OPMODE, PRIV_WHOX, PRIV_DISPLAY, PRIV_FORCE_LOCAL_OPMODE};
  for (int i = 0; i < NP; i++) { int q = pv[i], h; if (glob) h = q != PRIV_WALK_LCHAN && q != PRIV_SET && q != PRIV_BADCHAN && q != PRIV_LOCAL_BADCHAN && q != PRIV_APASS_OPMODE; else { h = 0; for (unsigned k = 0; k < sizeof lo / sizeof *lo; k++) if (lo[k] == q) h = 1; }
    if (i == p) { if (po) h = po == 1; else if (pc) h = pc == 1; } if (q == PRIV_PROPAGATE) h = glob; if (glob && q == PRIV_DISPLAY) h = 1; if (!glob && (q == PRIV_KILL || q == PRIV_GLINE || q == PRIV_JUPE || q == PRIV_OPMODE || q == PRIV_BADCHAN)) h = 0; has[i] = h; if (h) { if (want[0]) strcat(want, " "); strcat(want, pn[i]); } }
  w_clear(al); w_send(al, "PRIVS alice"); w_pump(); char *l = w_find(al, " 270 "); vp_assert(l != 0, "privileges are reported"); l = strstr(l, "alice :"); vp_assert(l != 0, "privileges are reported"); vp_assert(w_eq(l + 7, want), "privileges come from the block, else the class, else the defaults; local operators never get network-wide ones");
  vp_reach(glob ? "global" : "local"); if (has[p]) vp_reach("given"); else vp_reach("taken");
  w_advance(10); w_clear_all(); static const char *give[] = {"-oO", "-o", "-O"}; w_send(al, w_fmt("MODE alice %s", give[vp_pick("giveup", 3)])); w_pump(); vp_assert(Links(cl) == links0, "giving up operator status leaves the class's room to others"); vp_assert(!(cli_snomask(a) & SNO_OPER), "and ends operators' notices"); int none = 1; for (int i = 0; i < NP; i++) none &= !HasPriv(a, pv[i]); vp_assert(none && !IsAnOper(a), "giving up operator status gives up every privilege"); vp_assert(UserStats.opers == (unsigned)nop, "giving up operator status is counted");
#elif RUN == 2
  static const char *ips[] = {"10.0.0.5", "10.0.0.6", "10.0.0.7", "10.0.0.8"}, *fps[] = {0, "AABB", "AABC"}, *nms[] = {"sue", "SUE", "joe", "nobody"}; int ip = vp_pick("ip", 4), nm = vp_pick("name", 4), fp = vp_pick("fp", 3), full = vp_pick("full", 3), form = vp_pick("form", 3);
  if (full) { int o = w_user("olga", "10.0.0.5"); strcpy(cli_tls_fingerprint(w_client(o)), "AABB"); w_send(o, "OPER sue s3"); w_pump(); vp_assert(IsOper(w_client(o)), "harness: class full"); if (full == 2) { full = 0; w_advance(10); w_send(o, "MODE olga -o"); w_pump(); vp_assert(!IsAnOper(w_client(o)), "harness: gave up"); } }
  int al = w_user_on(6667, "alice", "alice", ips[ip]); struct Client *a = w_client(al); if (fps[fp]) strcpy(cli_tls_fingerprint(a), fps[fp]);
  unsigned char b[2]; char line[64]; strcpy(line, w_fmt("OPER %s ", nms[nm])); int n = strlen(line); if (form == 0) { b[0] = vp_byte("p"); b[1] = vp_byte("p"); vp_assume(b[0] > ' ' && b[1] > ' ' && b[0] != ':' && b[0] < 127 && b[1] < 127); line[n] = b[0]; line[n + 1] = b[1]; line[n + 2] = 0; } else strcpy(line + n, form == 1 ? "s33" : "$PLAIN$s3"); int right = form == 0 && b[0] == 's' && b[1] == '3';
  int nop = UserStats.opers, g = nm < 2, host = g ? ip == 0 || ip == 2 : nm == 2 && ip == 1; int conf = host && !(g && full), fpok = !g || fp == 1; w_clear_all(); w_send(al, line); w_pump();

  const char *e = !host || (full && ip == 0) ? "491" : !fpok ? "532" : !right ? "464" : !conf ? "491" : "381"; int nn = num(al, "532") + num(al, "491") + num(al, "464") + num(al, "381"); int yes = conf && fpok && right;
  vp_assert((IsAnOper(a) != 0) == yes, "operator status is given exactly for the right name, host, fingerprint and password"); vp_assert(nn == 1 && num(al, e) == 1, "a refused operator is told why");
  if (yes) { vp_assert((IsOper(a) != 0) == g && (IsLocOp(a) != 0) == !g, "the block decides the kind of operator"); vp_assert(w_count(L1, " M alice :+o") == g || w_count(L1, " M alice :+") == g, "servers learn of global operators"); vp_reach(g ? "global" : "local"); }
  else { vp_assert(UserStats.opers == (unsigned)nop && !HasPriv(a, PRIV_LOCAL_KILL) && !HasPriv(a, PRIV_KILL) && w_count(L1, " M ") == 0, "a refused operator gets nothing"); vp_reach(g && host && full && fpok && right ? "full" : !host ? "nohost" : !fpok ? "fingerprint" : "wrongpass"); }
#elif RUN == 3
  /* command, privilege(s) it needs (by place), what proves it took effect */
  enum { DIE, RST, REH, SETF, RSET, OPM, OPML, OPMQ, OPMQF, CLM, CLML, KIL, LKIL, MODEL, WALK, LISTS, GLN, JUP, OPMLF, NCMD };
  static const char *cmd[] = {"DIE", "RESTART", "REHASH", "SET MAXCHANNELSPERUSER 7", "RESET MAXCHANNELSPERUSER", "OPMODE #x +m", "OPMODE &x +m", "OPMODE #q +m", "OPMODE !#q +m", "CLEARMODE #x n", "CLEARMODE &x n", "KILL carol :bye", "KILL bob :bye", "MODE &x +m", "JOIN &x OVERRIDE", "LIST #s", "GLINE +*@10.9.9.9 * 100 :x", "JUPE +far.net * 100 :x", "OPMODE !&x +m"};
  static const int need[][2] = {{PRIV_DIE, -1}, {PRIV_RESTART, -1}, {PRIV_REHASH, -1}, {PRIV_SET, -1}, {PRIV_SET, -1}, {PRIV_OPMODE, -1}, {PRIV_LOCAL_OPMODE, -1}, {PRIV_OPMODE, -2}, {PRIV_OPMODE, PRIV_FORCE_OPMODE}, {PRIV_OPMODE, -1}, {PRIV_LOCAL_OPMODE, -1}, {PRIV_KILL, -1}, {PRIV_LOCAL_KILL, -1}, {PRIV_MODE_LCHAN, -1}, {PRIV_WALK_LCHAN, -1}, {PRIV_LIST_CHAN, -1}, {PRIV_GLINE, -1}, {PRIV_JUPE, -1}, {PRIV_LOCAL_OPMODE, PRIV_FORCE_LOCAL_OPMODE}};
  int c = vp_pick("command", NCMD), who = vp_pick("who", 4); int al = w_user("alice", "10.0.0.9"); bob = w_user("bob", "10.0.0.10"); w_send(bob, "JOIN #x,&x,#q,#s"); w_pump(); w_send(bob, "MODE #x +n"); w_send(bob, "MODE &x +n"); w_send(bob, "MODE &x +i"); w_send(bob, "MODE #s +s"); w_pump(); struct Client *a = w_client(al), *bc = w_client(bob); w_advance(30);
  if (who) { w_oper(al); w_advance(15); for (int i = 0; i < NP; i++) setflag(cli_privs(a), pv[i], who == 3); }
  int n1 = need[c][0], n2 = need[c][1]; if (who == 1) { int q = vp_pick("has", NP); if (pv[q] == n1 && n2 < 0) return; SetPriv(a, pv[q]); } /* only another privilege */
  if (who == 2) { SetPriv(a, n1); if (n2 > 0) SetPriv(a, n2); } /* only what it needs */ if (who == 3) { ClrPriv(a, n1); if (n2 > 0 && vp_pick("second", 2)) { SetPriv(a, n1); ClrPriv(a, n2); } } /* everything else */
  if ((c == GLN || c == JUP) && who != 0) { SetPriv(a, c == GLN ? PRIV_LOCAL_GLINE : PRIV_LOCAL_JUPE); }
  int ok = who == 2 && n2 != -2; struct Channel *X = FindChannel("#x"), *Y = FindChannel("&x"), *Q = FindChannel("#q"); int limit = feature_int(FEAT_MAXCHANNELSPERUSER); char lim[16]; strcpy(lim, w_fmt("%d", limit)); w_clear_all(); if (c == RSET) feature_set(0, (const char *const[]){"MAXCHANNELSPERUSER", "3"}, 2);
  w_send(al, cmd[c]); w_pump();
  if (c == DIE) { vp_assert((w_closed(bob) || !LocalClientArray[bob] || w_count(bob, "Server Terminating") > 0) == ok, "DIE needs its privilege"); if (ok) { vp_reach("die"); vp_reach("allowed"); return; } }
  if (c == RST) vp_assert(!ok, "RESTART works with its privilege"); /* allowed runs end in execv */
  int eff = c == REH ? num(al, "382") > 0 : c == SETF ? feature_int(FEAT_MAXCHANNELSPERUSER) == 7 : c == RSET ? feature_int(FEAT_MAXCHANNELSPERUSER) != 3 : c == OPM ? (X->mode.mode & MODE_MODERATED) != 0 : c == OPML || c == MODEL || c == OPMLF ? (Y->mode.mode & MODE_MODERATED) != 0 : c == OPMQ || c == OPMQF ? (Q->mode.mode & MODE_MODERATED) != 0 : c == CLM ? !(X->mode.mode & MODE_NOPRIVMSGS) : c == CLML ? !(Y->mode.mode & MODE_NOPRIVMSGS) : c == KIL ? FindUser("carol") == 0 : c == LKIL ? FindUser("bob") == 0 : c == WALK ? find_member_link(Y, a) != 0 : c == LISTS ? num(al, "322") > 0 : c == GLN ? w_count(L1, " GL ") > 0 : c == JUP ? w_count(L1, " JU ") > 0 : 0;
  if (c == LKIL && who == 1) {} vp_assert(eff == ok, ok ? "a privileged command works with its privilege" : "a privileged command has no effect without its privilege");
  if (!ok && c != DIE && c != RST && c != LISTS && c != WALK && c != MODEL && c != OPMQ && !(who == 0 && (c == GLN || c == JUP))) vp_assert(num(al, "481") + num(al, "421") == 1 || ((c == KIL || c == LKIL) && who == 0 && num(al, "481") == 1), "a refused privileged command is explained");
  if (!ok) vp_assert(w_count(L1, " OM ") + w_count(L1, " CM ") + w_count(L1, " D ") + w_count(L1, " GL ") + w_count(L1, " JU ") == 0 && w_count(bob, " MODE ") + w_count(bob, " KILL ") == 0 && (c == LKIL || !w_closed(bob)), "a refused privileged command shows nowhere");
  vp_reach(who == 0 ? "plain" : ok ? "allowed" : "refused"); if (ok) { if (c == REH) vp_reach("rehash"); if (c == SETF) vp_reach("set"); if (c == OPM) vp_reach("opmode"); if (c == CLM) vp_reach("clearmode"); if (c == KIL) vp_reach("kill"); if (c == MODEL) vp_reach("modelocal"); if (c == WALK) vp_reach("walk"); }
#else
  int kind = vp_pick("kind", 5); /* 0 local OPMODE 1 local CLEARMODE 2 peer OPMODE 3 peer CLEARMODE 4 OPMODE on a user */
  boss = w_user("boss", "10.0.0.9"); bob = w_user("bob", "10.0.0.10"); w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_send(L1, w_fmt("ACAAA J #x %l", (long)w_now)); w_pump(); w_send(boss, "MODE #x +vo bob carol"); w_send(boss, "MODE #x +smntikl key 9"); w_send(boss, "MODE #x +b *!*@1.2.3.4"); w_send(boss, "MODE #x +rc"); int al = w_user("alice", "10.0.0.11"); struct Client *a = w_client(al); w_oper(al); w_send(boss, "INVITE alice #x"); w_pump(); w_advance(30); CH = FindChannel("#x"); struct Client *carol = FindUser("carol"), *bobc = w_client(bob), *bossc = w_client(boss); w_clear_all();
  struct Membership *mc = find_member_link(CH, carol), *mb = find_member_link(CH, bobc), *mo = find_member_link(CH, bossc); vp_assert(mc && mb && mo && IsChanOp(mo) && IsChanOp(mc) && HasVoice(mb), "harness: channel"); unsigned before = CH->mode.mode; int isv = kind == 2 || kind == 3 ? vp_pick("server", 2) : 0; const char *src = kind < 2 ? w_fmt("%s%s", cli_yxx(&me), cli_yxx(a)) : isv ? "AC" : "ACAAA"; char sb[8]; strcpy(sb, src);
  if (kind == 0 || kind == 2) { static const char *ch[] = {"-m", "+p", "-o boss", "+o bob", "-b *!*@1.2.3.4", "-k key", "+l 5", "-v bob"}, *sv[] = {"-m", "+p", "-o %s", "+o %s", "-b *!*@1.2.3.4", "-k key", "+l 5", "-v %s"}; int w = vp_pick("change", 8); char t[8]; strcpy(t, w_fmt("%s%s", cli_yxx(&me), cli_yxx(w == 2 ? bossc : bobc)));
    char cs[48]; strcpy(cs, w == 2 || w == 3 || w == 7 ? w_fmt(sv[w], t) : sv[w]); if (kind == 0) w_send(al, w_fmt("OPMODE #x %s", ch[w])); else w_send(L1, w_fmt("%s OM #x %s", sb, cs)); w_pump();
    int ok = w == 0 ? !(CH->mode.mode & MODE_MODERATED) : w == 1 ? (CH->mode.mode & MODE_PRIVATE) != 0 : w == 2 ? !IsChanOp(mo) : w == 3 ? IsChanOp(mb) != 0 : w == 4 ? CH->banlist == 0 : w == 5 ? !CH->mode.key[0] : w == 6 ? CH->mode.limit == 5 : !HasVoice(mb); vp_assert(ok, "a forced mode change takes effect");
    vp_assert(w_count(boss, " MODE #x ") == 1 && w_count(bob, " MODE #x ") == 1, "members see a forced change once"); vp_assert(w_count(boss, w_fmt(" MODE #x %s", ch[w])) >= (w != 1) , "members see what a forced change did"); vp_assert(w_count(boss, ":alice!") == 0 && w_count(boss, ":carol!") == 0, "a forced change is shown as the network's, not the operator's"); vp_assert(w_count(L2, w_fmt("%s OM #x ", sb)) == 1 && w_count(L1, " OM #x ") == (kind == 0), "a forced change is passed on as such"); if (w != 1 && w != 3) vp_assert(w_count(L2, w_fmt("%s OM #x %s", sb, cs)) == 1, "a forced change is passed on intact"); vp_reach(kind ? "remote" : "opmode"); }
  else if (kind == 1 || kind == 3) { static const char al_[] = "ovpsmikblrcntDz"; int i = vp_pick("letter", 15), j = vp_pick("letter", 15), dflt = kind == 1 ? vp_pick("default", 2) : 0; char ctl[4] = {al_[i], al_[j], 0}; const char *set = dflt ? "ovpsmikbl" : ctl; if (kind == 1) w_send(al, dflt ? "CLEARMODE #x" : w_fmt("CLEARMODE #x %s", ctl)); else w_send(L1, w_fmt("%s CM #x %s", sb, ctl)); w_pump();
    static const struct { char c; unsigned m; } mm[] = {{'p', MODE_PRIVATE}, {'s', MODE_SECRET}, {'m', MODE_MODERATED}, {'i', MODE_INVITEONLY}, {'n', MODE_NOPRIVMSGS}, {'t', MODE_TOPICLIMIT}, {'r', MODE_REGONLY}, {'c', MODE_NOCOLOR}, {'D', MODE_DELJOINS}}; unsigned want = before; for (unsigned k = 0; k < 9; k++) if (strchr(set, mm[k].c)) want &= ~mm[k].m; unsigned msk = 0; for (unsigned k = 0; k < 9; k++) msk |= mm[k].m;
    int priv = kind == 1 || isv || IsAnOper(carol); if (!priv) { vp_assert(CH->mode.mode == before && IsChanOp(mo) && HasVoice(mb) && w_count(L2, " CM ") == 0 && w_count(boss, " MODE ") == 0, "CLEARMODE by an unprivileged peer user is refused"); vp_reach("refused"); return; }
    vp_assert((CH->mode.mode & msk) == (want & msk), "CLEARMODE clears exactly the modes named"); vp_assert((CH->mode.key[0] != 0) == !strchr(set, 'k') && (CH->mode.limit != 0) == !strchr(set, 'l') && (CH->banlist != 0) == !strchr(set, 'b'), "CLEARMODE clears key, limit and bans exactly when named"); vp_assert((IsChanOp(mo) != 0) == !strchr(set, 'o') && (IsChanOp(mc) != 0) == !strchr(set, 'o') && (HasVoice(mb) != 0) == !strchr(set, 'v'), "CLEARMODE clears operators and voices exactly when named"); vp_assert((CH->invites != 0) == !strchr(set, 'i'), "clearing +i clears the invitations");
    int any = (before & msk) != (want & msk) || strchr(set, 'k') || strchr(set, 'l') || strchr(set, 'b') || strchr(set, 'o') || strchr(set, 'v'); int known = strspn(set, "z") != strlen(set); vp_assert((w_count(boss, " MODE #x -") >= 1) == (any != 0) && w_count(boss, " +") == 0, "members see what CLEARMODE removed");
    if (any) { char *l = strstr(w_find(boss, " MODE #x -"), " MODE #x -") + 10; int bad = 0, cnt = 0; for (; *l && *l != ' '; l++, cnt++) if (!strchr(set, *l)) bad = 1; vp_assert(!bad && cnt > 0, "members see exactly what CLEARMODE removed"); if (strchr(set, 'k')) { int kk = strstr(w_find(boss, " MODE #x -"), " key") != 0; vp_assert(kk, "members see exactly what CLEARMODE removed"); } }
    vp_assert(w_count(L2, w_fmt("%s CM #x ", sb)) == known && w_count(L1, " CM ") == (kind == 1 && known), "CLEARMODE is passed on once"); vp_reach(kind == 1 ? "clear" : "remote"); }
  else { int sv = vp_pick("from", 3), w = vp_pick("change", 3), was = vp_pick("wasoper", 2), acct = vp_pick("account", 2); static const char *ch[] = {"+o", "-o", "+x"}; int fd = was ? al : bob; struct Client *t = w_client(fd); if (acct) { w_send(L2, w_fmt("AD AC %s%s acct", cli_yxx(&me), cli_yxx(t))); w_pump(); } int nop = UserStats.opers; w_clear_all(); int L = sv == 0 ? L2 : L1; w_send(L, w_fmt("%s OM %s%s %s", sv == 0 ? "AD" : sv == 1 ? "AC" : "ACAAA", cli_yxx(&me), cli_yxx(t), ch[w])); w_pump();
    int mayx = sv < 2, mayo = sv == 0, now = w == 0 ? was || mayo : w == 1 ? was && !mayo : was; vp_assert((IsOper(t) != 0) == now, "only a U-lined server with the operator right makes or unmakes operators"); vp_assert(UserStats.opers == (unsigned)(nop + now - was), "operators made or unmade remotely are counted"); vp_assert((HasPriv(t, PRIV_KILL) != 0) == now, "privileges come and go with operator status"); int x = w == 2 && mayx && acct; vp_assert((HasHiddenHost(t) != 0) == x && (strstr(cli_user(t)->host, "acct.") != 0) == x, "+x given by a service hides the host of a user logged in"); int ol = L == L2 ? L1 : L2; vp_assert(w_count(ol, w_fmt(" M %s :%s", cli_name(t), w == 2 ? "+x" : w == 0 ? "+o" : "-o")) + (w == 0 ? w_count(ol, w_fmt(" M %s :+", cli_name(t))) - w_count(ol, w_fmt(" M %s :+o", cli_name(t))) : 0) == (w == 2 ? x : now != was), "servers learn of the change");
    if (now != was) { w_advance(20); w_clear_all(); w_send(fd, "KILL carol :x"); w_pump(); vp_assert((FindUser("carol") == 0) == now, "operator commands come and go with operator status"); vp_reach("remoteoper"); } }
#endif
}
