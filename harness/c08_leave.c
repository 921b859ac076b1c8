/* @property C08
 * @quick time=60 RUN=1 label=part j=3
 * @quick time=60 RUN=2 label=quit j=3
 * @quick time=60 RUN=3 label=life j=2
 * @quick time=60 RUN=4 label=multi j=2
 * @reach part:shown part:bare part:hidden quit:text quit:signedoff quit:lost quit:remote quit:all life:kept life:ended life:zannel life:immediate multi:mixed multi:zero
 * @bounds one PART with or without a text of two arbitrary bytes by a member x modes m r M c u x account, operator, voice, matching ban, and by an outsider; one QUIT (with or without text), lost connection, remote QUIT or JOIN 0 by a user on any subset of three channels with different members x modes m u c n on one of them; a channel left by its last member x with and without OPLEVELS, x manager password, x age, x rejoin after 0 s, 30 s, 20 min or 3 days
 * @outside delayed joins (C13), S-lines (A09), target limits
 */
#include "chan.inc"
#if RUN == 3
const char *vp_features = "";
#endif
void vp_scenario(void) {
  std_network(); int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al);
#if RUN == 1
  std_channel("#x"); int mem = vp_pick("member", 2), txt = vp_pick("text", 2), ban = mem && vp_pick("ban", 2); if (mem) w_send(al, "JOIN #x"); if (ban) w_send(boss, "MODE #x +b *!*@10.0.0.5"); w_pump(); struct Membership *m = find_member_link(CH, a);
  unsigned mm = 0, mr = 0, mM = 0, mc = 0, mu = 0, acct = 0, op = 0, vo = 0; unsigned char c0 = 'h', c1 = 'i';
  if (mem) { mm = vp_bool("m"); mr = vp_bool("r"); mM = vp_bool("M"); mc = vp_bool("c"); mu = vp_bool("u"); acct = vp_bool("account"); op = vp_bool("op"); vo = vp_bool("voice"); unsigned w = CH->mode.mode; w = symsel(w, MODE_MODERATED, mm); w = symsel(w, MODE_REGONLY, mr); w = symsel(w, MODE_MODERATENOREG, mM); w = symsel(w, MODE_NOCOLOR, mc); w = symsel(w, MODE_NOPARTMSGS, mu); CH->mode.mode = w; SYMFLAG(a, FLAG_ACCOUNT, acct); m->status = symsel(symsel(m->status, CHFL_CHANOP, op), CHFL_VOICE, vo); }
  char l[32]; strcpy(l, txt ? "PART #x :hi" : "PART #x"); if (txt) { c0 = vp_byte("t"); c1 = vp_byte("t"); vp_assume(c0 && c1 && c0 != 10 && c0 != 13 && c1 != 10 && c1 != 13); l[9] = c0; l[10] = c1; }
  w_clear_all(); w_send(al, l); w_pump(); int na = w_count(al, " PART #x") + w_count(al, " PART :#x"), nb = w_count(bob, " PART #x") + w_count(bob, " PART :#x"), nB = w_count(boss, " PART #x") + w_count(boss, " PART :#x"), n1 = w_count(L1, " L #x"), n2 = w_count(L2, " L #x");
  vp_assert((na == mem) & (nb == mem) & (nB == mem) & (n1 == mem) & (n2 == mem), "leaving is told once to the leaver, to each local member and to each server"); if (!mem) { vp_assert(w_count(al, " 442 alice #x ") == 1, "an outsider is told so"); return; }
  vp_assert(!find_member_link(CH, a) && !a->cli_user->channel && CH->users == 3, "after leaving one is not a member"); if (!txt) { vp_assert(!strcmp(w_find(bob, " PART "), ":alice!alice@10.0.0.5 PART :#x") && !strcmp(w_find(L1, " L #x") + 5, " L #x"), "no text is made up"); vp_reach("bare"); return; }
  unsigned col = (unsigned)(c0 == 3) | (unsigned)(c0 == 27) | (unsigned)(c1 == 3) | (unsigned)(c1 == 27); unsigned may = ((op | vo) | ((mm | ((mr | mM) & (acct ^ 1u)) | (unsigned)ban) ^ 1u)) & ((mc & col) ^ 1u) & (mu ^ 1u);
  char want[48] = ":alice!alice@10.0.0.5 PART #x :hi"; int k = strlen(want); want[k - 2] = c0; want[k - 1] = c1; char *gb = w_find(bob, " PART "), *gB = w_find(boss, " PART "), *g1 = w_find(L1, " L #x"), *g2 = w_find(L2, " L #x"); int sh = strlen(gb) == k;
  if (sh) { vp_assert(may, "a member who may not speak cannot leave a message"); vp_assert(w_eq(gb, want) && w_eq(gB, want), "members see the leaving message unmodified"); vp_assert((unsigned char)g1[strlen(g1) - 2] == c0 && (unsigned char)g1[strlen(g1) - 1] == c1 && g1[strlen(g1) - 3] == ':', "servers get the leaving message unmodified"); vp_reach("shown"); }
  else { vp_assert(!may, "an allowed leaving message is shown"); vp_assert(w_eq(gb, ":alice!alice@10.0.0.5 PART :#x") && w_eq(gB, ":alice!alice@10.0.0.5 PART :#x") && w_eq(g1 + 5, " L #x") && w_eq(g2 + 5, " L #x"), "a forbidden leaving message is dropped"); vp_reach("hidden"); }
#elif RUN == 2
  int eve = w_user("eve", "10.0.0.7"), zed = w_user("zed", "10.0.0.8"); std_channel("#x"); w_send(boss, "JOIN #y"); w_send(eve, "JOIN #y"); w_send(zed, "JOIN #w"); w_pump();
  int kind = vp_pick("kind", 5), onx = vp_pick("onx", 2), ony = vp_pick("ony", 2), onz = vp_pick("onz", 2); int rem = kind == 3; struct Client *v = a;
  if (rem) { w_send(L1, "AC N erin 1 1600000000 erin host.erin + AKAABp ACAAB :erin"); v = FindUser("erin"); } const char *pre = rem ? ":erin!erin@host.erin" : ":alice!alice@10.0.0.5";
  static const char *cn[] = {"#x", "#y", "#z"}; int on[] = {onx, ony, onz}; for (int i = 0; i < 3; i++) if (on[i]) { if (rem) w_send(L1, w_fmt("ACAAB J %s", cn[i])); else w_send(al, w_fmt("JOIN %s", cn[i])); } w_pump(); unsigned mm = 0, mu = 0, mc = 0, op = 0; struct Membership *m = find_member_link(CH, v);
  if (m) { mm = vp_bool("m"); mu = vp_bool("u"); mc = vp_bool("c"); op = vp_bool("op"); unsigned w = CH->mode.mode; w = symsel(w, MODE_MODERATED, mm); w = symsel(w, MODE_NOPARTMSGS, mu); w = symsel(w, MODE_NOCOLOR, mc); CH->mode.mode = w; m->status = symsel(m->status, CHFL_CHANOP, op); }
  w_clear_all(); if (kind == 0) w_send(al, "QUIT :so long"); else if (kind == 1) w_send(al, "QUIT"); else if (kind == 2) w_eof(al); else if (kind == 3) w_send(L1, "ACAAB Q :so long"); else w_send(al, "JOIN 0"); w_pump();
  int all = kind == 4, j = all ? ony : (onx || ony); const char *k = all ? " PART " : " QUIT :";
  vp_assert(w_count(bob, k) == onx && w_count(boss, k) == (all ? onx + ony : j) && w_count(eve, k) == ony && w_count(zed, k) == 0, "everyone who shares a channel with the leaver is told once, nobody else");
  for (int i = 0; i < 3; i++) { struct Channel *c = FindChannel(cn[i]); if (i == 2) vp_assert(!c, "a channel ends with its last member"); else for (struct Membership *q = c->members; q; q = q->next_member) vp_assert(q->user == FindUser(cli_name(q->user)) && strcmp(cli_name(q->user), rem ? "erin" : "alice"), "the leaver is gone from every channel"); }
  if (all) { vp_assert(FindUser("alice") == a && !a->cli_user->channel && w_count(L1, " J 0") == 1 && w_count(L2, " J 0") == 1, "JOIN 0 is one message to each server"); vp_reach("all"); return; }
  vp_assert(!FindUser(rem ? "erin" : "alice"), "who quits is gone"); vp_assert(w_count(L1, " Q :") == !rem && w_count(L2, " Q :") == 1, "each server other than the source is told once");
  unsigned may = m ? (op | (mm ^ 1u)) & (mu ^ 1u) : 1u; const char *e = kind == 2 ? 0 : rem ? "so long" : kind == 1 ? "Quit" : "Quit: so long"; char *g = w_find(boss, " QUIT :"), *g2 = w_find(L2, " Q :"); char *t2 = strstr(g2, " Q :") + 4; if (g) vp_assert(w_starts(g, pre) && !strcmp(strstr(g, " QUIT :") + 7, t2), "users and servers get the same message");
  if (rem) { vp_assert(!strcmp(t2, "so long"), "a remote quit message is passed on unmodified"); vp_reach("remote"); } else if (kind == 2) vp_reach("lost"); else if (!strcmp(t2, "Signed off")) { vp_assert(!may, "an allowed quit message is shown"); vp_reach("signedoff"); } else { vp_assert(may, "who may not speak on a channel cannot leave a message there by quitting"); vp_assert(!strcmp(t2, e), "the quit message is shown, marked as such"); vp_reach("text"); }
  if (!rem) { vp_assert(w_closed(al), "a quitter's connection is closed"); int n = w_user("alice", "10.0.0.11"); vp_assert(w_client(n) == FindUser("alice"), "a freed nick can be used again"); }
#elif RUN == 4
  w_send(boss, "JOIN #x,#y,#z,&l"); w_send(bob, "JOIN #x,#y,#z,&l"); w_send(al, "JOIN #x,#y,#z,&l"); w_pump(); w_advance(20); static const char *cn[] = {"#x", "#y", "#z", "&l"}; unsigned quiet[4]; for (int i = 0; i < 4; i++) { struct Channel *c = FindChannel(cn[i]); quiet[i] = vp_bool("quiet"); c->mode.mode = symsel(c->mode.mode, MODE_NOPARTMSGS, quiet[i]); }
  static const char *ord[] = {"#x,#y,#z,&l", "#z,&l,#y,#x", "&l,#y,#x", "#y,#x,#y", "#y,#no,#z", "#z,#x"}; int o = vp_pick("order", 7); w_clear_all(); if (o == 6) w_send(al, "JOIN 0"); else w_send(al, w_fmt("PART %s :so long", ord[o])); w_pump(); const char *t = o == 6 ? "Left all channels" : "so long"; int nq = 0;
  for (int i = 0; i < 4; i++) { int in = o == 6 || strstr(ord[o], cn[i]) != 0; vp_assert(!!find_member_link(FindChannel(cn[i]), a) == !in, "exactly the channels named are left"); int q = o != 6 && (int)quiet[i]; nq += in && q; int fds[] = {al, bob, boss};
    for (int k = 0; k < 3; k++) { int with = w_count(fds[k], w_fmt(" PART %s :%s", cn[i], t)), bare = w_count(fds[k], w_fmt(" PART :%s", cn[i])); vp_assert(with == (in && !q) && bare == (in && q), "of several channels left each is told the message exactly if it may be given there"); }
    for (int k = 0; k < 2; k++) { int fd = k ? L2 : L1, with = 0, bare = 0, n = w_lines(fd); for (int j = 0; j < n; j++) { char *l = w_line(fd, j), *p = strstr(l, " L "); if (!p) continue; char *m = strstr(p, " :"); if (m) *m = 0; if (strstr(p, cn[i])) { if (m) with++; else bare++; vp_assert(!m || !strcmp(m + 2, t), "servers get the message unmodified"); } if (m) *m = ' '; } int rem = o != 6 && in && i < 3; vp_assert(with == (rem && !q) && bare == (rem && q), "of several channels left each server is told, with the message where it may be given"); } }
  if (nq) vp_reach("mixed"); if (o == 6) { vp_reach("zero"); vp_assert(w_count(L1, " J 0") == 1 && w_count(L2, " J 0") == 1, "JOIN 0 is one message to each server"); }
#else
  int ol = vp_pick("oplevels", 2), pass = ol && vp_pick("apass", 2), old = vp_pick("old", 2), w = vp_pick("wait", 4); static const int wt[] = {0, 30, 1200, 259200}; { const char *f[] = {"OPLEVELS", ol ? "TRUE" : "FALSE"}; feature_set(0, f, 2); } vp_assert(feature_bool(FEAT_OPLEVELS) == ol, "harness: OPLEVELS set");
  w_send(al, "JOIN #y"); w_pump(); if (pass) { w_send(al, "MODE #y +A adminpw"); w_pump(); w_advance(10); } w_send(al, "MODE #y +mk kk"); w_send(al, "MODE #y +bl a!*@* 5"); w_pump(); struct Channel *c = FindChannel("#y"); vp_assert(c && c->banlist && c->mode.limit == 5 && !!c->mode.apass[0] == pass, "harness: modes set"); if (old) c->creationtime -= 200000; long ts = c->creationtime;
  w_clear_all(); w_send(al, "PART #y"); w_pump(); c = FindChannel("#y");
  if (!ol) { vp_assert(!c, "without manager passwords a channel ends with its last member"); vp_reach("immediate"); } else { vp_assert(c && c->users == 0 && !c->mode.limit && !(c->mode.mode & MODE_INVITEONLY), "an empty channel is kept for a while, without limits"); vp_assert(!strcmp(c->mode.key, pass ? "kk" : "") && !!c->banlist == pass && !!(c->mode.mode & MODE_MODERATED) == pass && !!c->mode.apass[0] == pass, "an empty channel keeps its modes exactly if it has a manager password"); }
#define PONGS w_send(al, "PONG :x"); w_send(boss, "PONG :x"); w_send(bob, "PONG :x"); w_send(L1, "AC Z AB x"); w_send(L2, "AD Z AB x"); w_pump()
  if (w == 3) { w_advance(258000); PONGS; } for (int t = w == 3 ? 258000 : 0; t < wt[w]; t += 30) { w_advance(30); PONGS; }
  int alive = ol && (w < 2 || (w == 2 && old)); c = FindChannel("#y"); vp_assert(!!c == alive, "an empty channel ends after minutes if it is young, after two days if it is old"); if (w == 3) { vp_reach("ended"); return; } int de = w_count(L1, " DE #y "), de2 = w_count(L2, " DE #y "); vp_assert(de == de2 && de == (ol && !alive), "the end of an empty channel is sent to every server"); 
  w_clear_all(); w_send(al, pass && alive ? "JOIN #y kk" : "JOIN #y"); w_pump(); c = FindChannel("#y"); struct Membership *m = c ? find_member_link(c, a) : 0;
  if (alive) { vp_assert(m && !!IsChanOp(m) == !pass, "rejoining an empty channel gives operator status exactly if it has no manager password"); vp_assert(c->creationtime == ts + !pass, "a channel reopened without password counts as one second younger"); vp_reach(pass ? "kept" : "zannel"); } else { vp_assert(m && IsChanOp(m) && !c->mode.limit && !c->mode.key[0] && !c->banlist && !c->mode.apass[0] && c->creationtime >= ts && w_count(L1, " C #y ") == 1, "an ended channel is created anew"); vp_reach("ended"); }
#endif
}
