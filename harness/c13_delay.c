/* @property C13
 * @quick time=60 RUN=1 label=local j=4
 * @quick time=60 RUN=2 label=peer j=2
 * @reach local:silent local:revealed local:leaves local:cleared peer:silent peer:revealed
 * @bounds a user (local or behind a peer) joining a channel with mode D (or whose D was removed while users were hidden), then one of: message, notice, topic, being opped, voiced, kicked, part with or without a text, JOIN 0, WALLCHOPS, quit, nick change, +x-less account, NAMES and WHO by another member, a second hidden user leaving; every other member's view is rebuilt from its output
 * @outside WHOIS and WHO by mask (which show hidden members by design), away notifications
 */
#include "chan.inc"
/* bob's view of user "al": number of JOINs minus number of leaves, and whether every line about al comes while joined */
static int view, okay; static void watch(int fd, const char *nick) {  int n = w_lines(fd); const char *pre = w_fmt(":%s!", nick); for (int i = 0; i < n; i++) { char *l = w_line(fd, i); int mine = w_starts(l, pre); if (mine && strstr(l, " JOIN ")) { if (view) okay = 0; view = 1; continue; } int about = mine || (strstr(l, " KICK #x ") && strstr(l, nick)) || (strstr(l, " MODE #x ") && strstr(l, nick)); if (about && !view && !strstr(l, " INVITE ")) okay = 0; if ((mine && (strstr(l, " PART ") || strstr(l, " QUIT "))) || (strstr(l, " KICK #x ") && strstr(l, nick))) view = 0; } }
void vp_scenario(void) {
  std_network(); std_channel("#x"); int al = w_user("alice", "10.0.0.5"), tim = w_user("tim", "10.0.0.8"); view = 0; okay = 1;
  int peer = RUN == 2; const char *nick = peer ? "erin" : "alice"; if (peer) w_send(L1, "AC N erin 1 1600000000 erin host.erin + AKAABp ACAAB :erin"); struct Client *v = peer ? FindUser("erin") : w_client(al); int D = vp_pick("D", 3); /* 0: no, 1: +D, 2: +D then -D */
  if (D) w_send(boss, "MODE #x +D"); int second = D && vp_pick("second", 2); if (second) w_send(tim, "JOIN #x"); w_pump(); w_clear_all(); 
  if (peer) w_send(L1, w_fmt("ACAAB J #x %l", (long)CH->creationtime)); else w_send(al, "JOIN #x"); w_pump(); watch(bob, nick); vp_assert(view == !D, "joining a channel with delayed joins is not shown to members"); if (!peer) vp_assert(w_count(al, " JOIN ") == 1, "the joiner sees the join"); vp_assert(w_count(L2, " J #x ") == 1, "servers are told of every join"); vp_assert(find_member_link(CH, v) != 0, "the joiner is a member");
  w_clear_all(); if (D == 2) { w_send(boss, "MODE #x -D"); w_pump(); vp_assert(w_count(bob, " MODE #x -D+d") == 1, "turning delayed joins off with hidden members shows +d"); watch(bob, nick); vp_assert(!view, "turning delayed joins off reveals nobody"); }
  w_clear_all(); int act = vp_pick("act", peer ? 11 : 15); static const char *loc[] = {"PRIVMSG #x :hello", "NOTICE #x :hello", "PART #x", "QUIT :bye", "NICK newal", "AWAY :x", "PRIVMSG boss :psst", "PART #x :so long", "JOIN 0", "PART #no,#x :so long", "WALLCHOPS #x :hello"}, *rem[] = {"ACAAB P #x :hello", "ACAAB O #x :hello", "ACAAB L #x", "ACAAB Q :bye", "ACAAB A :x", "ACAAB L #x :so long", "ACAAB J 0", "ACAAB WC #x :hello"}; const char *yy = w_fmt("%s%s", peer ? "AC" : "AB", cli_yxx(v));
  int reveal = 0, leave = 0, base = peer ? 8 : 11; if (act < base) { w_send(peer ? L1 : al, peer ? rem[act] : loc[act]); reveal = act < 2 || act == base - 1; leave = act == 2 || act == 3 || (peer ? act == 5 || act == 6 : act >= 7 && act <= 9); }
  else if (act == base) { w_send(boss, w_fmt("MODE #x +v %s", nick)); reveal = 1; } else if (act == base + 1) { w_send(boss, w_fmt("MODE #x +o %s", nick)); reveal = 1; } else if (act == base + 2) { w_send(boss, w_fmt("KICK #x %s :out", nick)); leave = 1; } else { w_send(al, "TOPIC #x :new topic"); reveal = 1; }
  if (peer && act == base + 2) { w_pump(); w_send(L1, "ACAAB L #x"); /* the peer confirms */ }
  w_pump(); int before = view; watch(bob, nick); vp_assert(okay, "what members see is consistent: a hidden user's leaving is not shown, and a user is shown before acting visibly");
  vp_assert(view == (leave ? 0 : reveal ? 1 : before), "a hidden member is shown exactly when first acting on the channel"); if (D && leave) { vp_assert(w_count(bob, " QUIT ") + w_count(bob, " PART ") + w_count(bob, " KICK ") == 0, "a hidden member leaves unseen"); vp_reach(peer ? "silent" : "leaves"); }
  if (act == base + 2) { int v = view, o = okay; view = !D; okay = 1; watch(boss, nick); vp_assert(okay, "the kicker sees a hidden victim join before the kick"); view = v; okay = o; vp_assert(w_count(boss, " KICK #x ") == 1, "the kicker sees the kick"); if (D && !peer) vp_assert(w_count(al, " KICK #x ") == 1, "a hidden victim sees the kick"); }
  if (act < 2) vp_assert(w_count(bob, " #x :hello") == 1, "the message arrives"); if (D && reveal) vp_reach("revealed"); if (D && !reveal && !leave) vp_reach("silent");
  int hid = D && !reveal && !leave, cleared = D == 2 && !hid && !second; vp_assert(w_count(bob, " MODE #x -d") == cleared, "+d goes when the last hidden member is shown or gone, and not before"); if (cleared) vp_reach(peer ? "revealed" : "cleared"); vp_assert(!!(CH->mode.mode & MODE_WASDELJOINS) == (D == 2 && !cleared), "+d stays while members are hidden");
  if (leave || act == 4) return; /* names change */
  w_clear_all(); w_send(bob, "NAMES #x"); w_send(bob, "WHO #x"); w_pump(); char *l = w_find(bob, " 353 "); vp_assert(!!strstr(l, nick) == !hid, "NAMES lists a member exactly if shown"); vp_assert(!!w_count(bob, w_fmt(" %s H", nick)) + !!w_count(bob, w_fmt(" %s G", nick)) == !hid, "WHO lists a member exactly if shown"); w_clear_all(); w_send(bob, "NAMES -D #x"); w_pump(); l = w_find(bob, " 355 "); vp_assert((l && strstr(l, nick)) == hid, "NAMES -D lists the hidden members");
}
