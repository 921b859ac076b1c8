/* @property U07
 * @quick time=300 RUN=1 D=3 label=steps j=6
 * @quick time=400 RUN=1 D=4 EV=8 label=users j=6
 * @quick time=100 RUN=2 label=again j=2
 * @thorough time=3000 RUN=1 D=4 label=steps j=8
 * @reach steps:told steps:refused steps:free steps:reply steps:waited steps:idle steps:invite steps:oldest steps:pushed steps:join steps:invited steps:spoke steps:paid steps:unpaid again:kept again:lost again:later
 * @bounds a fresh local user who has addressed 9 or 10 others, or one long silent who has addressed 18 to 20, then every sequence of 3 (4 without channels; thorough 4) of: addressing a new user by PRIVMSG, NOTICE, INVITE or TAGMSG, the oldest or latest of those addressed, answering somebody new, CPRIVMSG to a member of a channel of hers, joining a channel (one of them restricted with +P), invited or not, speaking there, leaving with a reason, waits of 1, 126, 128 and 131 seconds; again: leaving after 0 to 10 targets and coming back from the same address after 1 or 130 seconds
 * @outside two targets the server's one-byte hash does not distinguish, users of several connections at a time
 */
#include "chan.inc"
const char *vp_features = "\"HUB\" = \"TRUE\"; \"CAP_MESSAGE_TAGS\" = \"TRUE\"; ";
#ifndef D
#define D 3
#endif
#ifndef EV
#define EV 11
#endif
#define MAXT 48
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]";
static char *num(int i) { return w_fmt("ACA%c%c", A64[(i + 1) / 64], A64[(i + 1) % 64]); }
static int pool[MAXT], np, nextp, A; static struct Client *a; static unsigned char hs[MAXT + 10]; static int seen[MAXT + 10];
static int tbl[20]; static long nt; static char *ynum;
/* the server's opinion of two targets being different may depend on addresses: only targets it distinguishes are used */
static int hsh(void *p) { unsigned long v = (unsigned long)p; return ((v >> 16) ^ (v >> 8)) & 255; }
static unsigned char used[256];
static void note(int id, int slot) { int h = cli_targets(a)[slot]; if (!h) vp_end(); for (int i = 0; i < MAXT + 10; i++) if (seen[i] && i != id && hs[i] == h) vp_end(); seen[id] = 1; hs[id] = h; }
static void pongs(void) { for (int i = 5; i < 60; i++) if (!w_closed(i) && LocalClientArray[i] && IsUser(LocalClientArray[i])) w_send(i, "PONG x"); else if (!w_closed(i) && LocalClientArray[i] && IsServer(LocalClientArray[i])) w_send(i, w_fmt("%s Z x", cli_yxx(LocalClientArray[i]))); w_pump(); }
static void wait_(int s) { while (s > 0) { int k = s > 64 ? 64 : s; w_advance(k); pongs(); s -= k; } w_clear_all(); }
static int at(int id) { for (int i = 0; i < 20; i++) if (tbl[i] == id) return i; return -1; }
/* may A address target id now? */
static int may(int id, int invited) { int k = at(id); if (k >= 0) { for (; k > 0; k--) tbl[k] = tbl[k - 1]; tbl[0] = id; return 1; } if (w_now < nt) { if (invited) return 2; if (nt - w_now < 136) nt += 2; return 0; } nt += 128; if (nt < w_now - 128 * 19) nt = w_now - 128 * 19; for (k = 19; k > 0; k--) tbl[k] = tbl[k - 1]; tbl[0] = id; return 1; }
static void heard(int id) { if (at(id) >= 0) return; for (int k = 19; k > 12; k--) tbl[k] = tbl[k - 1]; tbl[12] = id; }
static void judge(int id, int ok, int got, const char *name) { if (got) note(id, 0); vp_assert(got <= 1, "a message arrives once"); vp_assert(!ok || got, "who may address somebody does"); vp_assert(ok || !got, "who has addressed too many is held back"); int c = w_count(A, " 439 "); vp_assert(ok ? !c : c <= 1, "and told so"); if (!ok && nt - w_now < 137) { vp_assert(c == 1, "and told so each time at first"); vp_assert(w_starts(w_find(A, " 439 "), w_fmt(":vp.test.net 439 anna %s :Target change too fast. Please wait %l seconds", name, nt - w_now)), "and how long"); } vp_reach(ok ? "told" : "refused"); }
static void say(int id, int how) { int u = pool[id]; const char *nn = w_fmt("r%d", u); int was = at(id) >= 0, ok = may(id, 0); w_clear_all(); w_send(A, how == 1 ? w_fmt("NOTICE %s :hi", nn) : how == 2 ? w_fmt("INVITE %s #own", nn) : how == 3 ? w_fmt("TAGMSG %s", nn) : w_fmt("PRIVMSG %s :hi", nn)); w_pump(); judge(id, ok, w_count(L1, how == 1 ? w_fmt("%s O %s :hi", ynum, num(u)) : how == 2 ? w_fmt("%s I %s #own", ynum, nn) : how == 3 ? w_fmt("%s TM %s", ynum, num(u)) : w_fmt("%s P %s :hi", ynum, num(u))), nn); if (was) vp_reach("free"); if (how == 2) vp_reach("invite"); }
/* the server tells targets apart by a byte of their address: the users live in memory handed to its free list, a page apart */
static struct Channel *ch[4]; static int slow[4], joined[4];
static void moved(struct Channel *c, struct Channel *d) { hRemChannel(c); memcpy(d, c, sizeof *c + strlen(c->chname)); if (d->next) d->next->prev = d; if (d->prev) d->prev->next = d; else GlobalChannelList = d; for (struct Membership *m = d->members; m; m = m->next_member) m->channel = d; hAddChannel(d); }
static void pages(void) { static char *arena; int n = 62; arena = malloc((unsigned long)(n + 1) * 4096); memset(arena, 0, (unsigned long)(n + 1) * 4096); unsigned long o = (4096 - ((unsigned long)arena & 4095)) & 4095; for (int i = 56, k = 0; k < 4; i++) { void *d = arena + o + (unsigned long)i * 4096; if (!hsh(d)) continue; used[hsh(d)] = 1; struct Channel *c = FindChannel(w_fmt("#j%d", k)); vp_assert(c != 0, "harness: channels"); ch[k++] = d; moved(c, d); } n = 56; for (int i = 0; i < n; i++) { struct Client *c = (struct Client *)(arena + o + (unsigned long)i * 4096); cli_magic(c) = CLIENT_MAGIC; cli_hnext(c) = c; cli_connect(c) = cli_connect(w_client(L1)); free_client(c); } }
static void setup(void) {
  std_network(); w_send(bob, "JOIN #j0"); w_send(bob, "JOIN #j1"); w_send(bob, "JOIN #j2"); w_pump(); w_advance(20); w_send(bob, "JOIN #j3"); w_send(bob, "MODE #j3 +P"); w_pump(); A = w_user("anna", "10.0.0.71"); a = w_client(A); ynum = w_fmt("AB%s", cli_yxx(a)); w_send(L1, "AC N opal 1 1600000000 r host.r +i AKAABn ACABz :r"); w_pump(); pages(); for (int i = 0; i < 56; i++) w_send(L1, w_fmt("AC N r%d 1 1600000000 r host.r +i AKAABn %s :r", i, num(i))); w_pump(); used[0] = 1; for (int i = 0; i < 20; i++) tbl[i] = -1; nt = w_now - 128 * 9;
  for (int i = 0; i < 56 && np < 40; i++) { struct Client *c = FindUser(w_fmt("r%d", i)); if (!c) continue; int h = hsh(c); if (used[h]) continue; used[h] = 1; pool[np++] = i; } vp_print("pool", np); vp_assert(np >= 30, "harness: enough targets"); }
void vp_scenario(void) {
  setup();
#if RUN == 1
  int idle = vp_bool("idle"), n0 = idle ? 18 + vp_pick("first", 3) : 9 + vp_pick("first", 2); if (idle) vp_reach("idle"); w_send(A, "CAP REQ :message-tags"); w_pump(); w_send(A, "JOIN #own"); w_pump(); w_send(L1, w_fmt("%s J #own %l", "ACABz", (long)w_now)); w_pump(); wait_(1); memset(cli_targets(a), 0, 20); cli_nexttarget(a) = nt = w_now - 128 * 9; wait_(idle ? 2700 : 1);
  for (int i = 0; i < n0; i++) { say(nextp++, 0); if (i % 4 == 3) { w_advance(0); } }
  for (int s = 0; s < D; s++) { int ev = vp_pick("event", EV); static int oldest;
    if (ev == 0) say(nextp++, s % 3 == 2 ? 0 : vp_pick("how", 4));
    else if (ev == 1) { say(oldest, 1); vp_reach("oldest"); }
    else if (ev == 2) { for (int i = 0; i < 20; i++) if (tbl[i] >= 0 && tbl[i] < MAXT) { say(tbl[i], 0); break; } }
    else if (ev == 3) { int id = nextp++; w_clear_all(); w_send(L1, w_fmt("%s P %s :psst", num(pool[id]), ynum)); w_pump(); vp_assert(w_count(A, "PRIVMSG anna :psst") == 1, "harness: heard"); int k = at(id); heard(id); (void)k; say(id, 0); vp_reach("reply"); }
    else if (ev == 10) { static int jn; if (jn == 4) vp_end(); int j = jn++, inv = vp_bool("invited"), id = MAXT + j; joined[j] = 1; if (inv) { w_send(bob, w_fmt("INVITE anna #j%d", j)); w_pump(); } int k = may(id, inv); w_clear_all(); w_send(A, w_fmt("JOIN #j%d", j)); w_pump(); if (k == 1 && !w_count(A, " 439 ")) note(id, 0); vp_assert(w_count(bob, "JOIN #j") + w_count(bob, "JOIN :#j") == 1, "a channel is joined at once"); vp_assert(w_count(A, " 439 ") <= !k, "and an invitation makes it free"); slow[j] = !k; vp_reach(k == 2 ? "invited" : "join"); }
    else if (ev == 8) { int j = vp_pick("channel", 4); if (joined[j] != 1) vp_end(); int ok = j == 3 ? may(MAXT + j, 0) : 1, inv = 0; w_clear_all(); w_send(A, w_fmt("PRIVMSG #j%d :words", j)); w_pump(); (void)inv; vp_assert(w_count(bob, " :words") == ok, "channels are spoken to freely"); vp_assert(w_count(A, " 439 ") <= !ok, "harness: as said"); if (ok) slow[j] = 0; vp_reach("spoke"); }
    else if (ev == 9) { int j = vp_pick("channel", 4); if (joined[j] != 1) vp_end(); joined[j] = 2; int paid = !slow[j] || may(MAXT + j, 0); w_clear_all(); w_send(A, w_fmt("PART #j%d :parting words", j)); w_pump(); vp_assert(w_count(bob, " PART ") == 1 && w_count(bob, "parting words") == paid, "parting words are for channels addressed or paid for"); vp_reach(paid ? "paid" : "unpaid"); }
    else if (ev == 4) { w_clear_all(); w_send(A, "CPRIVMSG opal #own :op talk"); w_pump(); vp_assert(w_count(L1, w_fmt("%s P %s :op talk", ynum, "ACABz")) == 1 && !w_count(A, " 439 "), "channel operators address their members freely"); }
    else if (ev == 5) { wait_(126); vp_reach("waited"); } else if (ev == 6) wait_(128); else if (ev == 7) { for (int i = 0; i < 3; i++) { int id = nextp++; w_send(L1, w_fmt("%s P %s :psst", num(pool[id]), ynum)); w_pump(); heard(id); } vp_reach("pushed"); }
    if (nextp > np - 5) vp_end(); }
#else
  int k = vp_pick("used", 11), long_ = vp_bool("later"); for (int i = 0; i < k; i++) say(nextp++, 0); int left = 10 - k; wait_(1); w_eof(A); w_pump(); wait_(long_ ? 131 : 1); A = w_user("anna", "10.0.0.71"); a = w_client(A); ynum = w_fmt("AB%s", cli_yxx(a)); w_clear_all();
  if (k) { w_send(A, w_fmt("PRIVMSG r%d :again", pool[0])); w_pump(); int g = w_count(L1, " :again"); if (!long_) { vp_assert(g == 1, "who was addressed before leaving can be addressed after"); vp_reach("kept"); } }
  int got = 0; for (int i = 0; i < 12; i++) { w_clear_all(); w_send(A, w_fmt("PRIVMSG r%d :hi", pool[nextp++])); w_pump(); int g = w_count(L1, " :hi"); if (g) note(20 + i, 0); else break; got++; } if (!long_) { vp_assert(got <= left, "leaving and coming back gives no further targets"); vp_assert(got == left, "nor takes any away"); vp_reach("lost"); } else { vp_assert(got >= left && got <= 10, "but waiting does"); vp_reach("later"); }
#endif
}
