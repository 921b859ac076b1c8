/* @property A07
 * @quick time=300 D=2 label=two j=4
 * @thorough time=2500 D=3 label=deep j=8
 * @reach two:throttled two:exempt two:flood two:thin two:oper two:exact two:rest
 * @bounds a user of an ordinary class, of one with a small or a large flood limit, an operator, an operator of the large class, the same after -o, and both after a REHASH that changes the class; two (thorough three) bursts of 1, 4 or 7 lines of eight kinds (short, long and 119/120 characters of parameters, unknown, CAP LIST, exactly filling the limit, one byte more), with every gap of 0, 1, 2, 5 and 11 seconds between them
 * @outside several clients at a time, websocket clients (W05), lines without an end
 */
#include "chan.inc"
#ifndef D
#define D 1
#endif
const char *vp_clients = "", *vp_classmax = "1024";
#define CL(l, f) "Class { name = \"fat\"; pingfreq = 90 seconds; maxlinks = 50; maxflood = " f "; };\nClass { name = \"thin\"; pingfreq = 90 seconds; maxlinks = 50; maxflood = " l "; };\nClient { class = \"Local\"; ip = \"10.0.0.*\"; maxlinks = 50; };\nClient { class = \"fat\"; ip = \"10.0.1.*\"; maxlinks = 50; };\nClient { class = \"thin\"; ip = \"10.0.2.*\"; maxlinks = 50; };\n"
const char *vp_conf_extra = CL("600", "2048");
static struct { char what; int cost, bytes; char tag; } q[80]; static int nq, done, A, pend, limit, free_, oper, dead, timer, nb, nu, nc; static long since;
static char want[80]; static int nw;
static void run(void) { while (done < nq && (free_ || since - w_now < 10)) { since += q[done].cost; pend -= q[done].bytes; if (q[done].what == 'm') want[nw++] = q[done].tag; else if (q[done].what == 'u') nu++; else nc++; done++; } timer = done < nq ? 2 : 0; }
static void look(void) { int n = w_lines(bob), k = 0, bad = 0; for (int i = 0; i < n; i++) { char *m = strstr(w_line(bob, i), "PRIVMSG bob :"); if (!m) continue; if (k >= nw || m[13] != want[k]) bad = 1; k++; }
  vp_assert(!bad && k <= nw, "no line is taken before its time, and each in its turn"); vp_assert(k == nw, "each line is taken as soon as its time has come");
  if (!dead) { vp_assert(w_count(A, " 421 ") == nu && w_count(A, " LIST ") == nc, "also those answered to the sender"); vp_assert(!w_closed(A), "a client within its limit stays"); } }
void vp_scenario(void) {
  std_network(); w_oper(boss); static const char *ip[] = {"10.0.0.71", "10.0.2.71", "10.0.1.71", "10.0.0.71", "10.0.1.71", "10.0.1.71", "10.0.1.71", "10.0.2.71"}; static const int lim[] = {1024, 600, 2048, 1024, 1024, 2048, 700, 3000};
  int k = vp_pick("kind", 8); limit = lim[k]; free_ = limit > 1024; A = w_user("anna", ip[k]); if (k >= 3 && k <= 5) { w_send(A, "OPER loc secret"); w_pump(); w_advance(20); oper = 1; } if (k == 5) { w_send(A, "MODE anna -o"); w_pump(); oper = 0; }
  if (k >= 6) { w_setconf(k == 6 ? CL("600", "700") : CL("3000", "2048")); w_send(boss, "REHASH"); w_pump(); } w_advance(25); w_clear_all(); vp_assert(!oper == !IsAnOper(w_client(A)), "harness: operator"); since = w_now - 20;
  for (int s = 0; s < D; s++) { static const int nn[] = {1, 4, 7};
#ifdef SMALL
    static const int ty[] = {0, 3, 5}; int t = ty[vp_pick("type", 3)], n = s ? 4 : nn[vp_pick("lines", 3)];
#else
    int t = vp_pick("type", 8), n = nn[vp_pick("lines", 3)];
#endif
    char *b = malloc(8000), *p = b; int fill = 0; if (t >= 6) { if (n != 4) vp_end(); fill = limit - pend + (t == 7); n = 40; if (fill < 40) vp_end(); }
    for (int i = 0; i < n; i++) { const char *l; int par; char what = 'm';
      if (t == 4) { l = "FOO"; par = 3; what = 'u'; } else if (t == 5) { l = "CAP LIST"; par = 4; what = 'c'; } else { static const int pl[] = {8, 119, 120, 370}; if (t >= 6) { if (!fill) break; int take = fill > 400 ? 300 : fill > 330 ? fill / 2 : fill; fill -= take; par = take - 10; } else par = pl[t]; char *x = malloc(500); memcpy(x, "PRIVMSG bob :", 13); int e = 8 + par; for (int j = 13; j < e; j++) x[j] = 'x'; x[13] = 'A' + nq; x[e] = 0; l = x; }
      int len = strlen(l); memcpy(p, l, len); p += len; *p++ = '\r'; *p++ = '\n'; q[nq].what = what; q[nq].tag = 'A' + nq; q[nq].bytes = len + 2; q[nq].cost = what == 'u' || (what == 'c' && oper) ? 0 : 2 + par / 120; nq++; pend += len + 2; }
    if (since < w_now) since = w_now; int over = pend > limit; if (pend == limit) vp_reach("exact"); int keep = timer; w_feed(A, b, p - b);
    if (over) dead = 1; else { run(); if (keep && timer) timer = keep; } look();
    if (over) { w_pump(); vp_assert(w_closed(A) && w_find(A, "Excess Flood") && !FindUser("anna"), "and one that exceeds it is dropped for it"); vp_reach("flood"); for (int i = 0; i < 12; i++) { w_advance(1); look(); } vp_end(); }
    if (done < nq) vp_reach("throttled"); else if (free_ && n == 7) vp_reach("exempt"); if (limit == 600) vp_reach("thin"); if (oper && t == 5) vp_reach("oper");
    static const int gp[] = {0, 1, 2, 5, 11}; int g = gp[vp_pick("gap", 5)]; for (int i = 0; i < g; i++) { w_advance(1); if (timer && !--timer) run(); look(); } }
  for (int i = 0; i < 90 && done < nq; i++) { w_advance(1); if (timer && !--timer) run(); if (i < 12 || done == nq) look(); } vp_assert(done == nq, "harness: all in the end"); look(); vp_reach("rest");
}
