/* @property W03
 * @quick time=200 RUN=1 label=client j=4
 * @quick time=200 RUN=2 label=peer j=4
 * @quick time=200 RUN=3 MAXK=3 label=blank j=3
 * @quick time=60 RUN=4 NP=4 label=prefix j=3
 * @thorough time=200 RUN=4 NP=6 label=prefix j=3
 * @thorough time=800 RUN=1 NB=11 label=client j=5
 * @thorough time=800 RUN=2 NB=11 label=peer j=5
 * @thorough time=900 RUN=3 MAXK=4 label=blank j=3
 * @reach client:params client:trailing client:none peer:params peer:trailing blank:done prefix:run prefix:not
 * @bounds a client command and a peer message followed by NB (8, thorough 11) arbitrary bytes, or preceded by up to 4 (thorough 6) bytes of blanks, colons and letters, in any case; a peer line of one arbitrary byte or up to 3 (thorough 4) bytes of a blank, NUL, @ : ; A C, followed by up to 16 blanks, after a longer line
 * @outside commands with a limit on parameters below the maximum, message tags
 */
#ifndef NB
#define NB 8
#endif
#include "chan.inc"
static int pc, calls; static char *pv[20]; static struct Client *psrc;
static int spy(struct Client *c, struct Client *s, int parc, char *parv[]) { (void)c; calls++; pc = parc; psrc = s; for (int i = 0; i < parc && i < 18; i++) { pv[i] = malloc(600); strcpy(pv[i], parv[i]); } vp_assert(parc >= 1 && parc <= 16, "parameter count within limits"); vp_assert(parv[parc] == 0, "the parameter list is terminated"); return 0; }
void vp_scenario(void) {
  std_network(); const char *yb = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(bob)));
  char l[200]; unsigned char b[16]; int n;
#if RUN < 3
  for (int i = 0; msgtab[i].cmd; i++) if (!strcmp(msgtab[i].cmd, "PRIVMSG")) for (int k = 0; k < 5; k++) msgtab[i].handlers[k] = spy;
  strcpy(l, RUN == 1 ? "PRIVMSG" : "ACAAA P"); n = strlen(l); for (int i = 0; i < NB; i++) { b[i] = vp_byte("b"); vp_assume(b[i] != '\r' && b[i] != '\n'); l[n + i] = b[i]; } l[n + NB] = 0;
  vp_assume(b[0] == ' ' || b[0] == 0); w_clear_all(); l[n + NB] = '\r'; l[n + NB + 1] = '\n'; w_feed(RUN == 1 ? boss : L1, l, n + NB + 2); w_pump();
  vp_assert(calls == 1, "the command runs exactly once"); vp_assert(psrc == (RUN == 1 ? w_client(boss) : FindUser("carol")), "with its sender");
  /* reference split */
  int len = 0; while (len < NB && b[len]) len++; int p = 0, c = 1, maxp = 15; for (int k = 0; k < 20; k++) { while (p < len && b[p] == ' ') p++; if (p >= len) break; int s = p, e; if (b[p] == ':') { s = p + 1; e = len; vp_reach("trailing"); } else if (c >= maxp) e = len; else { while (p < len && b[p] != ' ') p++; e = p; vp_reach("params"); }
    vp_assert(c < pc, "no parameter is lost"); int ok = strlen(pv[c]) == (size_t)(e - s); for (int i = s; i < e && pv[c][i - s]; i++) ok &= (unsigned char)pv[c][i - s] == b[i]; vp_assert(ok, "each parameter is passed intact"); c++; if (e == len) break; }
  if (c == 1 && RUN == 1) vp_reach("none"); vp_assert(c == pc, "no parameter is invented");
#elif RUN == 4
  /* blanks and a prefix before a client's command */
  for (int i = 0; msgtab[i].cmd; i++) if (!strcmp(msgtab[i].cmd, "PRIVMSG")) for (int k = 0; k < 5; k++) msgtab[i].handlers[k] = spy;
  static const char *sp[] = {"PRIVMSG", "privmsg", "PrIvMsG"}; static const char al[] = {' ', ':', 'x', '!'}; char q[8]; n = 0; int m = vp_pick("before", NP + 1); for (int i = 0; i < m; i++) l[n++] = al[vp_pick("b", 4)]; int w = vp_pick("spelling", 3); const char *rest = w_fmt("%s  bob :x  y ", sp[w]); for (int i = 0; rest[i]; i++) l[n++] = rest[i]; l[n] = 0; char *ch = l; while (*ch == ' ') ch++; if (*ch == ':') { while (*ch && *ch != ' ') ch++; while (*ch == ' ') ch++; } (void)q; int is = !strncasecmp(ch, "PRIVMSG ", 8); 
  l[n] = '\r'; l[n + 1] = '\n'; w_clear_all(); w_feed(boss, l, n + 2); w_pump(); vp_assert(calls == is, "a command runs exactly if it comes first, after blanks and a prefix"); vp_reach(is ? "run" : "not"); if (is) { vp_assert(psrc == w_client(boss), "with its sender, whatever the prefix says"); vp_assert(pc == 3 && w_eq(pv[1], "bob") && w_eq(pv[2], "x  y "), "each parameter is passed intact"); } else vp_assert(!w_out(bob)[0] && !w_out(L1)[0], "nothing else runs");
#else
  w_send(L1, w_fmt("AC O %s :x P %s :echo   P %s :echo P %s :echo", yb, yb, yb, yb)); w_pump(); vp_assert(w_count(bob, "NOTICE bob :x P") == 1, "harness: first line"); w_clear_all();
  int k = vp_pick("bytes", MAXK + 1), z = vp_pick("blanks", 17); n = 0; for (int i = 0; i < k; i++) { b[i] = vp_byte("b"); vp_assume(k == 1 ? b[i] != '\r' && b[i] != '\n' : (b[i] == ' ') | (b[i] == '@') | (b[i] == ':') | (b[i] == 'A') | (b[i] == 'C') | (b[i] == 0) | (b[i] == ';')); l[n++] = b[i]; } while (z--) l[n++] = ' '; l[n++] = '\n'; w_feed(L1, l, n); w_pump(); vp_reach("done");
  vp_assert(!w_out(bob)[0] && !w_out(boss)[0], "nothing of an earlier line is executed again"); vp_assert(!w_closed(L1) && !w_closed(bob), "connections stay");
#endif
}
