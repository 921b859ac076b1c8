/* @property N07
 * @quick time=150 RUN=1 label=direction j=8
 * @quick time=100 RUN=2 NB=1 label=bytes j=8
 * @thorough time=600 RUN=1 DEEP label=direction j=8
 * @thorough time=1500 RUN=2 NB=2 label=bytes j=8
 * @reach direction:fake direction:unknown bytes:carol bytes:leaf bytes:none
 * @bounds every message of the server protocol in the name of each known user or server that is not behind the sending peer (numeric or name), or unknown; a notice with an arbitrary prefix of one (thorough two) arbitrary bytes after one of a few beginnings
 * @outside what a peer says about users behind itself (its own word)
 */
#include "chan.inc"
#include "digest.inc"
const char *vp_features = "\"OPLEVELS\" = \"TRUE\"; \"CONFIG_OPERCMDS\" = \"TRUE\"; ";
const char *vp_conf_extra = "UWorld { oper = \"god\"; };\nUworld { name = \"leaf1.test.net\"; };\n";
static const char *peer_t[] = {
"%U P ABAAB :hi", "%U P #x :hi", "%U O bob@vp.test.net :hi", "%S N erin 1 1600000100 erin host.erin +ir acc:12345 AKAABp ACAAB :erin real", "%S N fred 2 1600000100 fred host.fred AKAABp ACAAB :fred real", "%U N carla 1600000200", "%S O $*.net :hi", "%U TM #x", "%U WC #x :hi", "%U WV #x :hi", "%U J #x 1700000000", "%U J 0", "%U M #x +ovb ABAAB ACAAA a!b@c 1700000000", "%S M #x +klb key 5 x!y@z 1700000000", "%S M #x -k+AU key pass word 1700000000", "%U M carol +iwx", "%S B #x 1600000000 +stnlk 5 key ACAAA:o,AC1 :%%a!b@c d!e@f", "%S B #y 1600000000 ACAAA:ov :%%a!b@c ~ x!y@z", "%S B #x 1700000000 +nlkAU 5 key ap up ACAAA:1,ACAAB:v :%%a!b@c", "%U C #y,#z 1600000000", "%S DE #y 1600000000", "%U Q :bye", "%U L #x,#y :bye", "%U T #x 1700000000 1700000001 :topic", "%U T #x carol!c@h 1700000000 1700000001 :topic", "%U I bob #x 1700000000", "%U K #x ABAAB :out", "%S K #x ACAAA :out", "%U WA :hi", "%U WU :hi", "%S DS :hi", "%S G !1700000000.5 vp.test.net 1700000000.5", "%S Z AB AC 1 2 3", "%S Z AC :x", "%S Y :err", "%S D ABAAB :leaf1.test.net (x)", "%U D ADAAA :host!carol (x)", "%U A :gone", "%S S leaf4.test.net 2 0 1700000000 P10 AFAAD +6s :leaf four", "%S S leaf4.test.net 2 0 1700000000 J10 AFA]]] + :leaf four", "%S SQ leaf2.test.net 0 :why", "%S SQ leaf1.test.net 1600000000 :why", "%U W AB :bob", "%U X bob 3 AB", "%U E * :#x", "%U TR bob :AB", "%U LU * AB", "%U TI AB", "%S SE 1700000001 AB", "%U RI AB boss x :x", "%S RO leaf2.test.net ACAAA 5 :x", "%S RO ABAAA 1 2 3 :x", "%U OPER AB god secret", "%U CO leaf3.test.net 4400 AB", "%U V AB", "%U R u AB bob", "%U LI AB *", "%U AD AB", "%U F AB", "%U MO AB", "%U U ABAAB a!b@c,~d!e@f", "%S GL * +a@b.c 100 1700000000 1700000200 :reason", "%S GL AB -a@b.c 1700000100 1700000200 :reason", "%S GL * !%%+10.0.0.0/8 100 :reason", "%S GL * >a@b.c 1700000000", "%S SL * +10 1 regex", "%S JU * +x.net 100 1700000000 :reason", "%S JU AB -x.net 1700000001 :reason", "%U OM #x +ovb ABAAB ACAAA a!b@c 1700000000", "%S OM #x -klT key 1700000000", "%U CM #x ovpsmikbl 1700000000", "%U UP leaf1.test.net 4400 AB 3", "%S EB", "%S EA", "%U HASH", "%U PROTO", "%U PR ABAAB", "%S AC ABAAB acct 1700000000 5", "%S AC ABAAB R acct 1700000000", "%S AC ABAAB M new 17 5", "%S AC AB C .1 user :pass", "%S LL AC 1 2 3", "%S XQ AB tok :text", "%S XR AB sasl:AB!5.1 :L x", "%S XR AB iauth:x :OK acc", "%S CF 1700000000 key :value", "%S 401 ABAAB x :y", "%S 351 ABAAB x :y", "%S W AB bob", "%S SERVER a b", "%S PASS x", "%S CAP LS", "%S ERROR :x"};
#define N(a) ((int)(sizeof a / sizeof *a))
void vp_scenario(void) {
  std_network(); w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_send(L1, w_fmt("ACAAA J #x %l", (long)w_now)); w_pump(); w_advance(15); w_clear_all();
#if RUN == 1
  static const char *src[] = {"ABAAA", "ABAAB", "ADAAA", "AD", "AB", ":boss", ":bob", ":dave", ":leaf2.test.net", ":vp.test.net", "AZ", "AZAAA", "ACAAZ", ":nobody"}; const char *b = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(boss))); src[0] = b; src[1] = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(bob)));
  int s = vp_pick("source", 14), m = vp_pick("message", N(peer_t)), unk = s >= 10; const char *cmd = peer_t[m] + 3; if (unk) vp_assume(!(cmd[1] == 'Q' || (cmd[0] == 'D' && cmd[1] == ' ')));
  char *before = digest(); w_send(L1, w_fmt("%s %s", src[s], cmd)); w_pump(); char *after = digest(); 
#ifdef DBG
 for (int i = 0; before[i]; i++) if (before[i] != after[i]) { int j = i; while (j > 0 && i - j < 400) j--; before[i + 20] = after[i + 20] = 0; vp_prints("before", before + j); vp_prints("after", after + j); vp_assert(0, "D"); }
#endif

  vp_assert(!strcmp(before, after), "a message in the name of someone not behind the peer changes nothing"); int nk = s == 12 && cmd[0] == 'N' && cmd[1] == ' ';
  vp_assert(!w_out(boss)[0] && !w_out(bob)[0] && !w_out(L2)[0], "and reaches nobody"); vp_assert(w_lines(L1) == nk && (!nk || w_starts(w_line(L1, 0), "AB D ACAAZ :")), "the peer is only told to remove users unknown here"); vp_reach(unk ? "unknown" : "fake"); vp_assert(!w_closed(L1), "the link stays");
#ifdef DEEP
  w_advance(4); w_pump(); vp_assert(!strcmp(before, digest()) && !w_out(boss)[0] && !w_out(bob)[0], "nor later");
#endif
#else
  static const char *pre[] = {"", "A", "AC", "ACAA", "ACA", "AB", "ABAA", "ADAA", "ADA", ":caro", ":bo", ":", "ACAAA"}; int p = vp_pick("begin", 13), n = vp_pick("n", NB + 1); char *l = malloc(64), *o = l; strcpy(o, pre[p]); o += strlen(o); for (int i = 0; i < n; i++) { *o = vp_byte("b"); vp_assume((*o != 0) & (*o != '\r') & (*o != '\n') & (*o != '@') & (*o != ' ')); o++; } vp_assume(o > l); strcpy(o, " O ABAAB :hi"); const char *yo = w_fmt("%s%s", cli_yxx(&me), cli_yxx(w_client(bob))); o[3] = yo[0]; for (int i = 0; i < 5; i++) o[3 + i] = yo[i];
  w_send(L1, l); w_pump(); int n1 = w_lines(bob); int car = n1 && w_eq(w_line(bob, 0), ":carol!carol@host.carol NOTICE bob :hi"), leaf = n1 && w_eq(w_line(bob, 0), ":leaf1.test.net NOTICE bob :hi"); if (car) vp_reach("carol"); else if (leaf) vp_reach("leaf"); else vp_reach("none");
  vp_assert(n1 == car + leaf, "whatever the prefix, a message only ever speaks for those behind the peer"); vp_assert(!w_out(boss)[0] && !w_out(L2)[0], "and reaches nobody else"); vp_assert(!(p == 12 && n == 0) || car, "a correct prefix works");
#endif
}
