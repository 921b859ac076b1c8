/* @property R01
 * @quick time=300 RUN=1 label=user j=8
 * @quick time=300 RUN=2 label=oper j=8
 * @quick time=300 RUN=3 label=peer j=8
 * @quick time=100 RUN=4 label=unreg j=8
 * @quick time=60 RUN=1 BYTES=1 label=userb j=8
 * @quick time=60 RUN=2 BYTES=1 label=operb j=8
 * @quick time=60 RUN=3 BYTES=1 label=peerb j=8
 * @quick time=60 RUN=4 BYTES=1 label=unregb j=8
 * @thorough time=60 RUN=1 BYTES=1 label=userb j=8
 * @thorough time=60 RUN=2 BYTES=1 label=operb j=8
 * @thorough time=60 RUN=3 BYTES=1 label=peerb j=8
 * @thorough time=300 RUN=4 BYTES=2 label=unregb j=8
 * @thorough time=3000 RUN=1 DEEP label=user j=8
 * @thorough time=3000 RUN=2 DEEP label=oper j=8
 * @thorough time=3000 RUN=3 DEEP label=peer j=8
 * @thorough time=1000 RUN=4 DEEP label=unreg j=8
 * @reach user:alive user:dropped user:answered oper:answered oper:alive peer:alive peer:answered unreg:alive
 * @bounds every command and token, from a well-formed message with one parameter an arbitrary byte (thorough, before registration: two bytes), or with one (thorough two) parameter(s) replaced by any of about 25 awkward words (empty, zero, signs, huge numbers, long words, wildcards, lists, names of users, servers and channels, mode strings), or with the message ending at any parameter; by a user, an operator, an unregistered connection, and a peer server in its own or its user's name
 * @outside three or more simultaneously awkward parameters, DIE and RESTART, sequences of malformed messages
 */
#include "chan.inc"
const char *vp_features = "\"OPLEVELS\" = \"TRUE\"; \"CONFIG_OPERCMDS\" = \"TRUE\"; ";
const char *vp_conf_extra = "UWorld { oper = \"god\"; };\n";
static char longw[420], longlist[420];
static const char *vocab[] = {"", "0", "-1", "99999999999", "*", "#x", "#new", "#", "&", "bob", "carol", "ABAAB", "ACAAA", "AC", "A", "ZZZZZ", "vp.test.net", "leaf1.test.net", "+ovklb", "-k+ilb", "+bbb", "a!b@c", "*!*@10.0.0.0/8", "~*@1.2.3.4,,x", "%", "!", longw, longlist, "$*.net", "\001DCC", "1700000000", "ABAAA:ovb,ABAAB:999", "%a!b@c d!e@f g", "boss,bob,,carol", "@#x", "+", "C", "-", ".", "a@vp.test.net"};
#define NV ((int)(sizeof vocab / sizeof *vocab))
static const char *user_t[] = {"PRIVMSG bob :hi", "NICK newnick", "NOTICE bob :hi", "TAGMSG bob", "@+x=1 TAGMSG #x", "WALLCHOPS #x :hi", "WALLVOICES #x :hi", "CPRIVMSG bob #x :hi", "CNOTICE bob #x :hi", "JOIN #y key", "MODE #x +ovb bob carol a!b@c", "MODE #x +klb key 5 x!y@z", "MODE #x +AU pass word", "MODE boss +iwsdx 5", "QUIT :bye", "PART #x :bye", "TOPIC #x :topic", "INVITE bob #y", "KICK #x bob :out", "WALLOPS :hi", "WALLUSERS :hi", "PING a b", "PONG a b", "KILL carol :reason", "USER a b c :d", "AWAY :gone", "ISON bob carol dave", "SERVER x 1 0 0 J10 ABAAA + :x", "SQUIT leaf2.test.net :why", "WHOIS bob", "WHOIS vp.test.net bob,carol", "WHO #x %tcuihsnfdlaor,12", "WHO bob o c", "WHOWAS bob 3 x", "LIST >5,<9,C>3 x", "LIST #x,#y", "NAMES #x,#y x", "USERHOST bob carol", "USERIP bob carol", "TRACE bob x", "PASS x", "LUSERS * vp.test.net", "TIME vp.test.net", "SETTIME 1700000001 leaf1.test.net", "RPING leaf1.test.net x :x", "OPER god secret", "CONNECT leaf3.test.net 4400 x", "MAP *", "VERSION *", "STATS u vp.test.net bob", "STATS f * x", "STATS j vp.test.net x", "STATS c", "STATS l * *", "STATS q * *", "LINKS * *", "ADMIN vp.test.net", "HELP x", "INFO vp.test.net", "MOTD vp.test.net", "CLOSE", "SILENCE +a!b@c,~d!e@f,-x", "GLINE +a@b.c * 100 :reason", "GLINE +10.1.2.0/24 vp.test.net 100 :reason", "GLINE !#bad * 5 :x", "GLINE -a@b.c", "JUPE +x.net * 100 :reason", "JUPE -x.net", "OPMODE #x +ovb bob carol a!b@c", "OPMODE #x -klT key", "CLEARMODE #x ovpsmikbl", "UPING leaf1.test.net 4400 vp.test.net 3", "HASH x", "REHASH m", "PROTO x y", "SET NETWORK x", "SET HIS_MAP TRUE x y", "RESET NETWORK", "GET NETWORK x", "PRIVS bob carol", "ASLL leaf1.test.net x", "WEBIRC a b c d", "XQUERY leaf1.test.net tok :text", "CAP LS 302", "CAP REQ :multi-prefix -away-notify", "CAP END", "POST x", "AUTHENTICATE PLAIN", "SLINE x y z", "XREPLY a b c"};
static const char *unreg_t[] = {"NICK newnick", "USER a b c :d", "PASS x :y", "CAP LS 302", "CAP REQ :multi-prefix sasl", "CAP LIST", "CAP END", "AUTHENTICATE PLAIN", "AUTHENTICATE dGVzdA==", "WEBIRC pass cgi host 1.2.3.4 :opts", "SERVER leaf3.test.net 1 1600000000 1600000000 J10 AEAAD +h6 :leaf3", "PONG 12345", "QUIT :x", "POST / HTTP", "ERROR :x", "ADMIN x", "VERSION x", "PROTO x", "JOIN #x"};
static const char *peer_t[] = {"%U P ABAAB :hi", "%U P #x :hi", "%U O bob@vp.test.net :hi", "%S N erin 1 1600000100 erin host.erin +ir acc:12345 AKAABp ACAAB :erin real", "%S N fred 2 1600000100 fred host.fred AKAABp ACAAB :fred real", "%U N carla 1600000200", "%S O $*.net :hi", "%U TM #x", "%U WC #x :hi", "%U WV #x :hi", "%U J #x 1700000000", "%U J 0", "%U M #x +ovb ABAAB ACAAA a!b@c 1700000000", "%S M #x +klb key 5 x!y@z 1700000000", "%S M #x -k+AU key pass word 1700000000", "%U M carol +iwx", "%S B #x 1600000000 +stnlk 5 key ACAAA:o,AC1 :%%a!b@c d!e@f", "%S B #y 1600000000 ACAAA:ov :%%a!b@c ~ x!y@z", "%S B #x 1700000000 +nlkAU 5 key ap up ACAAA:1,ACAAB:v :%%a!b@c", "%U C #y,#z 1600000000", "%S DE #y 1600000000", "%U Q :bye", "%U L #x,#y :bye", "%U T #x 1700000000 1700000001 :topic", "%U T #x carol!c@h 1700000000 1700000001 :topic", "%U I bob #x 1700000000", "%U K #x ABAAB :out", "%S K #x ACAAA :out", "%U WA :hi", "%U WU :hi", "%S DS :hi", "%S G !1700000000.5 vp.test.net 1700000000.5", "%S Z AB AC 1 2 3", "%S Z AC :x", "%S Y :err", "%S D ABAAB :leaf1.test.net (x)", "%U D ADAAA :host!carol (x)", "%U A :gone", "%S S leaf4.test.net 2 0 1700000000 P10 AFAAD +6s :leaf four", "%S S leaf4.test.net 2 0 1700000000 J10 AFA]]] + :leaf four", "%S SQ leaf2.test.net 0 :why", "%S SQ leaf1.test.net 1600000000 :why", "%U W AB :bob", "%U X bob 3 AB", "%U E * :#x", "%U TR bob :AB", "%U LU * AB", "%U TI AB", "%S SE 1700000001 AB", "%U RI AB boss x :x", "%S RO leaf2.test.net ACAAA 5 :x", "%S RO ABAAA 1 2 3 :x", "%U OPER AB god secret", "%U CO leaf3.test.net 4400 AB", "%U V AB", "%U R u AB bob", "%U LI AB *", "%U AD AB", "%U F AB", "%U MO AB", "%U U ABAAB a!b@c,~d!e@f", "%S GL * +a@b.c 100 1700000000 1700000200 :reason", "%S GL AB -a@b.c 1700000100 1700000200 :reason", "%S GL * !%%+10.0.0.0/8 100 :reason", "%S GL * >a@b.c 1700000000", "%S SL * +10 1 regex", "%S JU * +x.net 100 1700000000 :reason", "%S JU AB -x.net 1700000001 :reason", "%U OM #x +ovb ABAAB ACAAA a!b@c 1700000000", "%S OM #x -klT key 1700000000", "%U CM #x ovpsmikbl 1700000000", "%U UP leaf1.test.net 4400 AB 3", "%S EB", "%S EA", "%U HASH", "%U PROTO", "%U PR ABAAB", "%S AC ABAAB acct 1700000000 5", "%S AC ABAAB R acct 1700000000", "%S AC ABAAB M new 17 5", "%S AC AB C .1 user :pass", "%S LL AC 1 2 3", "%S XQ AB tok :text", "%S XR AB sasl:AB!5.1 :L x", "%S XR AB iauth:x :OK acc", "%S CF 1700000000 key :value", "%S 401 ABAAB x :y", "%S 351 ABAAB x :y", "%S W AB bob", "%S SERVER a b", "%S PASS x", "%S CAP LS", "%S ERROR :x"};
#define N(a) ((int)(sizeof a / sizeof *a))
static char *tok[20]; static int nt;
static void split(const char *s) { nt = 0; while (*s) { char *o = tok[nt++] = malloc(600); if (*s == ':') { s++; while (*s) *o++ = *s++; *o = 0; break; } while (*s && *s != ' ') *o++ = *s++; *o = 0; while (*s == ' ') s++; } }
static char *joinw(int n) { char *b = malloc(4000), *o = b; for (int i = 0; i < n; i++) { if (i) *o++ = ' '; if (i && (i == n - 1) && (!tok[i][0] || tok[i][0] == ':' || strchr(tok[i], ' '))) *o++ = ':'; for (char *p = tok[i]; *p; p++) *o++ = *p; } *o = 0; return b; }
void vp_scenario(void) {
  std_network(); w_oper(bob); w_send(boss, "JOIN #x"); w_send(bob, "JOIN #x"); w_send(L1, w_fmt("ACAAA J #x %l", (long)w_now)); w_pump();
  for (int i = 0; i < 400; i++) longw[i] = 'x'; for (int i = 0; i < 400; i++) longlist[i] = ",#a"[i % 3]; int watch = w_user("watch", "10.0.0.7"), fd; w_send(watch, "JOIN #w"); w_advance(30); w_clear_all();
  const char **t; int n, first = 1;
#if RUN == 1 || RUN == 2
  t = user_t; n = N(user_t); fd = RUN == 1 ? boss : bob;
#elif RUN == 3
  t = peer_t; n = N(peer_t); fd = L1; first = 2;
#else
  t = unreg_t; n = N(unreg_t); fd = w_connect(6667, "10.0.0.8", 5000); w_send(fd, "NICK early"); 
#endif
  const char *m = t[vp_pick("message", n)];
#if RUN == 3
  int src = vp_pick("source", 2); const char *sn = src ? "ACAAA" : "AC"; m = w_fmt("%s%s", sn, m + 2);
#endif
  split(m); if (tok[0][0] == '@') first = 2; int keep = first + vp_pick("params", nt - first + 1), extra = 0;
  if (keep > first) { int a = first + vp_pick("which", keep - first); 
#ifdef BYTES
    char *b = tok[a] = malloc(BYTES + 1); for (int i = 0; i < BYTES; i++) { b[i] = vp_byte("b"); vp_assume((b[i] != 0) & (b[i] != '\r') & (b[i] != '\n') & (b[i] != ' ')); } b[BYTES] = 0;
#else
    tok[a] = (char *)vocab[vp_pick("word", NV)];
#endif
#ifdef DEEP
    if (keep > first + 1) { int b = first + vp_pick("which2", keep - first); if (b != a) tok[b] = (char *)vocab[vp_pick("word2", NV)]; }
#endif
  } (void)extra;
  const char *line = joinw(keep);  w_send(fd, line); w_pump();
#ifdef DEEP
  w_advance(3); w_pump();
#endif

  if (w_out(fd)[0]) vp_reach("answered");
  int longest = 0; for (int i = 5; i < 20; i++) { char *o = w_out(i); if (w_closed(i)) continue; while (*o) { char *e = strchr(o, '\n'); if (!e) break; if (*o == '@') { char *b = strchr(o, ' '); if (b && b < e) o = b + 1; } if (e - o > longest) longest = e - o; o = e + 1; } }
  vp_assert(longest <= 511, "lines stay within the protocol limit");
  if (w_closed(fd)) vp_reach("dropped"); else vp_reach("alive"); if (RUN == 3 && w_closed(L1)) vp_reach("split");
  /* the server still works */
  vp_assert(RUN == 2 || RUN == 3 || !w_closed(watch), "others stay connected"); if (w_closed(watch)) return; w_send(watch, "PING :again"); w_pump(); vp_assert(w_count(watch, "PONG") == 1, "the server keeps serving"); 
}
