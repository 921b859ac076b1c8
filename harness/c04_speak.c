/* @property C04
 * @quick time=120 CMD=0 label=privmsg j=4
 * @quick time=120 CMD=1 label=notice j=4
 * @reach allowed denied colour ctcp
 * @bounds one speaker against one channel: every combination of modes +mnrMZcCDu, speaker {non-member, member} x {op, voice, delayed, manager with admin password} x account x TLS x {no ban, matching host ban, matching address-range ban, non-matching ban}; text of 2 arbitrary bytes with or without the ACTION prefix; two peer servers
 * @outside server-sourced messages, spam filters, longer texts
 */
#include "chan.inc"
#ifndef CMD
#define CMD 0
#endif
void vp_scenario(void) {
  std_network(); std_channel("#x");
  int al = w_user("alice", "10.0.0.5"); struct Client *a = w_client(al);
  int member = vp_pick("member", 2);
  if (member) w_send(al, "JOIN #x");
  int ban = vp_pick("ban", 4);
  if (ban == 1) w_send(boss, "MODE #x +b *!*@10.0.0.5");
  if (ban == 2) w_send(boss, "MODE #x +b *!al*@10.0.0.0/24");
  if (ban == 3) w_send(boss, "MODE #x +b *!*@10.0.0.55");
  w_pump();
  unsigned mm = vp_bool("m"), mn = vp_bool("n"), mr = vp_bool("r"), mM = vp_bool("M"), mZ = vp_bool("Z"), mc = vp_bool("c"), mC = vp_bool("C"), mD = vp_bool("D"), mu = vp_bool("u");
  unsigned w = CH->mode.mode; w = symsel(w, MODE_MODERATED, mm); w = symsel(w, MODE_NOPRIVMSGS, mn); w = symsel(w, MODE_REGONLY, mr); w = symsel(w, MODE_MODERATENOREG, mM); w = symsel(w, MODE_TLSONLY, mZ); w = symsel(w, MODE_NOCOLOR, mc); w = symsel(w, MODE_NOCTCP, mC); w = symsel(w, MODE_DELJOINS, mD); w = symsel(w, MODE_NOPARTMSGS, mu);
  CH->mode.mode = w;
  unsigned acct = vp_bool("account"), tls = vp_bool("tls");
  SYMFLAG(a, FLAG_ACCOUNT, acct); SYMFLAG(a, FLAG_TLS, tls);
  unsigned op = 0, vo = 0, mgr = 0, ap = 0, dl = 0;
  if (member) {
    struct Membership *mb = find_member_link(CH, a); op = vp_bool("op"), vo = vp_bool("voice"), mgr = vp_bool("mgr"); dl = vp_bool("delayed"); ap = vp_pick("apass", 3); if (ap == 2) { strcpy(CH->mode.upass, "upw"); ap = 1; }
    mb->status = symsel(symsel(symsel(symsel(mb->status, CHFL_CHANOP, op), CHFL_VOICE, vo), CHFL_CHANNEL_MANAGER, mgr), CHFL_DELAYED, dl & ~op & ~vo & 1u); if (ap) strcpy(CH->mode.apass, "apw");
  }
  int action = vp_pick("action", 2); unsigned char t0 = vp_byte("t"), t1 = vp_byte("t");
  vp_assume(t0 != 0 && t0 != 10 && t0 != 13 && t1 != 0 && t1 != 10 && t1 != 13);
  char line[64]; const char *pre = action ? "\001ACTION " : "";
  strcpy(line, CMD ? "NOTICE #x :" : "PRIVMSG #x :"); strcat(line, pre); int k = strlen(line); line[k] = t0; line[k + 1] = t1; line[k + 2] = 0;
  w_clear_all(); w_send(al, line); w_pump();
  unsigned banned = ban == 1 || ban == 2;
  unsigned gated = (mr | mM) & (acct ^ 1u) | (mZ & (tls ^ 1u)) | banned;
  unsigned can;
  if (member) { unsigned adm = mgr & ap; can = (adm ^ 1u) & ((op | vo) | ((mm | gated) ^ 1u)); }
  else can = ((mn | mm) ^ 1u) & (gated ^ 1u);
  unsigned colour = mc & (unsigned)((t0 == 3) | (t0 == 27) | (t1 == 3) | (t1 == 27));
  unsigned ctcp = action ? 0 : (mC & (unsigned)((t0 == 1) | (t1 == 1)));
  can &= (colour | ctcp) ^ 1u; can &= 1u;
  char want[96]; strcpy(want, CMD ? ":alice!alice@10.0.0.5 NOTICE #x :" : ":alice!alice@10.0.0.5 PRIVMSG #x :"); strcat(want, pre); k = strlen(want); want[k] = t0; want[k + 1] = t1; want[k + 2] = 0;
  char wants[96]; strcpy(wants, w_fmt(CMD ? "%s%s O #x :%s" : "%s%s P #x :%s", cli_yxx(&me), cli_yxx(a), pre)); k = strlen(wants); wants[k] = t0; wants[k + 1] = t1; wants[k + 2] = 0;
  const char *key = CMD ? " NOTICE #x :" : " PRIVMSG #x :", *skey = CMD ? " O #x :" : " P #x :";
  int gb = w_count(bob, key), gB = w_count(boss, key), gs = w_count(L1, skey), g2 = w_count(L2, skey), ga = w_count(al, key);
  int got = gb == 1 && gB == 1 && gs == 1, none = gb == 0 && gB == 0 && gs == 0;
  vp_assert(got || none, "message delivered to all members exactly once or to none");
  vp_assert(ga == 0, "speaker does not receive an echo it did not request");
  vp_assert(g2 == 0, "message not sent to servers without members");
  vp_assert(got == can, "message delivered iff the channel modes, bans and speaker status allow it");
  if (got) { vp_assert(w_eq(w_find(bob, key), want), "members receive the text unmodified"); vp_assert(w_eq(w_find(L1, skey), wants), "servers receive the text unmodified"); vp_reach("allowed"); }
  else { vp_assert(CMD || w_count(al, " 404 alice #x ") == 1, "a refused sender is told so"); vp_reach("denied"); }
  if (colour) vp_reach("colour"); if (ctcp) vp_reach("ctcp");
}
