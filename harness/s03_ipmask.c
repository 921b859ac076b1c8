/* @property S03
 * @quick time=100 P=1 label=v6 j=4
 * @quick time=60 P=2 label=v4 j=1
 * @quick time=100 P=3 SL=6 label=any j=3
 * @quick time=60 P=4 label=prefix j=4 z=30000
 * @quick time=60 P=5 label=cidr j=2
 * @thorough time=800 P=1 label=v6 FULL=1
 * @thorough time=60 P=2 label=v4 j=1
 * @thorough time=600 P=3 SL=9 label=any
 * @thorough time=60 P=4 label=prefix
 * @thorough time=60 P=5 label=cidr
 * @reach any:accepted any:rejected prefix:in prefix:out cidr:good cidr:bad v6:ok v4:ok
 * @bounds IPv6: every pattern of zero groups with one group taking any 8-bit (thorough 16-bit) value; IPv4: any value of any one octet; texts of up to 5 (thorough 7) arbitrary characters; prefix test on all 2^128 x 2^128 address pairs with any length 0..128; dotted CIDR texts with arbitrary digits
 * @outside longer malformed texts, prefix lengths written with more than three digits
 */
#include "config.h"
#include <string.h>
#include <stdlib.h>
#include <arpa/inet.h>
#include "ircd_defs.h"
#include "res.h"
#include "match.h"
#include "ircd_string.h"
#include "ref.inc"
static void digits(char *p, int n, const char *nm) { for (int i = 0; i < n; i++) { unsigned char c = vp_byte(nm); vp_assume((c >= '0') & (c <= '9')); p[i] = c; } }
void vp_main(void) {
  struct irc_in_addr a, b; unsigned char bits = 77; char *buf = malloc(SOCKIPLEN + 1);
#if P == 1
  int pos = vp_pick("pos", 8);
  for (int i = 0; i < 8; i++) { if (i == pos) { 
#if FULL
      unsigned v = vp_int("value") & 0xffff;
#else
      unsigned v = vp_byte("value");
#endif
      a.in6_16[i] = htons(v); } else a.in6_16[i] = vp_pick("nonzero", 2) ? htons(0xf00a - i * 0x111) : 0; }
  vp_assume(a.in6_16[5] != 65535 || a.in6_16[0]); 
  const char *s = ircd_ntoa_r(buf, &a); int l = strlen(s); int r = ipmask_parse(s, &b, &bits);
  vp_assert(l <= SOCKIPLEN, "printed address fits its buffer");
  vp_assert(r == l, "a printed address is accepted in full");
  vp_assert(!irc_in_addr_cmp(&a, &b), "a printed address reads back as the same address");
  vp_assert(bits == 128, "a full address is a 128-bit mask"); vp_assert(s[0] != ':', "a printed address never begins with a colon");
  vp_reach("ok");
#elif P == 2
  int pos = vp_pick("pos", 4); unsigned char *o = (unsigned char *)&a.in6_16[6]; memset(&a, 0, sizeof a); a.in6_16[5] = 65535;
  static const unsigned char vals[3] = {0, 42, 255};
  for (int i = 0; i < 4; i++) o[i] = i == pos ? vp_concrete(vp_byte("octet")) : vals[vp_pick("other", 3)];
  const char *s = ircd_ntoa_r(buf, &a); int l = strlen(s), r = ipmask_parse(s, &b, &bits);
  vp_assert(l <= 15 && r == l, "a printed address is accepted in full"); vp_assert(!memcmp(&a, &b, sizeof a), "a printed address reads back as the same address"); vp_assert(bits == 128, "a full address is a 128-bit mask"); vp_reach("ok");
#elif P == 3
  int n = vp_pick("len", SL + 1); char *t = malloc(n + 1); r_str((unsigned char *)t, n, "text"); int withbits = vp_pick("withbits", 2);
  int r = ipmask_parse(t, &a, withbits ? &bits : 0); vp_assert(r >= 0 && r <= n, "no more than the text is consumed");
  if (!r) { vp_reach("rejected"); return; } vp_reach("accepted");
  if (withbits) vp_assert(bits <= 128, "prefix length at most 128");
  for (int i = 0; i < r; i++) { unsigned char c = t[i]; vp_assert((unsigned)((c >= '0') & (c <= '9')) | (unsigned)((c >= 'a') & (c <= 'f')) | (unsigned)((c >= 'A') & (c <= 'F')) | (unsigned)(c == '.') | (unsigned)(c == ':') | (unsigned)(c == '*') | (unsigned)(c == '/'), "only address characters are accepted"); }
  if (!withbits) for (int i = 0; i < r; i++) vp_assert(t[i] != '/', "a prefix length needs somewhere to go");
#elif P == 4
  vp_make(&a, sizeof a, "addr"); vp_make(&b, sizeof b, "mask"); int nb = vp_pick("bits", 129); int r = ipmask_check(&a, &b, nb) != 0; if (r) vp_reach("in"); else vp_reach("out"); unsigned bad = 0;
  for (int i = 0; i < 8; i++) { int k = nb - 16 * i; if (k <= 0) break; unsigned x = ntohs(a.in6_16[i]), y = ntohs(b.in6_16[i]), mm = k >= 16 ? 0xffff : (0xffff << (16 - k)) & 0xffff; bad |= (x ^ y) & mm; }
  vp_assert(r == (bad == 0), "an address is inside a prefix iff its leading bits agree");
#else
  char t[32]; int p = 0, w[4]; unsigned v[4]; for (int i = 0; i < 4; i++) { w[i] = i == 1 ? 1 + vp_pick("width", 3) : 1; digits(t + p, w[i], "octet"); v[i] = 0; for (int k = 0; k < w[i]; k++) v[i] = v[i] * 10 + (t[p + k] - '0'); p += w[i]; if (i < 3) t[p++] = '.'; }
  int nb = vp_pick("bitdigits", 3); unsigned want = 32; if (nb) { t[p++] = '/'; digits(t + p, nb, "bits"); want = 0; for (int k = 0; k < nb; k++) want = want * 10 + (t[p + k] - '0'); p += nb; } t[p] = 0;
  int r = ipmask_parse(t, &a, &bits); unsigned ok = (v[1] <= 255) & (want <= 32);
  if (r) { vp_assert(ok, "out-of-range octets and lengths are refused"); vp_assert(r == p, "whole text used"); vp_assert(bits == want + 96, "IPv4 prefix length is relative to the mapped prefix");
    unsigned char *o = (unsigned char *)&a; unsigned good = 1; for (int i = 0; i < 10; i++) good &= o[i] == 0; good &= (unsigned)(o[10] == 255) & (unsigned)(o[11] == 255); for (int i = 0; i < 4; i++) good &= o[12 + i] == v[i]; vp_assert(good, "dotted text denotes those octets"); vp_reach("good"); }
  else { vp_assert(!ok, "well-formed texts are accepted"); vp_reach("bad"); }
#endif
}
