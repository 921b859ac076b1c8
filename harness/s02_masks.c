/* @property S02
 * @quick time=100 P=1 ML=3 NL=4 label=superset j=6
 * @quick time=100 P=2 ML=4 NL=4 label=collapse j=4
 * @quick time=100 P=3 ML=4 NL=4 label=compiled j=6
 * @thorough time=700 P=1 ML=4 NL=4 label=superset
 * @thorough time=400 P=2 ML=5 NL=5 label=collapse
 * @thorough time=500 P=3 ML=5 NL=5 label=compiled
 * @reach superset:covered superset:notcovered collapse:shrunk compiled:yes compiled:no
 * @bounds pairs of masks of up to 3 (thorough 4) arbitrary bytes with names of up to 4 bytes; collapse and compiled matching for masks and names of up to 4 (thorough 5) bytes
 * @outside longer masks; an empty covering mask; masks in which a backslash precedes a character other than * or ? (the functions disagree on the meaning of such masks by design)
 */
#include "config.h"
#include <string.h>
#include <stdlib.h>
#include "match.h"
#include "ref.inc"
/* well-formed: every backslash escapes '*' or '?' */
static void wellformed(const unsigned char *m, int n) { unsigned esc = 0; for (int i = 0; i < n; i++) { unsigned bs = (m[i] == '\\') & (esc ^ 1u), w = (m[i] == '*') | (m[i] == '?'); vp_assume((esc ^ 1u) | w); esc = bs; } vp_assume(!esc); }
static unsigned char *mk(const char *name, int mx, int *len) { *len = vp_pick(name, mx + 1); unsigned char *p = malloc(*len + 1); r_str(p, *len, name); return p; }
void vp_main(void) {
  int a, b, n; unsigned char *A = mk("mask", ML, &a); wellformed(A, a);
#if P == 1
  vp_assume(a > 0);
  unsigned char *B = mk("second", ML, &b); wellformed(B, b);
  int r = mmatch((char *)A, (char *)B) == 0;
  if (!r) { vp_reach("notcovered"); return; }
  vp_reach("covered");
  n = vp_pick("namelen", NL + 1); unsigned char *N = malloc(n + 1); r_str(N, n, "name");
  unsigned ga = r_glob(A, a, N, n), gb = r_glob(B, b, N, n);
  vp_assert((gb ^ 1u) | ga, "a mask reported to cover another matches everything the other one matches");
#elif P == 2
  unsigned char *C = malloc(a + 1); memcpy(C, A, a + 1); char *q = collapse((char *)C); int c = strlen(q);
  vp_assert(c <= a, "collapsing never lengthens a mask"); if (c < a) vp_reach("shrunk");
  n = vp_pick("namelen", NL + 1); unsigned char *N = malloc(n + 1); r_str(N, n, "name");
  vp_assert(r_glob(A, a, N, n) == r_glob((unsigned char *)q, c, N, n), "collapsing keeps the set of matching names");
  for (int i = 0; i + 1 < c; i++) if (q[i] == '*' && (i == 0 || q[i - 1] != '\\')) vp_assert(q[i + 1] != '*', "a collapsed mask has no adjacent stars");
#else
  char *cm = malloc(a + 1); int minlen, cs; unsigned char *N; n = vp_pick("namelen", NL + 1); N = malloc(n + 1); r_str(N, n, "name");
  int l = matchcomp(cm, &minlen, &cs, (char *)A); vp_assert(l <= a, "compiled mask fits");
  char *ns = malloc(n + 2); ns[0] = 'q'; memcpy(ns + 1, N, n + 1);   /* matchexec forms string - 1 */
  int r = matchexec(ns + 1, cm, minlen) == 0;
  vp_assert((unsigned)r == r_glob(A, a, N, n), "a compiled mask matches exactly the names the plain mask matches");
  if (r) vp_reach("yes"); else vp_reach("no");
#endif
}
