/* glob reference for longer strings: mask concrete or symbolic, see ref.inc */
#include "ref.inc"
static unsigned r_globn(const unsigned char *m, int M, const unsigned char *n, int N) {
  static unsigned char nx[2][80], *a, *b, *t; unsigned char es[80]; int L = 0; unsigned char tk[80]; (void)es;
  /* tokenise: masks here are concrete and have no escapes */
  for (int i = 0; i < M; i++) tk[L++] = m[i];
  a = nx[0]; b = nx[1]; for (int j = 0; j <= N; j++) a[j] = j == 0; /* a[j]: tokens so far can produce n[0..j) */
  for (int i = 0; i < L; i++) {
    for (int j = 0; j <= N; j++) { if (tk[i] == '*') b[j] = (a[j] | (j ? b[j - 1] : 0)) & 1; else if (!j) b[j] = 0; else b[j] = a[j - 1] & (tk[i] == '?' ? 1u : r_eq(tk[i], n[j - 1])) & 1; }
    t = a; a = b; b = t; }
  return a[N]; }
