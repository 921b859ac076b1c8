/* reference definitions shared by the harnesses (branch free where the arguments may be symbolic) */
#include "vp.h"
static unsigned r_low(unsigned char c) { unsigned up = (unsigned)((c >= 'A') & (c <= '^')) | (unsigned)((c >= 0xC0) & (c <= 0xDE) & (c != 0xD7)); return c + 32u * up; }
static unsigned r_eq(unsigned char a, unsigned char b) { return r_low(a) == r_low(b); }
#define RM 8
/* glob semantics: does mask[0..M) match name[0..N)?  '*' any run, '?' any one character, '\' escapes the next
 * character (which must then be identical), other characters compare under case folding; a final lone '\' matches nothing */
static unsigned r_glob(const unsigned char *m, int M, const unsigned char *n, int N) {
  unsigned ok[2 * RM + 4][RM + 2]; memset(ok, 0, sizeof ok);
  for (int i = M; i >= 0; i--) for (int j = N; j >= 0; j--) {
    if (i == M) { ok[i][j] = j == N; continue; }
    unsigned star = m[i] == '*', q = m[i] == '?', bs = m[i] == '\\', lit = (star | q | bs) ^ 1u, more = j < N, r;
    r = star & (ok[i + 1][j] | (more ? ok[i][j + 1] : 0));
    if (more) { r |= q & ok[i + 1][j + 1]; r |= lit & r_eq(m[i], n[j]) & ok[i + 1][j + 1]; if (i + 1 < M) r |= bs & (unsigned)(m[i + 1] == n[j]) & ok[i + 2][j + 1]; }
    ok[i][j] = r & 1u;
  }
  return ok[0][0];
}
static int r_str(unsigned char *b, int n, const char *name) { for (int i = 0; i < n; i++) { b[i] = vp_byte(name); vp_assume(b[i] != 0); } b[n] = 0; return n; }
