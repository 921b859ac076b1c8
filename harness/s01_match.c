/* @property S01
 * @quick time=100 ML=3 NL=4 label=m3 j=2
 * @quick time=100 ML=4 NL=4 label=m4 j=6
 * @thorough time=600 ML=4 NL=5 label=m4
 * @thorough time=800 ML=5 NL=4 label=m5
 * @reach yes no star
 * @bounds every mask of up to 4 (thorough 5) arbitrary non-zero bytes against every name of up to 4 (thorough 5) arbitrary non-zero bytes
 * @outside longer masks and names
 */
#include "config.h"
#include <string.h>
#include <stdlib.h>
#include "match.h"
#include "ref.inc"
void vp_main(void) {
  int m = vp_pick("masklen", ML + 1), n = vp_pick("namelen", NL + 1); char *mask = malloc(m + 1), *name = malloc(n + 1);
  r_str((unsigned char *)mask, m, "mask"); r_str((unsigned char *)name, n, "name");
  int r = match(mask, name) == 0;
  unsigned want = r_glob((unsigned char *)mask, m, (unsigned char *)name, n);
  vp_assert((unsigned)r == want, "a mask matches exactly the names its wildcards describe");
  if (r) vp_reach("yes"); else vp_reach("no"); if (m == 2 && r && n == 3) vp_reach("star");
}
