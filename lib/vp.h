/* Harness interface: the same harness source is executed symbolically by the engine
 * (inputs become solver variables) and natively (inputs replayed from a recorded
 * counterexample or witness). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
unsigned char vp_byte(const char *name);            /* any value 0..255 */
int vp_bool(const char *name);                      /* 0 or 1 */
unsigned int vp_int(const char *name);              /* any 32-bit value */
unsigned long vp_long(const char *name);            /* any 64-bit value */
int vp_range(const char *name, int lo, int hi);     /* lo..hi inclusive */
void vp_make(void *p, size_t n, const char *name);  /* n arbitrary bytes */
long vp_concrete(long v);                           /* case-split on the value */
void vp_assume(int cond);
void vp_assert(int cond, const char *msg);
void vp_reach(const char *tag);                     /* vacuity guard / trace event */
void vp_observe(const char *tag, long v);           /* trace event with value */
void vp_end(void);                                  /* end this path (cut) */
int vp_is_symbolic(long v);
int vp_native(void);                                /* 0 in the engine, 1 natively */
void vp_print(const char *s, long v);
void vp_prints(const char *s, const char *v);
static inline int vp_pick(const char *name, int n) { return (int)vp_concrete(vp_range(name, 0, n - 1)); }
void vp_main(void);
#endif
