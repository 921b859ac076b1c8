/* native replay runtime: argv[1] = file with one "name width value" line per input */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vp.h"
static struct { char name[80]; int w; unsigned long v; } *in; static int nin, pos;
static unsigned long next(const char *name, int w) {
  if (pos >= nin) { printf("VP-DIVERGE out of inputs at %s\n", name); fflush(stdout); _exit(41); }
  if (strncmp(in[pos].name, name, 79) || in[pos].w != w) { printf("VP-DIVERGE input %d is %s/%d, wanted %s/%d\n", pos, in[pos].name, in[pos].w, name, w); fflush(stdout); _exit(41); }
  return in[pos++].v;
}
unsigned char vp_byte(const char *n) { return next(n, 8); }
int vp_bool(const char *n) { return next(n, 8); }
unsigned int vp_int(const char *n) { return next(n, 32); }
unsigned long vp_long(const char *n) { return next(n, 64); }
int vp_range(const char *n, int lo, int hi) { int v = next(n, lo >= 0 && hi <= 255 ? 8 : 32); if (v < lo || v > hi) { printf("VP-DIVERGE range %s\n", n); _exit(41); } return v; }
void vp_make(void *p, size_t n, const char *nm) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = next(nm, 8); }
long vp_concrete(long v) { return v; }
void vp_assume(int c) { if (!c) { printf("VP-ASSUME-FALSE\n"); fflush(stdout); _exit(42); } }
void vp_assert(int c, const char *msg) { if (!c) { printf("VP-ASSERT-FAIL %s\n", msg); fflush(stdout); _exit(40); } }
void vp_reach(const char *t) { printf("VP-TRACE %s 0\n", t); fflush(stdout); }
void vp_observe(const char *t, long v) { printf("VP-TRACE %s %lu\n", t, (unsigned long)v); fflush(stdout); }
void vp_end(void) { printf("VP-END\n"); fflush(stdout); _exit(0); }
int vp_is_symbolic(long v) { (void)v; return 0; }
int vp_native(void) { return 1; }
void vp_print(const char *s, long v) { printf("# %s %ld\n", s, v); fflush(stdout); }
void vp_prints(const char *s, const char *v) { printf("# %s '%s'\n", s, v); fflush(stdout); }
int main(int c, char **v) {
  FILE *f = c > 1 ? fopen(v[1], "r") : 0; char line[256];
  if (f) { while (fgets(line, sizeof line, f)) { in = realloc(in, (nin + 1) * sizeof *in); if (sscanf(line, "%79s %d %lu", in[nin].name, &in[nin].w, &in[nin].v) == 3) nin++; } fclose(f); }
  alarm(20); vp_main(); printf("VP-END\n"); return 0;
}
