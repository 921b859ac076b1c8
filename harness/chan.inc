#include "world.h"
#include "ircd_alloc.h"
/* symbolic flag without a case split: sets client flag FLG iff sym (0/1) */
#define SYMFLAG(c, flg, sym) (cli_flags(c).bits[(flg) / (8 * sizeof(unsigned long))] = (cli_flags(c).bits[(flg) / (8 * sizeof(unsigned long))] & ~(1ul << ((flg) % (8 * sizeof(unsigned long))))) | ((unsigned long)(sym) << ((flg) % (8 * sizeof(unsigned long)))))
#define SYMBIT(word, bit, sym) ((word) = ((word) & ~(unsigned)(bit)) | ((unsigned)(sym) ? 0u : 0u) | ((unsigned)(sym) * 0u))
/* word with mask bits replaced by value/zero according to sym (0/1), branch free */
static inline unsigned symsel(unsigned word, unsigned mask, unsigned sym) { return (word & ~mask) | (mask & (0u - sym)); }
static inline int b2i(long x) { return x != 0; }
static struct Channel *chan_of(const char *n) { return FindChannel(n); }
static int boss, bob, L1, L2; static struct Channel *CH;
/* #x: boss (op, local), bob (local), carol (remote, behind leaf1); leaf2 has user dave who is not a member */
static void std_network(void) {
  L1 = w_server("leaf1.test.net", "AC", 101); L2 = w_server("leaf2.test.net", "AD", 102);
  w_send(L1, "AC N carol 1 1600000000 carol host.carol +i AKAABn ACAAA :carol real");
  w_send(L2, "AD N dave 1 1600000000 dave host.dave +i AKAABo ADAAA :dave real");
  boss = w_user("boss", "10.0.0.9"); bob = w_user("bob", "10.0.0.6");
}
static void std_channel(const char *name) {
  w_send(boss, w_fmt("JOIN %s", name)); w_send(bob, w_fmt("JOIN %s", name)); w_send(L1, w_fmt("ACAAA J %s %l", name, (long)w_now)); w_pump(); w_clear_all(); CH = FindChannel(name);
  vp_assert(CH != 0, "harness: channel exists"); }
