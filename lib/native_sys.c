#include <errno.h>
#define sigaction sigaction_hidden
#include <signal.h>
#undef sigaction
#include <stddef.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/types.h>
#define SYS(n) n_##n
#include "sysstubs.inc"
