/* system calls whose effect is irrelevant to the properties: constant results */
#define DEAD(ret, n, par, v) ret SYS(n) par { return v; }
int SYS(fcntl)(int fd, int c, ...) { return 0; }
int SYS(ioctl)(int fd, unsigned long c, ...) { return 0; }
DEAD(int, access, (const char *p, int m), 0) DEAD(int, chdir, (const char *p), 0) DEAD(unsigned, alarm, (unsigned s), 0) DEAD(mode_t, umask, (mode_t m), 0)
DEAD(uid_t, getuid, (void), 1000) DEAD(uid_t, geteuid, (void), 1000) DEAD(gid_t, getgid, (void), 1000) DEAD(gid_t, getegid, (void), 1000) DEAD(pid_t, getpid, (void), 4242) DEAD(int, setuid, (uid_t u), 0)
int SYS(getrlimit)(int r, struct rlimit *l) { l->rlim_cur = l->rlim_max = 4096; return 0; }
DEAD(int, setrlimit, (int r, const struct rlimit *l), 0)
int SYS(getrusage)(int w, struct rusage *u) { memset(u, 0, sizeof *u); return 0; }
pid_t SYS(fork)(void) { errno = EAGAIN; return -1; }
DEAD(int, execv, (const char *p, char *const *a), -1) DEAD(int, execvp, (const char *p, char *const *a), -1) DEAD(int, kill, (pid_t p, int s), 0) DEAD(pid_t, setsid, (void), 0) DEAD(unsigned, sleep, (unsigned s), 0) DEAD(pid_t, waitpid, (pid_t p, int *s, int o), -1)
DEAD(int, socketpair, (int a, int b, int c, int *v), -1) DEAD(int, isatty, (int f), 0) DEAD(char *, ttyname, (int f), 0)
DEAD(int, sigaction, (int s, const void *a, void *o), 0) DEAD(int, sigemptyset, (sigset_t *s), 0) DEAD(int, sigaddset, (sigset_t *s, int n), 0)
void SYS(openlog)(const char *i, int o, int f) {} void SYS(closelog)(void) {} void SYS(syslog)(int p, const char *f, ...) {}
DEAD(int, regcomp, (void *r, const char *p, int f), 1) DEAD(int, regexec, (const void *r, const char *s, size_t n, void *m, int f), 1) void SYS(regfree)(void *r) {}
