/* what a member reconstructs about #x from the MODE lines it is shown */
struct mview { unsigned flags; int limit, key; char bans[8][64]; int nban; char mem[8][16]; int op[8], vo[8], nmem; };
static int mv_flag(char c) { if (c == 'z') c = 'Z'; static const char fl[] = "mspintrDuCNcTZMzRdU"; for (int i = 0; fl[i]; i++) if (fl[i] == c) return i; return -1; }
static unsigned mv_has(struct mview *v, char c) { return v->flags >> mv_flag(c) & 1; }
static int mv_mem(struct mview *v, const char *n) { for (int i = 0; i < v->nmem; i++) if (w_eq(v->mem[i], n)) return i; vp_assert(v->nmem < 8, "harness: view full"); strcpy(v->mem[v->nmem], n); v->op[v->nmem] = v->vo[v->nmem] = 0; return v->nmem++; }
static int mv_ban(struct mview *v, const char *b) { for (int i = 0; i < v->nban; i++) if (v->bans[i][0] && !strcmp(v->bans[i], b)) return i; return -1; }
static char *mv_tok(char *p, char *out, int n) { int i = 0; while (*p == ' ') p++; if (*p == ':') p++; while (*p && *p != ' ' && *p != '\r' && *p != '\n') { if (i < n - 1) out[i++] = *p; p++; } out[i] = 0; return p; }
/* apply one mode change text "+x-y args"; 0 when the text itself is inconsistent with the view */
static const char *mv_apply(struct mview *v, char *p) {
  char letters[64], arg[80]; p = mv_tok(p, letters, 64); int add = 1;
  for (char *l = letters; *l; l++) { if (*l == '+') { add = 1; continue; } if (*l == '-') { add = 0; continue; }
    if (*l == 'o' || *l == 'v') { p = mv_tok(p, arg, 80); char *co = strchr(arg, ':'); if (co) *co = 0; if (!arg[0]) return "missing argument"; int i = mv_mem(v, arg); if (*l == 'o') v->op[i] = add; else v->vo[i] = add; }
    else if (*l == 'l') { if (add) { p = mv_tok(p, arg, 80); if (!arg[0]) return "missing argument"; v->limit = atoi(arg); } else v->limit = 0; }
    else if (*l == 'k') { p = mv_tok(p, arg, 80); if (!arg[0]) return "missing argument"; v->key = add; }
    else if (*l == 'b') { p = mv_tok(p, arg, 80); if (!arg[0]) return "missing argument"; int i = mv_ban(v, arg); if (add) { if (i < 0) { vp_assert(v->nban < 8, "harness: view bans"); strcpy(v->bans[v->nban++], arg); } } else { if (i < 0) return "removes a ban that is not there"; v->bans[i][0] = 0; } }
    else { int i = mv_flag(*l); if (i < 0) return "unknown mode letter"; v->flags = (v->flags & ~(1u << i)) | ((unsigned)add << i); } }
  return 0; }
static void mv_feed(struct mview *v, int fd, const char *chan) { int n = w_lines(fd); char pat[40]; strcpy(pat, w_fmt(" MODE %s ", chan)); for (int i = 0; i < n; i++) { char *l = w_line(fd, i); char *q = strstr(l, pat); if (q) { const char *e = mv_apply(v, q + strlen(pat)); vp_assert(!e, "a mode line shown to members has its arguments and fits what they know"); } } }
