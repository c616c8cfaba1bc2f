// Native twin of the devsym harness API: inputs come from a model file, the observations go to a log.
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
static char *names[4096]; static unsigned char *vals[4096]; static size_t lens[4096]; static int nv; static char used[4096];
static char *pn[256]; static int pv[256]; static int np; static FILE *lg; static char *nuName[4096]; static int nuCnt[4096], nnu;
static int hx(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void init(void) { static int done; if (done) return; done = 1; lg = stdout; const char *f = getenv("VP_MODEL"); if (!f) return; FILE *fp = fopen(f, "r"); if (!fp) { perror(f); _exit(90); } char *line = NULL; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, fp)) > 0) { if (line[n-1] == '\n') line[--n] = 0; char *a = strtok(line, " "), *b = strtok(NULL, " "), *c = strtok(NULL, " "); if (!a || !b) continue; if (!strcmp(a, "P")) { pn[np] = strdup(b); pv[np++] = atoi(c); } else if (!strcmp(a, "I")) { names[nv] = strdup(b); size_t l = c ? strlen(c) / 2 : 0; lens[nv] = l; vals[nv] = malloc(l + 1); for (size_t i = 0; i < l; i++) vals[nv][i] = hx(c[2*i]) * 16 + hx(c[2*i+1]); nv++; } }
  free(line); fclose(fp); }
void vp_symbolic(void *p, size_t n, const char *name) { init(); char full[512]; int c = -1; for (int i = 0; i < nnu; i++) if (!strcmp(nuName[i], name)) { c = ++nuCnt[i]; break; } if (c < 0) { nuName[nnu] = strdup(name); nuCnt[nnu++] = 0; c = 0; } if (c) snprintf(full, 512, "%s.%d", name, c); else snprintf(full, 512, "%s", name);
  memset(p, 0, n); for (int i = 0; i < nv; i++) if (!strcmp(names[i], full)) { memcpy(p, vals[i], lens[i] < n ? lens[i] : n); return; } }
static void flushx(int c) { fflush(stdout); _exit(c); }
void vp_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); flushx(98); } }
void vp_assert(int c, const char *m) { if (!c) { printf("ASSERT-FAILED %s\n", m); flushx(99); } }
void vp_observe(const char *n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
void vp_observe_buf(const char *n, const void *p, size_t l) { printf("OBS %s ", n); for (size_t i = 0; i < l; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
int vp_param(const char *n, int d) { init(); for (int i = 0; i < np; i++) if (!strcmp(pn[i], n)) return pv[i]; return d; }
void vp_reach(const char *l) { printf("REACH %s\n", l); }
void vp_cut(const char *m) { printf("CUT %s\n", m); flushx(97); }
void vp_check_init(const void *p, size_t n, const char *m) { printf("INIT %s ", m); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
uint64_t vp_concretize(uint64_t v) { return v; }
static void onAlarm(int s) { (void)s; static const char m[] = "HANG\n"; fflush(stdout); (void)!write(1, m, 5); _exit(96); }
void vp_step_limit(uint64_t n) { if (n) { signal(SIGALRM, onAlarm); alarm(10); } else alarm(0); }
int vp_same(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
void vp_fresh(void *p, size_t n) { static int f = -1; if (f < 0) { const char *e = getenv("VP_FILL"); f = e ? atoi(e) : 0xA5; } memset(p, f, n); }
int vp_ptr_valid(const void *p, size_t n) { (void)n; return p != 0; }
#ifndef VP_NO_MAIN
void VP_ENTRY(void);
int main(void) { setvbuf(stdout, NULL, _IOFBF, 1 << 16); init(); VP_ENTRY(); printf("DONE\n"); fflush(stdout); _exit(0); }
#endif
