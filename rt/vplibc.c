// C library models executed symbolically (only what the library under test calls).
#include <stddef.h>
#include <stdint.h>
void *malloc(size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (lc(c) >= 'a' && lc(c) <= 'f'); }
int strcasecmp(const char *a, const char *b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++; return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = malloc(n); if (d) for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
long strtol(const char *s, char **e, int base) { const char *p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '-' || *p == '+') neg = *p++ == '-'; if ((base == 0 || base == 16) && p[0] == '0' && lc(p[1]) == 'x' && isxdigit(p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10; uint64_t v = 0; int any = 0, ov = 0; for (;; p++) { int d = isdigit(*p) ? *p - '0' : isalpha(*p) ? lc(*p) - 'a' + 10 : 99; if (d >= base) break; if (v > (INT64_MAX - (uint64_t)d) / (uint64_t)base) ov = 1; v = v * base + d; any = 1; } if (e) *e = (char*)(any ? p : s); if (ov) return neg ? INT64_MIN : INT64_MAX; return neg ? -(long)v : (long)v; }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
static unsigned seed = 1;
int rand(void) { seed = seed * 1103515245u + 12345u; return (int)(seed & 0x7fffffff); }
void srand(unsigned s) { seed = s; }
long time(long *t) { if (t) *t = 1000000000; return 1000000000; }
static struct { int a[16]; } tmv = {{0, 46, 1, 9, 8, 101, 0, 251, 0}};
void *localtime(const long *t) { (void)t; return &tmv; }
void *gmtime(const long *t) { (void)t; return &tmv; }
char *getenv(const char *n) { (void)n; return 0; }
static int errv; int *__errno_location(void) { return &errv; }

// In the world of the checks no file exists but the root folder.
void *fopen(const char *n, const char *m) { static int f; return m[0] == 'r' && n[0] == '/' && !n[1] ? &f : 0; }
int fclose(void *f) { (void)f; return 0; }

// libpng's signature comparison
int png_sig_cmp(const unsigned char *sig, size_t start, size_t n) { static const unsigned char w[8] = {137, 80, 78, 71, 13, 10, 26, 10}; if (n > 8) n = 8; else if (n < 1) return -1; if (start > 7) return -1; if (start + n > 8) n = 8 - start; for (size_t i = 0; i < n; i++) if (sig[start + i] != w[start + i]) return sig[start + i] < w[start + i] ? -1 : 1; return 0; }
