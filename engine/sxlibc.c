/* Byte-at-a-time C library models, compiled to IR and executed symbolically. */
#include <stddef.h>
#include <limits.h>
#include <errno.h>
typedef unsigned char uc;
extern void *malloc(size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(uc)*a - (int)(uc)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(uc)*a - (int)(uc)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lc((uc)*a) == lc((uc)*b)) { a++; b++; } return lc((uc)*a) - lc((uc)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && lc((uc)*a) == lc((uc)*b)) { a++; b++; n--; } return n ? lc((uc)*a) - lc((uc)*b) : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
extern int sx_is_sym(unsigned long); extern unsigned long sx_ite(unsigned long, unsigned long, unsigned long);
/* one fork per position, not one per character */
static unsigned long eqn(const char *h, const char *n, size_t m) { unsigned long r = 1; size_t j; for (j = 0; j < m; j++) { unsigned long t = h[j] == n[j]; if (!sx_is_sym(t)) { if (!t) return 0; } else r &= t; } return r; }
char *strstr(const char *h, const char *n) { size_t m = strlen(n), z = 0, i; if (!m) return (char *)h; for (i = 0;; i++) { while (z < i + m) { if (!h[z]) return 0; z++; } if (eqn(h + i, n, m)) return (char *)h + i; } }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sp) { char *e; if (!s) s = *sp; if (!s) return 0; s += strspn(s, d); if (!*s) { *sp = 0; return 0; } e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
static char *tok_; char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_); }
char *strsep(char **sp, const char *d) { char *s = *sp, *e; if (!s) return 0; e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
void *rawmemchr(const void *s, int c) { const uc *p = s; while (*p != (uc)c) p++; return (void *)p; }
void *memccpy(void *d, const void *s, int c, size_t n) { uc *p = d; const uc *q = s; for (; n; n--) if ((*p++ = *q++) == (uc)c) return p; return 0; }
char *strcasestr(const char *h, const char *n) { size_t i; if (!*n) return (char *)h; for (; *h; h++) { for (i = 0; n[i] && lc((uc)h[i]) == lc((uc)n[i]); i++) ; if (!n[i]) return (char *)h; } return 0; }
void *memchr(const void *s, int c, size_t n) { const uc *p = s; for (; n; n--, p++) if (*p == (uc)c) return (void *)p; return 0; }
void *memrchr(const void *s, int c, size_t n) { const uc *p = s; while (n--) if (p[n] == (uc)c) return (void *)(p + n); return 0; }
int memcmp(const void *a, const void *b, size_t n) { const uc *p = a, *q = b; size_t k; unsigned long r = 0; for (k = 0; k < n; k++) { unsigned long t = p[k] != q[k]; if (!sx_is_sym(t) && t) { r = (unsigned long)(long)((int)p[k] - (int)q[k]); break; } } while (k-- > 0) { unsigned long t = p[k] != q[k]; if (sx_is_sym(t)) r = sx_ite(t, (unsigned long)(long)((int)p[k] - (int)q[k]), r); } return (int)(long)r; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const char *p = h; if (!nn) return (void *)h; for (; hn >= nn; hn--, p++) if (eqn(p, n, nn)) return (void *)p; return 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1, i; char *r = malloc(n); if (r) for (i = 0; i < n; i++) r[i] = s[i]; return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m), i; char *r = malloc(n + 1); if (r) { for (i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; } return r; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
unsigned long strtoul(const char *s, char **e, int base) { const char *p = s; unsigned long v = 0; int neg = 0, any = 0; while (isspace((uc)*p)) p++; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++; if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10; for (;; p++) { int d; if (isdigit((uc)*p)) d = *p - '0'; else if (isalpha((uc)*p)) d = lc((uc)*p) - 'a' + 10; else break; if (d >= base) break; v = v * base + d; any = 1; } if (e) *e = (char *)(any ? p : s); return neg ? -v : v; }
long strtol(const char *s, char **e, int base) { return (long)strtoul(s, e, base); }
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long long strtoll(const char *s, char **e, int base) { return (long long)strtoul(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
int isblank(int c) { return c == ' ' || c == 9; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
extern void *realloc(void *, size_t);
void *reallocarray(void *p, size_t n, size_t m) { size_t t; if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return 0; } return realloc(p, t); }
void bcopy(const void *s, void *d, size_t n) { __builtin_memmove(d, s, n); }
/* <ctype.h> tables as glibc macros use them; "C" locale */
static unsigned short ctb_[384]; static const unsigned short *ctp_; static int ctl_[384], ctu_[384]; static const int *ctlp_, *ctup_;
static void ct_(void) { int c; if (ctp_) return; for (c = 0; c < 256; c++) { ctb_[c + 128] = (isupper(c) ? 256 : 0) | (islower(c) ? 512 : 0) | (isalpha(c) ? 1024 : 0) | (isdigit(c) ? 2048 : 0) | (isxdigit(c) ? 4096 : 0) | (isspace(c) ? 8192 : 0) | (isprint(c) ? 16384 : 0) | (isgraph(c) ? 32768 : 0) | (isblank(c) ? 1 : 0) | (iscntrl(c) ? 2 : 0) | (ispunct(c) ? 4 : 0) | (isalnum(c) ? 8 : 0); ctl_[c + 128] = tolower(c); ctu_[c + 128] = toupper(c); } ctp_ = ctb_ + 128; ctlp_ = ctl_ + 128; ctup_ = ctu_ + 128; }
const unsigned short **__ctype_b_loc(void) { ct_(); return &ctp_; }
const int **__ctype_tolower_loc(void) { ct_(); return &ctlp_; }
const int **__ctype_toupper_loc(void) { ct_(); return &ctup_; }
