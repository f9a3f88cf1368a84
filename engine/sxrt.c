/* Native replay runtime: feeds the solver's values back to the harness running against the real code. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <pthread.h>
#include <signal.h>
#include "sx.h"
#ifdef malloc
#undef malloc
#endif
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void __real__Exit(int); void *__real_memalign(size_t, size_t);
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
struct in { char name[96]; uint64_t v; int used; };
static struct in ins[20000]; static int nin, loaded; static struct { char k[64]; int64_t v; } prm[64]; static int nprm;
static void load(void) { FILE *f; char kind[16], nm[96]; uint64_t v; const char *p; if (loaded) return; loaded = 1; p = getenv("SX_REPLAY"); if (!p || !(f = fopen(p, "r"))) return;
    char line[256]; while (fgets(line, sizeof line, f)) if (sscanf(line, "%15s %95s %lu", kind, nm, &v) == 3) { if (kind[0] == 'i' && nin < 20000) { strcpy(ins[nin].name, nm); ins[nin++].v = v; } else if (kind[0] == 'p' && nprm < 64) { strcpy(prm[nprm].k, nm); prm[nprm++].v = (int64_t)v; } } fclose(f); }
static struct { char n[96]; int c; } occ[4000]; static int nocc;
static void uniq(char *b, size_t z, const char *n) { int i; for (i = 0; i < nocc; i++) if (!strcmp(occ[i].n, n)) break; if (i == nocc) { strncpy(occ[nocc].n, n, 95); occ[nocc++].c = 0; } if (++occ[i].c > 1) snprintf(b, z, "%s~%d", n, occ[i].c); else snprintf(b, z, "%s", n); }
static uint64_t raw(const char *n) { int i; for (i = 0; i < nin; i++) if (!ins[i].used && !strcmp(ins[i].name, n)) { ins[i].used = 1; return ins[i].v; } return 0; }
static uint64_t val(const char *n) { char b[128]; uint64_t r; pthread_mutex_lock(&mx); load(); uniq(b, sizeof b, n); r = raw(b); pthread_mutex_unlock(&mx); return r; }
uint64_t sx_u64(const char *n) { return val(n); } uint32_t sx_u32(const char *n) { return (uint32_t)val(n); } uint16_t sx_u16(const char *n) { return (uint16_t)val(n); } uint8_t sx_u8(const char *n) { return (uint8_t)val(n); }
int64_t sx_s64(const char *n) { return (int64_t)val(n); } int32_t sx_s32(const char *n) { return (int32_t)val(n); } double sx_double(const char *n) { uint64_t v = val(n); double d; memcpy(&d, &v, 8); return d; }
uint64_t sx_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = val(n); if (v < lo || v > hi) v = lo; return v; }
uint32_t sx_choose(const char *n, uint32_t k) { uint64_t v = val(n); return v < k ? (uint32_t)v : 0; }
void sx_bytes(void *p, size_t n, const char *nm) { char b[128], c[160]; size_t i; pthread_mutex_lock(&mx); load(); uniq(b, sizeof b, nm); for (i = 0; i < n; i++) { snprintf(c, sizeof c, "%s[%zu]", b, i); ((unsigned char *)p)[i] = (unsigned char)raw(c); } pthread_mutex_unlock(&mx); }
uint64_t sx_conc(uint64_t v) { return v; } uint64_t sx_ite(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; } void sx_cover_if(int c, const char *n) { if (c) sx_cover(n); }
static void out(const char *k, const char *m) { dprintf(2, "%s %s\n", k, m); }
void sx_assume(int c) { if (!c) { out("SX-ASSUME-FAIL", ""); __real__Exit(97); } }
void sx_assert(int c, const char *m) { if (!c) { out("SX-ASSERT-FAIL", m); __real__Exit(99); } }
void sx_cover(const char *n) { if (getenv("SX_VERBOSE")) out("SX-COVER", n); }
static uint64_t allocs, failat, live; static int failed;
struct blk { void *p; size_t n; }; static struct blk *tab; static size_t cap, cnt;
static void add(void *p, size_t n) { size_t i; if (!tab || cnt * 2 >= cap) { size_t oc = cap; struct blk *o = tab; cap = cap ? cap * 2 : 4096; tab = __real_calloc(cap, sizeof *tab); cnt = 0; for (i = 0; i < oc; i++) if (o[i].p && o[i].p != (void *)1) { size_t h = ((uintptr_t)o[i].p >> 4) % cap; while (tab[h].p) h = (h + 1) % cap; tab[h] = o[i]; cnt++; } __real_free(o); } { size_t h = ((uintptr_t)p >> 4) % cap; while (tab[h].p && tab[h].p != (void *)1) h = (h + 1) % cap; tab[h].p = p; tab[h].n = n; cnt++; live++; } }
static struct blk *look(const void *p) { size_t h, k; if (!tab) return 0; h = ((uintptr_t)p >> 4) % cap; for (k = 0; k < cap && tab[h].p; k++, h = (h + 1) % cap) if (tab[h].p == p) return &tab[h]; return 0; }
static struct blk *look_in(const void *p) { size_t i; for (i = 0; i < cap; i++) if (tab[i].p && tab[i].p != (void *)1 && (char *)p >= (char *)tab[i].p && (char *)p < (char *)tab[i].p + (tab[i].n ? tab[i].n : 1)) return &tab[i]; return 0; }
static pthread_t failer;
static int fails(void) { if (failat && !pthread_equal(failer, pthread_self())) return 0; allocs++; if (failat && allocs == failat) { failed = 1; return 1; } return 0; }
static int big(size_t n) { if (n > (1ull << 31)) { failed = 1; return 1; } return 0; }
void *__wrap_malloc(size_t n) { void *p = 0; pthread_mutex_lock(&mx); if (!big(n) && !fails()) { p = __real_malloc(n); if (p) { memset(p, 0xA5, n); add(p, n); } } pthread_mutex_unlock(&mx); return p; }
void *__wrap_memalign(size_t a, size_t n) { void *p = 0; pthread_mutex_lock(&mx); if (!big(n) && !fails()) { p = __real_memalign(a, n); if (p) add(p, n); } pthread_mutex_unlock(&mx); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = 0; size_t n; if (__builtin_mul_overflow(a, b, &n)) { failed = 1; return 0; } pthread_mutex_lock(&mx); if (!big(n) && !fails()) { p = __real_calloc(a, b); if (p) add(p, n); } pthread_mutex_unlock(&mx); return p; }
static void bad(const char *m) { out("SX-HEAP", m); __real__Exit(98); }
void __wrap_free(void *p) { struct blk *b; if (!p) return; pthread_mutex_lock(&mx); b = look(p); if (!b) bad("free of a pointer that is not a live block"); memset(p, 0xDB, b->n); b->p = (void *)1; live--; __real_free(p); pthread_mutex_unlock(&mx); }
void *__wrap_realloc(void *p, size_t n) { void *q = 0; struct blk *b; size_t o; if (!p) return __wrap_malloc(n); pthread_mutex_lock(&mx); b = look(p); if (!b) bad("realloc of a pointer that is not a live block"); o = b->n; if (n == 0) { b->p = (void *)1; live--; __real_free(p); } else if (!big(n) && !fails()) { q = __real_malloc(n); memset(q, 0xA5, n); memcpy(q, p, o < n ? o : n); memset(p, 0xDB, o); b->p = (void *)1; live--; __real_free(p); add(q, n); } pthread_mutex_unlock(&mx); return q; }
void sx_fail_alloc(uint64_t k) { failer = pthread_self(); failat = k ? allocs + k : 0; failed = 0; } int sx_failed(void) { return failed; } uint64_t sx_heap_live(void) { return live; } uint64_t sx_alloc_count(void) { return allocs; }
static uint64_t failthr;
void sx_fail_thread(uint64_t k) { failthr = k; }
int __real_thrd_create(void *, void *, void *); int __real_pthread_create(void *, void *, void *, void *);
int __wrap_thrd_create(void *t, void *f, void *a) { if (failthr && --failthr == 0) { failed = 1; return 2; } return __real_thrd_create(t, f, a); }
int __wrap_pthread_create(void *t, void *x, void *f, void *a) { if (failthr && --failthr == 0) { failed = 1; return 11; } return __real_pthread_create(t, x, f, a); }
static int mapped(const void *p) { unsigned char c; int fd[2]; static int f = -1; (void)c; (void)fd; if (f < 0) { if (pipe(fd)) return 1; f = fd[1]; } if ((uintptr_t)p < 4096) return 0; return write(f, p, 1) == 1; }
int sx_is_live(const void *p) { return look_in(p) != 0 || 0; }
uint64_t sx_block_size(const void *p) { struct blk *b = look_in(p); return b ? (char *)b->p + b->n - (char *)p : 0; }
int sx_readable(const void *p, uint64_t n) { struct blk *b = look_in(p); if (b) return (char *)p + n <= (char *)b->p + b->n; return mapped(p); }
int sx_is_init(const void *p, uint64_t n) { (void)p; (void)n; return 1; }
static void (*hook)(int, int); static int expc, expany, ran;
static void fin(int code, int kind) { if (ran) return; ran = 1; if (hook) hook(code, kind); if (!expany && code != expc) { char b[64]; snprintf(b, 64, "code %d kind %d", code, kind); out("SX-UNEXPECTED-EXIT", b); __real__Exit(96); } out("SX-DONE", ""); __real__Exit(0); }
static void onx(int code, void *a) { (void)a; fin(code & 255, 0); }
static void __attribute__((constructor)) ini(void) { on_exit(onx, 0); }
void __wrap__Exit(int c) { fin(c & 255, 1); __real__Exit(c); }
void sx_on_exit(void (*h)(int, int)) { hook = h; } void sx_expect_exit(int c) { expc = c; expany = 0; } void sx_expect_any_exit(void) { expany = 1; }
int64_t sx_param(const char *k, int64_t d) { int i; load(); for (i = 0; i < nprm; i++) if (!strcmp(prm[i].k, k)) return prm[i].v; return d; }
/* the number of processors, as in the model */
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) { (void)pid; memset(set, 0, n); return 0; }
int __sched_cpucount(size_t n, const cpu_set_t *set) { (void)n; (void)set; return (int)sx_param("cpus", 4); }
void sx_end(void) { out("SX-DONE", ""); __real__Exit(0); } void sx_nopreempt(int o) { (void)o; } void sx_undef(void *p, size_t n) { memset(p, 0xA5, n); } void sx_note(const char *n, uint64_t v) { (void)n; (void)v; }
void __attribute__((weak)) rpmalloc_thread_finalize(int r) { (void)r; }
int __attribute__((weak)) rpmalloc_init(void) { return 0; }

void sx_close(double r, uint64_t v, int k10, int neg, double rel, const char *msg) { __float128 s = 1, t, d; int i; for (i = 0; i < k10; i++) s *= 10; t = v / s; d = r - (neg ? -t : t); sx_assert((d < 0 ? -d : d) <= rel * t, msg); }
