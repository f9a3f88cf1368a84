/* Harness API: engine builtins under symx, replay runtime (sxrt.c) natively. */
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
uint64_t sx_u64(const char *name);
uint32_t sx_u32(const char *name);
uint16_t sx_u16(const char *name);
uint8_t sx_u8(const char *name);
int64_t sx_s64(const char *name);
int32_t sx_s32(const char *name);
double sx_double(const char *name);
uint64_t sx_range(const char *name, uint64_t lo, uint64_t hi);
uint32_t sx_choose(const char *name, uint32_t n);           /* forks: concrete in each path */
void sx_bytes(void *p, size_t n, const char *name);
uint64_t sx_conc(uint64_t v);
uint64_t sx_ite(uint64_t c, uint64_t a, uint64_t b);         /* c ? a : b without forking */
void sx_cover_if(int c, const char *name);
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_cover(const char *name);
void sx_close(double r, uint64_t v, int k10, int neg, double rel, const char *msg); /* |r - (-1)^neg v/10^k10| <= rel v/10^k10 */
void sx_fail_alloc(uint64_t k);                              /* the k-th allocation of this thread from now fails (0: none) */
void sx_fail_thread(uint64_t k);                             /* the k-th creation of a thread from now fails (0: none) */
int sx_failed(void);
uint64_t sx_heap_live(void);
uint64_t sx_alloc_count(void);
int sx_is_live(const void *p);
uint64_t sx_block_size(const void *p);
int sx_readable(const void *p, uint64_t n);
int sx_is_init(const void *p, uint64_t n);                   /* engine: all bytes determinate; native: 1 */
void sx_on_exit(void (*hook)(int code, int kind));           /* kind 0 exit/return, 1 _Exit, 2 fatal signal */
void sx_expect_exit(int code);
void sx_expect_any_exit(void);
int64_t sx_param(const char *name, int64_t dflt);
void sx_end(void);
void sx_nopreempt(int on);
void sx_undef(void *p, size_t n);
void sx_note(const char *n, uint64_t v);
/* a string of exactly n symbolic non-zero bytes plus terminator, in its own heap block */
static inline __attribute__((unused)) char *sx_str(const char *name, size_t n);
extern void *malloc(size_t);
static inline char *sx_str(const char *name, size_t n) {
    char *p = (char *)malloc(n + 1); size_t i;
    sx_bytes(p, n, name);
    for (i = 0; i < n; i++) sx_assume(p[i] != 0);
    p[n] = 0;
    return p;
}
#define SX_UNUSED __attribute__((unused))
#endif
