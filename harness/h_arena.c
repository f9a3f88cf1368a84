/* Arenas: M01-M04 over programs of allocations, clears and frees on up to two arenas (and arena-backed smart pointers). */
#include "raii.h"
#include "sx.h"
#include <string.h>
#define P(n, d) ((long)sx_param(n, d))
#define MAXB 1000
static struct { char *p; size_t size, room; int a; unsigned char c0, c1; } b[MAXB];
static int nb; static arena_t A[2]; static uint64_t base;
static size_t sizes[] = { 1, 2, 7, 600, 1023, 1024, 1025, 2500, 33, 10240, 10241, 18, 65536, 70001, 131074, 65535 };
static size_t used[2];
static void check_all(void) {
    int i; for (i = 0; i < nb; i++) if (b[i].a >= 0) {
        sx_assert(sx_is_live(b[i].p), "a block's memory is live until its arena is cleared or freed");
        sx_assert((unsigned char)b[i].p[0] == b[i].c0 && (unsigned char)b[i].p[b[i].size - 1] == b[i].c1, "contents persist until the arena is cleared or freed");
    }
}
static void got_block(int a, char *p, size_t n, int zero) {
    int i; size_t k;
    sx_assert(p != NULL, "an arena returns memory");
    sx_assert(((uintptr_t)p & 1) == 0, "a block is aligned to two bytes");
    sx_assert(sx_readable(p, n) , "a block has the requested size");
    for (i = 0; i < nb; i++) if (b[i].a >= 0) sx_assert(p + n <= b[i].p || p >= b[i].p + b[i].size, "blocks do not overlap");
    if (zero) for (k = 0; k < n; k += n > 20000 && k >= 16 && k + 1100 < n ? 1021 : 1) if (k < 16 || k + 16 > n || k % 97 == 0 || n > 20000) sx_assert(p[k] == 0, "memory from arena_calloc is zero");
    if (zero) sx_assert(sx_is_init(p, n), "memory from arena_calloc is zero everywhere");
    b[nb].p = p; b[nb].size = n; b[nb].a = a;
    b[nb].c0 = sx_u8("first"); b[nb].c1 = n > 1 ? sx_u8("last") : b[nb].c0;
    memset(p, 0x5a, n);
    p[0] = (char)b[nb].c0; p[n - 1] = (char)b[nb].c1;
    nb++; used[a] += n;
}
static void alloc(int a, size_t n, int z) {
    size_t c0 = arena_capacity(A[a]), t0 = arena_total(A[a]), c1, t1, need = n + (n & 1); uint64_t l0 = sx_heap_live(); char *p;
    p = z == 3 ? arena_calloc(A[a], (long)(n % 3 == 0 ? 3 : 1), (long)(n % 3 == 0 ? n / 3 : n)) : z ? arena_calloc(A[a], (long)(z == 2 && n % 3 == 0 ? n / 3 : n), (long)(z == 2 && n % 3 == 0 ? 3 : 1)) : arena_alloc(A[a], (long)n);
    got_block(a, p, n, z);
    c1 = arena_capacity(A[a]); t1 = arena_total(A[a]);
    if (need <= c0) {
        sx_assert(c1 == c0 - need, "the capacity falls by the rounded request");
        sx_assert(t1 == t0 && sx_heap_live() == l0, "the arena grows only when it has to");
        sx_cover("fits");
    } else {
        if (sx_heap_live() == l0) { sx_assert(t1 == t0, "the total grows only with the arena"); sx_cover("recycled"); }
        else { sx_assert(t1 >= t0 + need, "the total accounts for what the arena took"); sx_cover("grows"); }
    }
    /* what the capacity promises can be written */
    if (c1) sx_assert(sx_readable(p + need, c1), "the capacity is the room that is left");
}
static void drop(int a) { int i; for (i = 0; i < nb; i++) if (b[i].a == a) b[i].a = -1; used[a] = 0; }
int h_ops(void) {
    int n = (int)P("ops", 4), k, two = (int)P("two", 1), nsz = (int)P("nsz", 4), s0 = (int)P("s0", 2); uint64_t live0; long th = P("th", 1);
    raii_init(); live0 = sx_heap_live();
    A[0] = arena_init(th); A[1] = two ? arena_init(th == 1 ? 2 : th) : NULL;
    sx_assert(arena_capacity(A[0]) == 0 && arena_total(A[0]) == 0, "a new arena is empty");
    for (k = 0; k < n; k++) {
        int op = k == 0 ? 0 : (int)sx_choose("op", 4), a = two && k ? (int)sx_choose("arena", 2) : 0;
        if (op == 0) alloc(a, sizes[s0 + sx_choose("size", nsz)], 0);
        else if (op == 1) alloc(a, sizes[s0 + sx_choose("size", nsz)], P("shape", 0) ? 1 + (int)sx_choose("shape", 3) : 1 + k % 3);
        else if (op == 2) { drop(a); arena_clear(A[a]); sx_cover("cleared"); }
        else { drop(a); arena_free(A[a]); A[a] = arena_init(th); sx_cover("freed"); }
        check_all();
    }
    drop(0); arena_free(A[0]);
    check_all();
    if (two) { alloc(1, 5, 0); check_all(); drop(1); arena_free(A[1]); }
    /* what stays is the list of recycled chunks, which is bounded */
    sx_assert(sx_heap_live() - live0 <= (uint64_t)(th + 1), "freed arenas leave at most the recycled chunks");
    sx_cover("done");
    return 0;
}
int h_cycle(void) { /* repeated use does not grow */
    int n = (int)P("n", 6), k, kind = (int)P("kind", 0); uint64_t live0, live1 = 0; long th = P("th", 1);
    raii_init(); live0 = sx_heap_live();
    for (k = 0; k < n; k++) {
        A[0] = arena_init(th);
        alloc(0, 700, 0); alloc(0, 700, 1); alloc(0, 3000, 0);
        if (kind) { drop(0); arena_clear(A[0]); alloc(0, 900, 0); }
        check_all();
        drop(0); arena_free(A[0]);
        sx_assert(sx_heap_live() - live0 <= (uint64_t)(th ? th : 10), "at most the threshold's number of chunks is kept");
    }
    live1 = sx_heap_live();
    for (k = 0; k < n; k++) { A[0] = arena_init(th); alloc(0, 2000, 0); drop(0); arena_free(A[0]); }
    sx_assert(sx_heap_live() <= live1, "kept chunks are used again");
    A[0] = arena_init(th);
    for (k = 0; k < n; k++) { alloc(0, 700, 0); alloc(0, 3000, 1); check_all(); drop(0); arena_clear(A[0]); if (k == n / 2) live1 = sx_heap_live(); }
    sx_assert(sx_heap_live() <= live1, "repeated clearing does not leak");
    arena_free(A[0]);
    sx_cover("done");
    return 0;
}
int h_keep(void) { /* many arenas with many chunks, cleared or freed in any order: few chunks are kept, and they are used again */
    static arena_t B[6]; int n = (int)P("n", 4), m = (int)P("chunks", 4), i, j, r; uint64_t live0, keep; long th = P("th", 1);
    raii_init(); live0 = sx_heap_live(); keep = (uint64_t)(th ? th : 10);
    for (r = 0; r < (int)P("rounds", 2); r++) {
        for (i = 0; i < n; i++) { A[0] = B[i] = arena_init(th); for (j = 0; j < m; j++) { size_t z = P("size", 3000); char *p = arena_alloc(B[i], (long)z); sx_assert(sx_readable(p, z), "a block has the requested size"); sx_assert(sx_readable(p, z + (z & 1) + arena_capacity(B[i])), "the capacity is the room that is left"); memset(p, i + 1, 8); p[z - 1] = 1; } }
        for (i = 0; i < n; i++) { int op = (int)sx_choose("op", 3), w = (i + r) % n; if (op) arena_clear(B[w]); if (op == 2) { char *p = arena_alloc(B[w], 20); memset(p, 3, 20); arena_clear(B[w]); } }
        for (i = 0; i < n; i++) arena_free(B[n - 1 - i]);
        sx_assert(sx_heap_live() - live0 <= keep, "at most the threshold's number of chunks is kept");
    }
    sx_cover("done");
    return 0;
}
int h_overflow(void) { /* requests that cannot be met are refused by a panic */
    int got = 0, which = (int)sx_choose("which", 3); long n = 0, m = 0; size_t th = 1; void *p = NULL; uint64_t l0;
    raii_init();
    A[0] = arena_init(th);
    alloc(0, 10, 0);
    l0 = sx_heap_live();
    if (which == 0) { static long ms[] = { 2, 3, 8, 1000, 1L << 40, 0x7fffffffffffffffL }; long lim; m = ms[sx_choose("size", 6)]; lim = 0x7fffffffffffffffL / m; n = (long)sx_u64("count"); if (sx_choose("swap", 2)) { sx_assume(n > lim); } else { long t = n; sx_assume(t > lim); n = m; m = t; } }
    else if (which == 1) { n = 1; m = (long)sx_u64("size"); sx_assume(m > 0x7fffffffffff0000L && m > 0); }
    else { m = (long)sx_u64("size"); sx_assume(m > 0x7fffffffffff0000L && m > 0); }
    ex_try {
        if (which < 2) p = arena_calloc(A[0], n, m); else p = arena_alloc(A[0], m);
    } ex_catch_any {
        got = 1;
    } ex_end_try;
    sx_assert(got == 1 && p == NULL, "a request that cannot be met is refused by a panic");
    sx_assert(sx_heap_live() == l0, "a refused request takes nothing");
    alloc(0, 20, 0); check_all();
    sx_cover("done");
    return 0;
}
int h_threshold(void) { /* any threshold: the room is there or the request is refused */
    int got = 0; static size_t ths[] = { 0, 1, 10, 333, (1UL << 53), (1UL << 53) - 1, (1UL << 54), (1UL << 54) + 1, 1UL << 63, ~0UL, 0x3fffffffffffffUL }; size_t th = ths[sx_choose("threshold", 11)], n = 1 + 33 * sx_choose("n", 3), c; char *p = NULL; uint64_t l0;
    raii_init();
    A[0] = arena_init(th);
    l0 = sx_heap_live();
    ex_try { p = arena_alloc(A[0], (long)n); } ex_catch_any { got = 1; } ex_end_try;
    sx_assert((p == NULL) == got, "memory or a panic");
    if (p) {
        c = arena_capacity(A[0]);
        sx_assert(c == (th ? th : 10) * 1024, "a grown arena has the threshold's room left");
        sx_assert(sx_heap_live() == l0 + 1 && sx_readable(p, n + (n & 1) + c), "the room is there");
        sx_cover("room");
    } else { sx_assert(sx_heap_live() == l0, "a refused request takes nothing"); sx_cover("refused"); }
    return 0;
}
int h_none(void) { /* not an arena */
    var_t v[2]; char buf[200]; arena_t fake = (arena_t)buf;
    raii_init();
    memset(buf, 0, sizeof buf); fake->type = (raii_type)sx_u32("type"); fake->limit = buf + 100; fake->avail = buf; fake->total = 9999;
    sx_assume(fake->type != RAII_ARENA + RAII_STRUCT);
    sx_assert(arena_capacity(NULL) == 0 && arena_total(NULL) == 0, "nothing has no capacity and no total");
    sx_assert(arena_capacity(fake) == 0 && arena_total(fake) == 0, "what is not an arena has no capacity and no total");
    sx_cover("done");
    (void)v;
    return 0;
}
int h_size(void) { /* any size served from the room that is left, and any size that makes the arena grow */
    size_t n, m, c0, c1, c2; long grow = P("grow", 0); char *p, *q; uint64_t l0; size_t th = (size_t)P("th", 8);
    raii_init();
    A[0] = arena_init(th);
    arena_alloc(A[0], 2);
    c0 = arena_capacity(A[0]); l0 = sx_heap_live();
    sx_assert(c0 == th * 1024, "a grown arena has the threshold's room left");
    if (!grow) n = sx_range("n", 1, 4000); else n = c0 + sx_range("over", 1, (uint64_t)grow);
    m = sx_range("m", 1, 4000);
    if (!grow) sx_assume(n + (n & 1) + m + (m & 1) <= c0);
    p = arena_alloc(A[0], (long)n);
    c1 = arena_capacity(A[0]);
    if (!grow) { sx_assert(c1 == c0 - n - (n & 1), "the capacity falls by the rounded request"); sx_assert(sx_heap_live() == l0, "the arena grows only when it has to"); }
    else { sx_assert(sx_heap_live() == l0 + 1, "the arena grows when it has to"); sx_assert(c1 >= th * 1024, "a grown arena has the threshold's room left"); }
    sx_assert(((uintptr_t)p & 1) == 0, "a block is aligned to two bytes");
    q = arena_alloc(A[0], (long)m);
    c2 = arena_capacity(A[0]);
    sx_assert(c2 == c1 - m - (m & 1), "the capacity falls by the rounded request");
    sx_assert(q == p + n + (n & 1), "blocks do not overlap");
    sx_assert(((uintptr_t)q & 1) == 0, "a block is aligned to two bytes");
    sx_cover("done");
    return 0;
}
/* arena-backed smart pointers */
int h_unique(void) {
    unique_t *u; int k, n = (int)P("n", 4); uint64_t live0; char *p;
    raii_init(); live0 = sx_heap_live();
    u = unique_init_arena(); A[0] = u->arena;
    for (k = 0; k < n; k++) {
        int op = (int)sx_choose("op", 4); size_t s = sizes[sx_choose("size", 4) * 3];
        if (op == 0) p = malloc_by(u, s); else if (op == 1) p = calloc_by(u, 1, s); else if (op == 2) p = malloc_arena(u, s); else p = calloc_arena(u, 1, s);
        got_block(0, p, s, op & 1);
        check_all();
    }
    drop(0); free_arena(u);
    sx_assert(sx_heap_live() == live0, "an arena smart pointer releases its arena");
    sx_cover("done");
    return 0;
}
