/* Argument sets: A01, A02. */
#include "raii.h"
#include "sx.h"
#include <string.h>
#include <stdarg.h>
#define P(n, d) ((long)sx_param(n, d))
static void *fn0(void *p, ...) { return p; }
static struct { int i; uint32_t u; long l; int64_t d; size_t z; char c; char *s; ptrdiff_t **a; raii_func_args_t x; double f; void *p; } v;
static void values(void) {
    static char big[400]; size_t n = (size_t)P("slen", 5);
    v.i = (int)sx_s32("i"); v.u = sx_u32("u"); v.l = (long)sx_s64("l"); v.d = sx_s64("d"); v.z = (size_t)sx_u64("z"); v.c = (char)sx_u8("c");
    if (n < 40) v.s = sx_str("s", n); else { memset(big, 'x', n); big[n] = 0; v.s = big; }
    v.f = sx_double("f"); sx_assume(v.f == v.f); v.p = (void *)(uintptr_t)sx_u64("p");
    v.a = (ptrdiff_t **)(uintptr_t)sx_u64("a"); v.x = (raii_func_args_t)(uintptr_t)sx_u64("x");
}
static int eq(char code, values_type r) {
    switch (code) {
        case 'i': return r.integer == v.i;
        case 'u': return r.u_int == v.u;
        case 'l': return r.s_long == v.l;
        case 'd': return r.long_long == v.d;
        case 'z': return r.max_size == v.z;
        case 'c': return (char)r.schar == v.c;
        case 's': return r.char_ptr == v.s || (r.char_ptr != NULL && strcmp(r.char_ptr, v.s) == 0);
        case 'a': return r.array == v.a;
        case 'x': return (uintptr_t)r.func == (uintptr_t)v.x;
        case 'f': return r.precision == v.f;
        default: return r.object == v.p;
    }
}
static memory_t *sc;
/* every pair of codes, after and before other arguments */
#define A_i v.i
#define A_u v.u
#define A_l v.l
#define A_d v.d
#define A_z v.z
#define A_c v.c
#define A_s v.s
#define A_a v.a
#define A_x v.x
#define A_f v.f
#define A_p v.p
#define ONE(k, x, y) case k: fmt = #x #y; r = sc ? raii_args_for(sc, fmt, A_##x, A_##y) : args_for(fmt, A_##x, A_##y); break;
#define ROW(k, x) ONE(k, x, i) ONE(k + 1, x, u) ONE(k + 2, x, l) ONE(k + 3, x, d) ONE(k + 4, x, z) ONE(k + 5, x, c) ONE(k + 6, x, s) ONE(k + 7, x, a) ONE(k + 8, x, x) ONE(k + 9, x, f) ONE(k + 10, x, p)
static const char *fmt;
static args_t pair(int k) {
    args_t r = NULL;
    switch (k) { ROW(0, i) ROW(11, u) ROW(22, l) ROW(33, d) ROW(44, z) ROW(55, c) ROW(66, s) ROW(77, a) ROW(88, x) ROW(99, f) ROW(110, p) default: break; }
    return r;
}
static int seq; /* a set of distinct values, one more at each position */
#define EQ(j, r) (seq ? (r).long_long == (int64_t)((uint64_t)v.d + (j)) : eq(fmt[j], r))
static args_t set(int k) {
    args_t r = NULL;
    switch (k) {
        case 0: r = args_for(fmt = "iuldzcsaxfp", v.i, v.u, v.l, v.d, v.z, v.c, v.s, v.a, v.x, v.f, v.p); break;
        case 1: r = args_for(fmt = "pfxasczdlui", v.p, v.f, v.x, v.a, v.s, v.c, v.z, v.d, v.l, v.u, v.i); break;
        case 2: r = args_for(fmt = "ssfps", v.s, v.s, v.f, v.p, v.s); break;
        case 3: r = args_for(fmt = "fffffffffffi", v.f, v.f, v.f, v.f, v.f, v.f, v.f, v.f, v.f, v.f, v.f, v.i); break;
        case 4: r = args_for(fmt = "cccccccccccccccccccccz", v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.z); break;
        case 5: r = args_for(fmt = "pspsp", v.p, v.s, v.p, v.s, v.p); break;
#define D1(k) (long long)((uint64_t)v.d + (k))
#define D5(k) D1(k), D1(k + 1), D1(k + 2), D1(k + 3), D1(k + 4)
#define D20(k) D5(k), D5(k + 5), D5(k + 10), D5(k + 15)
#define F5 "ddddd"
#define F20 F5 F5 F5 F5
        case 7: seq = 1; r = args_for(fmt = F5, D5(0)); break;
        case 8: seq = 1; r = args_for(fmt = F20, D20(0)); break;
        case 9: seq = 1; r = args_for(fmt = F20 F20, D20(0), D20(20)); break;
        case 10: seq = 1; r = args_for(fmt = F20 F20 F20 F5 "d", D20(0), D20(20), D20(40), D5(60), D1(65)); break;
        case 11: seq = 1; r = args_for(fmt = F20 F20 F20 F20 F20 F20 F5 F5 "d", D20(0), D20(20), D20(40), D20(60), D20(80), D20(100), D5(120), D5(125), D1(130)); break;
#define A11 v.i, v.u, v.l, v.d, v.z, v.c, v.s, v.a, v.x, v.f, v.p
#define A44 A11, A11, A11, A11
#define G44 "iuldzcsaxfpiuldzcsaxfpiuldzcsaxfpiuldzcsaxfp"
        /* every code at every position up to 44 */
        case 20: r = args_for(fmt = "" G44, A44); break;
        case 21: r = args_for(fmt = "c" G44, v.c, A44); break;
        case 22: r = args_for(fmt = "cc" G44, v.c, v.c, A44); break;
        case 23: r = args_for(fmt = "ccc" G44, v.c, v.c, v.c, A44); break;
        case 24: r = args_for(fmt = "cccc" G44, v.c, v.c, v.c, v.c, A44); break;
        case 25: r = args_for(fmt = "ccccc" G44, v.c, v.c, v.c, v.c, v.c, A44); break;
        case 26: r = args_for(fmt = "cccccc" G44, v.c, v.c, v.c, v.c, v.c, v.c, A44); break;
        case 27: r = args_for(fmt = "ccccccc" G44, v.c, v.c, v.c, v.c, v.c, v.c, v.c, A44); break;
        case 28: r = args_for(fmt = "cccccccc" G44, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, A44); break;
        case 29: r = args_for(fmt = "ccccccccc" G44, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, A44); break;
        case 30: r = args_for(fmt = "cccccccccc" G44, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, v.c, A44); break;
        default: r = args_for(fmt = "s", v.s); break;
    }
    return r;
}
static void check(args_t r, memory_t *use) {
    size_t n = strlen(fmt), i, how = P("how", 0);
    sx_assert(r->n_args == n, "the set has as many arguments as the format");
    for (i = 0; i < n; i++) {
        size_t j = how == 3 ? n - 1 - i : i;
        int ok = how == 0 ? EQ(j, args_in(r, j)) : how == 1 ? EQ(j, get_args(r, (int)j)) : EQ(j, raii_get_args(use, r, (int)j));
        sx_assert(ok, "an argument is returned unchanged at its position");
        sx_assert(EQ(j, raii_value(&r->args[j])), "the value of an argument is the argument");
    }
}
int h_args(void) {
    args_t r; uint64_t live0; memory_t *u; long how = P("how", 0);
    raii_init(); raii_defer((func_t)fn0, NULL); raii_deferred_clean();
    values();
    live0 = sx_heap_live();
    u = unique_init(); sc = P("scoped", 0) ? u : NULL;
    r = P("pairs", 1) ? pair((int)sx_choose("pair", 121)) : set(P("rot", 0) ? 20 + (int)sx_choose("rotation", 11) : (int)sx_choose("set", 12));
    check(r, u);
    if (how == 0) args_free(r); else if (how == 1 && !sc) raii_deferred_clean(); else raii_deferred_free(u);
    sx_assert(!sx_is_live(r), "the set is released");
    raii_delete(u);
    sx_assert(sx_heap_live() == live0, "the set is released with all its memory");
    sx_cover("done");
    return 0;
}
/* A02 */
int h_release(void) {
    int k, n = (int)P("n", 3), bound = 0; memory_t *u, *w; args_t r; uint64_t live0; int own = (int)sx_choose("scoped", 2), len = (int)sx_choose("length", 3); void *d0;
    raii_init(); raii_defer((func_t)fn0, NULL); raii_deferred_clean();
    values();
    live0 = sx_heap_live();
    u = unique_init(); w = unique_init();
    if (len == 0) r = own ? raii_args_for(u, fmt = "p", v.p) : args_for(fmt = "p", v.p);
    else if (len == 1) r = own ? raii_args_for(u, fmt = "isp", v.i, v.s, v.p) : args_for(fmt = "isp", v.i, v.s, v.p);
    else r = own ? raii_args_for(u, fmt = "ispispispisp", v.i, v.s, v.p, v.i, v.s, v.p, v.i, v.s, v.p, v.i, v.s, v.p) : args_for(fmt = "ispispispisp", v.i, v.s, v.p, v.i, v.s, v.p, v.i, v.s, v.p, v.i, v.s, v.p);
    len = (int)strlen(fmt);
    d0 = r->args;
    for (k = 0; k < n; k++) {
        int a = (int)sx_choose("accessor", 4), j = len == 1 ? 0 : (int)sx_choose("item", 3), ok;
        if (j == 2) j = len - 1;
        if (a == 0) ok = eq(fmt[j], args_in(r, j));
        else if (a == 1) { ok = eq(fmt[j], get_args(r, j)); if (!bound) bound = own ? 1 : 2; }
        else if (a == 2) { ok = eq(fmt[j], raii_get_args(w, r, j)); if (!bound) bound = 3; }
        else { ok = eq(fmt[j], raii_get_args(NULL, r, j)); if (!bound) bound = own ? 1 : 2; }
        sx_assert(ok, "an argument is returned unchanged at its position");
    }
    if (P("other", 0)) malloc_full(w, 8, free), raii_deferred(u, (func_t)fn0, NULL);
    if (bound != 3) { raii_deferred_free(w); sx_assert(sx_is_live(r), "another scope does not release the set"); }
    if (bound != 1) { raii_deferred_free(u); sx_assert(sx_is_live(r) == (bound != 1), "another scope does not release the set"); }
    if (bound != 2) { raii_deferred_clean(); sx_assert(sx_is_live(r), "another scope does not release the set"); }
    if (bound == 0) { args_free(r); sx_cover("explicit"); }
    else if (bound == 1) { raii_deferred_free(u); sx_cover("own scope"); }
    else if (bound == 2) { raii_deferred_clean(); sx_cover("thread scope"); }
    else { raii_deferred_free(w); sx_cover("given scope"); }
    sx_assert(!sx_is_live(r) && !sx_is_live(d0), "the set is released with its scope");
    raii_deferred_free(u); raii_deferred_free(w); raii_deferred_clean();
    raii_delete(u); raii_delete(w);
    sx_assert(sx_heap_live() == live0, "released once, nothing is leaked");
    return 0;
}
/* an empty set, and one nobody asked anything, are released too */
int h_empty(void) {
    args_t r; void *d0; uint64_t live0; memory_t *u; int k = (int)sx_choose("set", 4);
    raii_init(); raii_defer((func_t)fn0, NULL); raii_deferred_clean();
    values(); live0 = sx_heap_live(); u = unique_init();
    r = k == 0 ? args_for("") : k == 1 ? raii_args_for(u, "") : k == 2 ? args_for("i", v.i) : raii_args_for(u, "ip", v.i, v.p);
    d0 = r->args;
    sx_assert(r->n_args == (size_t)(k == 2 ? 1 : k == 3 ? 2 : 0), "the set has as many arguments as the format");
    if (sx_choose("how", 2)) { raii_deferred(u, (func_t)args_free, r); raii_delete(u); u = NULL; } else args_free(r);
    sx_assert(!sx_is_live(r) && (d0 == NULL || !sx_is_live(d0)), "the set is released");
    if (u) raii_delete(u);
    sx_assert(sx_heap_live() == live0, "the set is released with all its memory");
    sx_cover("done");
    return 0;
}
