/* Scope-bound memory: D03, and its behaviour under allocation failure (D04). */
#undef FORCEINLINE
#define FORCEINLINE
#include "raii.h"
#include "sx.h"
#include <string.h>
#define P(n, d) ((long)sx_param(n, d))
#define MAXB 300
static struct { unsigned char *p; size_t size; int rel; unsigned char copy[48]; } b[MAXB];
static int nb, alive, released, nest, failing;
static memory_t *scope; static unique_t *u;
static size_t sizes[16] = { 8, 1, 16, 0, 9, 40, 24, 3, 255, 256, 257, 4095, 4096, 65535, 65536, 100001 };
#define STEP(k, n) ((k) >= 300 && (k) + 300 < (int)(n) ? 61 : 1)
static void request(int api, size_t size);
/* everything older than block i is still there, i itself was handed over once, everything newer is gone */
static void handed(int rel, void *p) {
    int i = --alive, k;
    sx_assert(i >= 0, "nothing is released that was not requested");
    while (i > 0 && b[i].rel < 0) { /* released with free: gone by now */
        sx_assert(!sx_is_live(b[i].p), "memory is released newest first");
        i = --alive;
    }
    sx_assert(b[i].p == p, "the release function gets the newest block of the scope");
    sx_assert(b[i].rel == rel, "memory is released by the function named in the request");
    for (k = 0; k <= i; k++) sx_assert(sx_is_live(b[k].p), "memory lives until it is its turn to be released");
    for (k = 0; k < (int)b[i].size && k < 48; k++) sx_assert(b[i].p[k] == b[i].copy[k], "the contents of scope-bound memory are the user's");
    if (b[i].size > 48 && b[i].size != 12345) sx_assert(b[i].p[b[i].size - 1] == 0x5a, "the contents of scope-bound memory are the user's");
    released++;
    if (b[i].size != 12345) { if (nest && released == nest) { request(0, 8); request(2, 5); } }
    free(p);
}
static void r0(void *p) { handed(0, p); }
static void r1(void *p) { handed(1, p); }
static void request(int api, size_t size) {
    unsigned char *p; int k, zero = 0, rel = -1, n = alive;
    switch (api) {
        case 0: p = malloc_full(scope, size, r0); rel = 0; break;
        case 1: p = calloc_full(scope, 2, size, r1); rel = 1; zero = 1; size *= 2; break;
        case 2: p = malloc_by(scope, size); break;
        case 3: p = calloc_by(scope, 3, size); zero = 1; size *= 3; break;
        case 4: p = malloc_full(scope, size, free); break;
        case 5: p = calloc_full(scope, 1, size, r0); rel = 0; zero = 1; break;
        case 6: p = malloc_default(size); break;
        case 7: p = calloc_default(2, size); zero = 1; size *= 2; break;
        default: { static char t[100008]; sx_bytes(t, size < 48 ? size : 48, "dup"); p = str_memdup_ex(scope, t, size); for (k = 0; k < (int)size; k += STEP(k, size)) sx_assert(p[k] == (unsigned char)t[k], "a copy holds the bytes copied"); }
    }
    sx_assert(p != NULL, "memory is returned");
    sx_assert(sx_is_live(p) && sx_block_size(p) >= size, "memory has the requested size");
    for (k = 0; k < n; k++) sx_assert(b[k].p != p, "memory overlaps no other live block");
    if (zero) for (k = 0; k < (int)size; k += STEP(k, size)) sx_assert(p[k] == 0, "calloc gives zeroed memory");
    sx_assert(raii_last_mid(scope) == raii_deferred_count(scope) - 1 || api == 6 || api == 7, "the last memory request of the scope is known");
    sx_bytes(p, size < 48 ? size : 48, "contents");
    for (k = 0; k < (int)size && k < 48; k++) b[n].copy[k] = p[k];
    if (size > 48) p[size - 1] = (unsigned char)0x5a;
    b[n].p = p; b[n].size = size; b[n].rel = rel; alive = n + 1; if (nb < alive) nb = alive;
}
static void nothing_left(int upto) {
    int k; for (k = 0; k < upto; k++) sx_assert(!sx_is_live(b[k].p), "all memory of a scope is released when it ends");
}
static void some(int m, int api, int stop) {
    int i;
    for (i = 0; i < m; i++) {
        int a = api < 0 ? (int)sx_choose("api", 6) : api == 100 ? i % 6 : api == 101 ? (i & 1 ? 8 : 0) : api;
        if (i == stop) raii_panic("stop");
        request(a, sizes[P("big", 0) ? 8 + ((i + P("s", 0)) & 7) : (i + P("s", 0)) & 7]);
    }
    if (stop == m) raii_panic("stop");
}
int h_mem(void) { /* smart pointer or thread scope, ended by one of the functions */
    int m = (int)P("m", 3); long how = P("how", 0); uint64_t live0;
    nest = P("nest", 0) ? 1 + (int)sx_choose("nest", 3) : 0;
    if (P("thread", 0)) raii_init();
    live0 = sx_heap_live();
    scope = P("thread", 0) ? raii_local() : (u = unique_init());
    some(m, (int)P("api", -1), -1);
    if (how == 0) raii_deferred_free(scope); else if (how == 1) { raii_delete(scope); u = NULL; } else if (how == 2) raii_deferred_clean(); else raii_destroy();
    nothing_left(nb);
    if (u) raii_delete(u);
    sx_assert(sx_heap_live() == live0, "nothing is leaked");
    sx_cover("done");
    return 0;
}
/* a scope with an arena: its blocks are still there when what was deferred runs */
static void look(void *p) {
    int i, k, then = (int)(intptr_t)p;
    released++;
    for (i = 0; i < nb; i++) {
        if (b[i].rel && i >= then) continue; /* released before, newest first */
        sx_assert(sx_readable(b[i].p, b[i].size), "memory lives until its scope has been unwound");
        for (k = 0; k < (int)b[i].size && k < 48; k++) sx_assert(b[i].p[k] == b[i].copy[k], "the contents of scope-bound memory are the user's");
    }
}
int h_scope_arena(void) {
    int m = (int)P("m", 3), i, k, looks = 0; uint64_t live0;
    if (P("thread", 0)) raii_init();
    live0 = sx_heap_live();
    scope = u = unique_init_arena();
    for (i = 0; i < m; i++) {
        int a = P("api", -1) >= 0 ? (int)P("api", 0) + i % 4 : (int)sx_choose("api", 6); size_t size = sizes[P("big", 0) ? 8 + ((i + P("s", 0)) & 7) : (i + P("s", 0)) & 7]; unsigned char *p; int zero = 0;
        if (!size) size = 2;
        switch (a) {
            case 0: p = malloc_by(scope, size); break;
            case 1: p = calloc_by(scope, 2, size); size *= 2; zero = 1; break;
            case 2: p = malloc_arena(scope, size); break;
            case 3: p = calloc_arena(scope, 3, size); size *= 3; zero = 1; break;
            case 4: p = malloc_full(scope, size, free); b[nb].rel = 1; break;
            default: raii_deferred(scope, look, (void *)(intptr_t)nb); looks++; continue;
        }
        sx_assert(p != NULL && sx_readable(p, size), "memory has the requested size");
        if (zero) for (k = 0; k < (int)size; k += STEP(k, size)) sx_assert(p[k] == 0, "calloc gives zeroed memory");
        for (k = 0; k < nb; k++) sx_assert((b[k].p + b[k].size <= p) | (p + size <= b[k].p), "memory overlaps no other live block");
        sx_bytes(p, size < 48 ? size : 48, "contents");
        for (k = 0; k < (int)size && k < 48; k++) b[nb].copy[k] = p[k];
        if (size > 48) p[size - 1] = 0x5a;
        b[nb].p = p; b[nb].size = size; nb++;
    }
    raii_deferred(scope, look, (void *)(intptr_t)nb); looks++;
    free_arena(scope);
    sx_assert(released == looks, "what was deferred runs once");
    sx_assert(sx_heap_live() == live0, "nothing is leaked");
    sx_cover("done");
    return 0;
}
static int in_guard(int m, int api, int stop) {
    guard {
        scope = raii_local()->arena;
        sx_assert(scope != NULL, "a guard has a scope");
        some(m, api, stop);
        if (P("exit", 0) == 1) break;
        if (P("exit", 0) == 2) { _return(1); }
        alive = alive;
    } guarded
    return 1;
}
int h_guard(void) { /* a guard section's scope, left normally or by an exception at any point */
    int m = (int)P("m", 3), stop, got = 0; uint64_t live0;
    raii_init(); live0 = sx_heap_live();
    stop = P("throw", 1) ? (int)sx_choose("throwat", m + 1) : -1;
    ex_try {
        in_guard(m, (int)P("api", -1), stop);
    } ex_catch_any {
        got = 1;
        nothing_left(nb);
    } ex_end_try;
    sx_assert(got == (stop >= 0), "the exception reaches the enclosing handler");
    nothing_left(nb);
    sx_assert(sx_heap_live() == live0, "nothing is leaked");
    sx_cover(got ? "thrown" : "normal");
    return 0;
}
/* a request is named by raii_last_mid (raii_mid): cancelling it hands the memory to the user, firing it releases it at once */
static int midcnt[MAXB];
static void midrel(void *p) { int i; for (i = 0; i < nb && b[i].p != p; i++); sx_assert(i < nb && sx_is_live(p), "nothing is released that was not requested"); midcnt[i]++; b[i].p = NULL; free(p); }
static void midnone(void *p) { released++; (void)p; }
int h_mid(void) {
    int m = (int)P("m", 3), i, k, state[MAXB], looks = 0; unsigned char *kept[MAXB]; static unsigned char was[MAXB][9]; uint64_t live0; size_t idx[MAXB];
    if (P("thread", 0)) raii_init();
    live0 = sx_heap_live();
    scope = P("thread", 0) ? raii_local() : (u = unique_init());
    for (i = 0; i < m; i++) {
        unsigned char *p; int api = m > 6 ? i & 1 : (int)sx_choose("api", 2);
        if (m > 6 ? i % 3 == 1 : sx_choose("between", 2)) { raii_deferred(scope, midnone, NULL); looks++; }
        p = api ? (unsigned char *)malloc_full(scope, 9, midrel) : (unsigned char *)calloc_full(scope, 2, 8, midrel);
        idx[i] = P("thread", 0) && (i & 1) ? raii_mid() : raii_last_mid(scope);
        sx_assert(idx[i] == raii_deferred_count(scope) - 1, "the last memory request of the scope is known");
        b[nb].p = p; kept[nb] = p; state[nb++] = 0;
        sx_bytes(p, 9, "contents"); memcpy(was[i], p, 9);
    }
    for (i = 0; i < (int)P("ops", 2); i++) {
        int op = (int)sx_choose("op", 3), t;
        if (!op) continue;
        t = m > 6 ? (sx_choose("which", 2) ? m - 1 - i : i) : (int)sx_choose("which", m);
        if (state[t]) continue;
        /* the newest entries that were cancelled or fired are gone: what is left keeps its index */
        state[t] = op;
        if (op == 1) { raii_deferred_cancel(scope, idx[t]); sx_assert(midcnt[t] == 0, "memory lives until it is its turn to be released"); b[t].p = NULL; }
        else { raii_deferred_fire(scope, idx[t]); sx_assert(midcnt[t] == 1 && !sx_is_live(kept[t]), "firing a request releases its memory"); }
        for (k = 0; k < nb; k++) if (state[k] != 2) { int z; sx_assert(sx_is_live(kept[k]), "memory lives until it is its turn to be released"); for (z = 0; z < 9; z++) sx_assert(kept[k][z] == was[k][z], "the contents of scope-bound memory are the user's"); }
    }
    if (P("thread", 0)) raii_destroy(); else { raii_delete(u); u = NULL; }
    sx_assert(released == looks, "what was deferred runs once");
    for (k = 0; k < nb; k++) {
        sx_assert(midcnt[k] == (state[k] != 1), "memory is released exactly once, unless its release was cancelled");
        sx_assert(sx_is_live(kept[k]) == (state[k] == 1), "memory whose release was cancelled is the user's");
        if (state[k] == 1) free(kept[k]);
    }
    sx_assert(sx_heap_live() == live0, "nothing is leaked");
    sx_cover("done");
    return 0;
}
