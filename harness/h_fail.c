/* D04: every allocation of every allocating call fails once. */
#undef FORCEINLINE
#define FORCEINLINE
#include "raii.h"
#include "sx.h"
#include <string.h>
#include <stdarg.h>
#define P(n, d) ((long)sx_param(n, d))
static memory_t *scope; static unique_t *u; static int ndef; static char *pre[8]; static int npre, order[64], norder;
static void note(void *d) { order[norder++] = (int)(uintptr_t)d; }
static void rel(void *p) { order[norder++] = 1000; free(p); }
static void quiet(void *d) { (void)d; }
static char *cat(memory_t *s, int n, ...) { va_list ap; char *r; va_start(ap, n); r = str_concat_ex(s, n, ap); va_end(ap); return r; }
static int in_guard(void) { guard { ndef = 1; _defer(quiet, NULL); ndef = 2; _malloc(8); ndef = 3; } guarded return 0; }
static void *args3(memory_t *s) { return raii_args_for(s, "isf", 7, "text", 2.5); }
/* which interfaces give back something that belongs to the caller, how to release it */
enum { A_MALLOC, A_CALLOC, A_MALLOC_BY, A_CALLOC_BY, A_DEF_MALLOC, A_DEF_CALLOC, A_DEFER, A_RECOVER, A_MEMDUP, A_SPLIT, A_CONCAT, A_REPLACE, A_ENC, A_DEC, A_ARRAY, A_LAST_SCOPED,
       A_UNIQUE = A_LAST_SCOPED, A_UARENA, A_ARENA, A_ARENA_ALLOC, A_ARENA_CALLOC, A_ARGS, A_TRY_MALLOC, A_TRY_CALLOC, A_TRY_REALLOC, A_GUARD, A_SPLIT0, A_CONCAT0, A_REPLACE0, A_GETARGS, A_END };
static arena_t ar; static args_t ag; static void *old;
static void *api(int w) {
    switch (w) {
        case A_MALLOC: return malloc_full(scope, 9, rel);
        case A_CALLOC: return calloc_full(scope, 3, 5, rel);
        case A_MALLOC_BY: return malloc_by(scope, 9);
        case A_CALLOC_BY: return calloc_by(scope, 2, 9);
        case A_DEF_MALLOC: return malloc_default(9);
        case A_DEF_CALLOC: return calloc_default(1, 9);
        case A_DEFER: raii_deferred(scope, note, (void *)77); return scope;
        case A_RECOVER: raii_recover_by(scope, note, (void *)77); return scope;
        case A_MEMDUP: return str_memdup_ex(scope, "abc", 3);
        case A_SPLIT: return str_split_ex(scope, "a,b", ",", NULL);
        case A_CONCAT: return cat(scope, 2, "ab", "cd");
        case A_REPLACE: return str_replace_ex(scope, "abcabc", "b", "xyz");
        case A_ENC: return str_encode64_ex(scope, (u_string_t)"hello");
        case A_DEC: return str_decode64_ex(scope, (u_string_t)"aGVsbG8=");
        case A_ARRAY: return malloc_full(scope, 64, rel);
        case A_UNIQUE: return unique_init();
        case A_UARENA: return unique_init_arena();
        case A_ARENA: return arena_init(1);
        case A_ARENA_ALLOC: return arena_alloc(ar, 5000);
        case A_ARENA_CALLOC: return arena_calloc(ar, 5, 1000);
        case A_ARGS: return args3(NULL);
        case A_TRY_MALLOC: return try_malloc(10);
        case A_TRY_CALLOC: return try_calloc(1, 10);
        case A_TRY_REALLOC: return try_realloc(old, 100);
        case A_GUARD: in_guard(); return scope;
        case A_SPLIT0: return str_split_ex(NULL, "a,b", ",", NULL);
        case A_CONCAT0: return cat(NULL, 2, "ab", "cd");
        case A_REPLACE0: return str_replace_ex(NULL, "abcabc", "b", "xyz");
        default: return raii_get_args(scope, ag, 0).integer == 7 ? scope : NULL;
    }
}
static void dispose(int w, void *r) {
    switch (w) {
        case A_UNIQUE: raii_delete(r); break;
        case A_UARENA: free_arena(r); break;
        case A_ARENA: arena_free(r); break;
        case A_ARGS: args_free(r); break;
        case A_TRY_MALLOC: case A_TRY_CALLOC: case A_SPLIT0: case A_CONCAT0: case A_REPLACE0: free(r); break;
        case A_TRY_REALLOC: old = r; break;
        default: break;
    }
}
int h_fail(void) {
    int n = (int)P("n", 2), w = (int)P("api", 0), k, i, got = 0, ok = 0; void *volatile r = NULL; uint64_t live0, l1; size_t cnt, cap0 = 0, tot0 = 0; const char *volatile msg = NULL;
    raii_init(); exception_signal_set = true;
    raii_defer(quiet, NULL); raii_deferred_clean(); /* the thread's scope is set up */
    live0 = sx_heap_live();
    scope = P("thread", 0) || w == A_DEF_MALLOC || w == A_DEF_CALLOC ? raii_local() : (u = unique_init());
    for (i = 0; i < n; i++) if (i & 1) raii_deferred(scope, note, (void *)(uintptr_t)i); else pre[npre++ & 7] = malloc_full(scope, 8, rel);
    if (w == A_ARENA_ALLOC || w == A_ARENA_CALLOC) { ar = arena_init(1); arena_alloc(ar, 10); }
    if (w == A_TRY_REALLOC) old = malloc(10);
    if (w == A_GETARGS) ag = args3(NULL);
    if (ar) { cap0 = arena_capacity(ar); tot0 = arena_total(ar); }
    l1 = sx_heap_live(); cnt = raii_deferred_count(scope);
    k = 1 + (int)sx_choose("failing", 4);
    sx_fail_alloc(k);
    ex_try {
        r = api(w); ok = 1;
    } ex_catch_any {
        got = 1; msg = ex_err.panic;
    } ex_end_try;
    sx_assert(got + ok == 1, "an allocating call throws or returns");
    if (sx_failed()) { sx_assert(got, "a failing allocation makes the call throw"); sx_assert(msg != NULL && msg[0], "the failure is a panic with a message"); sx_cover("failed"); }
    else { sx_assert(ok && r != NULL, "without a failing allocation the call succeeds"); sx_cover("succeeded"); }
    sx_fail_alloc(0);
    if (got) {
        sx_assert(raii_deferred_count(scope) == cnt, "a failing call registers nothing");
        sx_assert(sx_heap_live() == l1, "a failing call keeps nothing");
        if (ar) sx_assert(arena_capacity(ar) == cap0 && arena_total(ar) == tot0, "an arena that could not grow is as it was");
        for (i = 0; i < npre; i++) sx_assert(sx_is_live(pre[i]), "what was acquired before is still there");
        /* and the call works afterwards */
        if (w != A_GUARD) { r = api(w); sx_assert(r != NULL, "the call works once memory is available again"); dispose(w, r); }
    } else dispose(w, r);
    if (ar) { sx_assert(arena_total(ar) >= tot0 + 5000 && arena_total(ar) <= tot0 + 64 * 1024, "the total is what the arena took from the system"); arena_free(ar); }
    if (w == A_TRY_REALLOC) free(old);
    norder = 0;
    raii_deferred_free(scope);
    for (i = 0, k = norder - 1; i < n; i++, k--) sx_assert(k >= 0 && order[k] == (i & 1 ? i : 1000), "everything acquired before is released exactly once, newest first");
    if (u) raii_delete(u); else raii_deferred_clean();
    sx_assert(sx_heap_live() == live0 || scope == raii_local(), "nothing is leaked");
    return 0;
}
