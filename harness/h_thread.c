/* Threads of their own: L01. Every schedule of two threads (and main) that use their scopes and exception contexts. */
#include "raii.h"
#include "sx.h"
#include <string.h>
#define P(n, d) ((long)sx_param(n, d))
#define N 3
EX_EXCEPTION(one);
EX_EXCEPTION(two);
enum { O_DEFER, O_ALLOC, O_TRY, O_GUARD, O_RECOVER, O_PANIC, O_CLEAN, O_UNWIND, O_ARGS, O_CANCEL, O_N };
typedef struct { int id, nops, op[6], ran, expect, pending, quiet; uint64_t x; memory_t *scope; void *ctx; char *mem[6]; int nmem; const char *who; } who_t;
static who_t w[N];
static _Thread_local who_t *self_;
static void point(void);
static void on_defer(void *p) { who_t *s = (who_t *)p; sx_assert(s == self_, "a thread runs only what it has deferred itself"); s->ran++; point(); }
static void on_release(void *p) { who_t *s = (who_t *)p; sx_assert(s == self_, "a thread releases only what it has protected itself"); s->ran++; point(); }
static void on_recover(void *p) { who_t *s = (who_t *)p; sx_assert(s == self_, "a thread runs only what it has deferred itself"); sx_assert(_recover(s->who), "a thread recovers from its own panic"); s->ran++; point(); }
static int point_; static void point(void) { __atomic_fetch_add(&point_, 1, __ATOMIC_RELAXED); } /* another thread may go on here */
static void check(who_t *s) {
    int i, j;
    point();
    sx_assert(raii_local() == s->scope && raii_init() == s->scope, "a thread keeps its own scope");
    sx_assert(s->ran == s->expect, "nothing deferred is run early, twice or not at all");
    sx_assert((int)raii_deferred_count(raii_local()) == s->pending, "nothing is added to or taken from a thread's scope by another");
    for (i = 0; i < s->nmem; i++) { sx_assert(sx_is_live(s->mem[i]), "memory of a thread stays allocated"); for (j = 0; j < 8; j++) sx_assert(s->mem[i][j] == (char)(0x30 + s->id), "memory of a thread is not touched by another"); }
}
static void unwind(who_t *s) {
    void *ptr = s; protected(ptr, on_release); 
    (void)ptr; point();
    ex_throw(EX_NAME(two), "file", s->id, "fn", s->who, NULL);
}
static void step(who_t *s, int op) {
    switch (op) {
        case O_DEFER: raii_defer(on_defer, s); s->pending++; break;
        case O_ALLOC: s->mem[s->nmem] = malloc_default(8); memset(s->mem[s->nmem++], 0x30 + s->id, 8); s->pending++; break;
        case O_TRY: { volatile int got = 0; ex_try { point(); if (s->id & 1) throw(one); else throw(two); } ex_catch(one) { got = 1; } ex_catch(two) { got = 2; } ex_end_try; sx_assert(got == (s->id & 1 ? 1 : 2), "a thread catches its own exception"); break; }
        case O_GUARD: { guard { _defer(on_defer, s); _malloc(4); point(); _defer(on_defer, s); } guarded s->expect += 2; break; }
        case O_RECOVER: { guard { _defer(on_defer, s); _defer(on_recover, s); point(); raii_panic(s->who); } guarded s->expect += 2; break; }
        case O_PANIC: { volatile int got = 0; ex_try { guard { _defer(on_defer, s); raii_panic(s->who); } guarded } ex_catch_any { got = strcmp(ex_err.ex, "panic") == 0 && ex_err.panic == s->who; } ex_end_try; s->expect++; sx_assert(got, "a thread gets its own panic"); break; }
        case O_CLEAN: raii_deferred_clean(); s->expect += s->pending - s->nmem - s->quiet; s->nmem = s->pending = s->quiet = 0; break;
        case O_UNWIND: { volatile int got = 0; ex_try { unwind(s); } ex_catch(two) { got = ex_err.line == s->id && ex_err.panic == s->who; } ex_end_try; s->expect++; sx_assert(got, "a thread unwinds its own protected pointers"); break; }
        case O_ARGS: { args_t a = args_for("dd", (int64_t)s->x, (int64_t)s->id); sx_assert(get_args(a, 0).max_size == s->x && get_args(a, 1).integer == s->id, "a thread's arguments are its own"); s->pending++; s->quiet++; break; }
    }
    check(s);
}
static int body(void *p) {
    who_t *s = (who_t *)p; int i;
    self_ = s;
    s->scope = raii_init();
    sx_assert(raii_local() == s->scope && raii_deferred_count(s->scope) == 0 && s->scope->arena == NULL, "a new thread has a fresh scope"); s->ctx = (void *)ex_init();
    for (i = 0; i < s->nops; i++) step(s, s->op[i]);
    sx_assert((void *)ex_init() == s->ctx, "a thread keeps its own exception context");
    raii_deferred_clean(); s->expect += s->pending - s->nmem - s->quiet; s->pending = s->nmem = s->quiet = 0;
    check(s);
    return 100 + s->id;
}
int h_threads(void) {
    int n = (int)P("n", 2), i, j, rc = 0; thrd_t t[N]; uint64_t live0; static const char *names[N] = { "zero", "one", "two" };
    long ops[N]; ops[0] = P("ops0", 0x3f); ops[1] = P("ops1", 0x3f); ops[2] = P("ops2", 0x3f);
    ex_signal_setup();
    raii_init(); raii_deferred_clean();
    live0 = sx_heap_live();
    for (i = 0; i < n; i++) {
        w[i].id = i; w[i].who = names[i]; w[i].x = sx_u64("x"); w[i].nops = (int)P(i ? "k" : "k0", 1);
        for (j = 0; j < w[i].nops; j++) { int alt[16], m = 0, k; for (k = 0; k < O_N; k++) if (ops[i] >> k & 1) alt[m++] = k; w[i].op[j] = alt[m == 1 ? 0 : sx_choose("op", (uint32_t)m)]; }
    }
    self_ = &w[0]; w[0].scope = raii_local(); w[0].ctx = (void *)ex_init();
    if (P("before", 0)) for (j = 0; j < w[0].nops; j++) step(&w[0], w[0].op[j]);
    for (i = 1; i < n; i++) sx_assert(thrd_create(&t[i], body, &w[i]) == thrd_success, "a thread is created");
    if (!P("before", 0)) for (j = 0; j < w[0].nops; j++) step(&w[0], w[0].op[j]);
    for (i = 1; i < n; i++) { sx_assert(thrd_join(t[i], &rc) == thrd_success && rc == 100 + i, "a thread ends normally"); for (j = 0; j < i; j++) sx_assert(w[i].scope != w[j].scope && w[i].ctx != w[j].ctx, "threads have different scopes and exception contexts"); }
    check(&w[0]);
    raii_deferred_clean(); w[0].expect += w[0].pending - w[0].nmem - w[0].quiet; w[0].pending = w[0].nmem = 0;
    check(&w[0]);
    for (i = 0; i < n; i++) sx_assert(w[i].ran == w[i].expect, "every deferral ran");
    sx_cover("done");
    (void)live0;
    return 0;
}
