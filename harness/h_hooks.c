/* E08: custom handlers of raised exceptions (exception_setup_func, exception_unwind_func), for every nesting of a few statement forms. */
#include "raii.h"
#include "sx.h"
#include <string.h>
#include <signal.h>
#define P(n, d) ((long)sx_param(n, d))
EX_EXCEPTION(one);
EX_EXCEPTION(two);
EX_EXCEPTION(sgnl);
static char message[] = "stop it";
enum { NOTHING, ONE, TWO, PANIC, SIGNAL };
enum { K_ANY, K_ONE, K_FIN, K_GUARD, K_THROWS, K_SWITCH };
enum { S, U, R, H, F, D, X, A };
static const char *names[] = { "setup", "unwind", "release", "handler", "finally", "deferred", "terminate", "after" };
static struct { int what, level, exc; } ev[64];
static int nev, at, depth, kind[6], action, hooks, uncaught, terminated;
static uint32_t mask; static int nset; static char cookie[40], *set_by;
static ex_context_t *current[8]; static int ptr[8], seen[8];
static void expect(int what, int level, int exc) { sx_assert(nev < 63, "harness: too many events"); ev[nev].what = what; ev[nev].level = level; ev[nev].exc = exc; nev++; }
static void happens(int what, int level) { sx_assert(at < nev && ev[at].what == what && ev[at].level == level, names[what]); at++; }
static const char *name_of(int e) { return e == ONE ? EX_NAME(one) : e == TWO ? EX_NAME(two) : e == SIGNAL ? EX_NAME(sgnl) : NULL; }
static void is_exception(int e, const char *ex, const char *msg) {
    if (e == PANIC) sx_assert(ex && strcmp(ex, "panic") == 0 && msg == message, "the handlers are told the exception");
    else sx_assert(ex == name_of(e) && msg == NULL, "the handlers are told the exception");
}
static int flag_of(int k) { return (int)(mask >> k & 1); }
static void my_setup(ex_context_t *ctx, const char *ex, const char *msg) {
    int l = at < nev ? ev[at].level : 0;
    is_exception(at < nev ? ev[at].exc : 0, ex, msg);
    happens(S, l);
    sx_assert(ctx == ex_local() && ctx == current[l], "the handler is called for the context that unwinds");
    sx_assert(ex_uncaught_exception() == 0, "nothing is unwinding before the handler was called");
    sx_assert(!l || ptr[l] == 1 || seen[l], "nothing is released before the handler was called");
    seen[l] = 1; set_by = &cookie[nset];
    if (P("swap", 0)) ex_swap_set(ctx, set_by); else ex_data_set(ctx, set_by);
    if (flag_of(nset)) ex_unwind_set(ctx, true); else if (nset & 1) ex_unwind_set(ctx, false); /* it is not asked for unless it is */
    nset++;
}
static void my_unwind(void *data) {
    happens(U, ev[at].level);
    sx_assert(data == set_by, "unwinding is given what the handler set");
    sx_assert(ex_uncaught_exception() != 0, "unwinding can be asked for");
}
static void released(void *p) {
    int l = (int)((int *)p - ptr);
    happens(R, l); sx_assert(*(int *)p == 1, "what is protected is released once"); *(int *)p = 2;
    sx_assert(ex_uncaught_exception() != 0, "unwinding can be asked for");
}
static void deferred(void *p) { sx_assert((ex_uncaught_exception() != 0) == (ev[at].exc != 0), "unwinding can be asked for"); happens(D, (int)(intptr_t)p); }
static void on_terminate(void) { happens(X, 0); sx_assert(!(terminated & 1), "terminated once"); terminated |= 1; }
static void other_setup(ex_context_t *ctx, const char *ex, const char *msg) { (void)ctx; (void)ex; (void)msg; sx_assert(0, "a handler that is not set any more is not called"); }
static void other_unwind(void *p) { (void)p; sx_assert(0, "a handler that is not set any more is not called"); }
/* what has to happen; returns what leaves the level */
static int sets;
static void unwind_at(int l, int e) {
    int f = 0;
    if (hooks & 1) { f = flag_of(sets); expect(S, l, e); sets++; }
    if ((hooks & 2) && f) expect(U, l, e); else if (l) expect(R, l, e);
}
static int ref(int l) {
    int k = kind[l], e, handled = 0;
    e = l < depth ? ref(l + 1) : action;
    if (k == K_GUARD) {
        expect(D, l, e);
        if (!e) expect(A, l, 0);
        return e;
    }
    if (e) {
        unwind_at(l, e);
        if (k == K_ANY || k == K_THROWS || k == K_SWITCH || (k == K_ONE && e == ONE)) { expect(H, l, e); handled = 1; }
        if (handled && k == K_THROWS) { e = e == TWO ? ONE : TWO; handled = 0; if (hooks & 1) { int f = flag_of(sets++); expect(S, l, e); if ((hooks & 2) && f) expect(U, l, e); } }
        if (handled) e = 0;
    }
    if (k == K_FIN || k == K_ANY) expect(F, l, e);
    if (!e) expect(A, l, 0);
    return e;
}
static void innermost(void) {
    switch (action) { case ONE: throw(one); break; case TWO: throw(two); break; case PANIC: raii_panic(message); break; case SIGNAL: raise(SIGTERM); break; default: break; }
    sx_assert(action == NOTHING, "a throw does not return");
}
static void level(int l);
static void inside(int l) { sx_assert(ex_uncaught_exception() == 0, "a body is not unwinding"); if (l < depth) level(l + 1); else innermost(); }
static void a_guard(int l) {
    guard {
        current[l] = ex_local();
        _defer(deferred, (void *)(intptr_t)l);
        if (P("install", 0) && l == depth) { exception_setup_func = other_setup; exception_unwind_func = other_unwind; }
        inside(l);
    } guarded
}
#define CLEAN(n) do { sx_assert(ex_uncaught_exception() == 0, "a handler is not unwinding"); is_exception(ev[at].exc, ex_err.ex, ex_err.panic); happens(H, n); } while (0)
static void level(int l) {
    int *volatile p = &ptr[l]; ex_setup_func sf = exception_setup_func; ex_unwind_func uf = exception_unwind_func; ex_context_t *c0 = ex_local();
    ptr[l] = 1;
    switch (kind[l]) {
        case K_ANY: ex_try { current[l] = ex_local(); protected(p, released); inside(l); unprotected(p); } ex_catch_any { CLEAN(l); } ex_finally { sx_assert(ex_uncaught_exception() == 0, "a finally section is not unwinding"); happens(F, l); } ex_end_try; break;
        case K_ONE: ex_try { current[l] = ex_local(); protected(p, released); inside(l); unprotected(p); } ex_catch(one) { CLEAN(l); } ex_end_try; break;
        case K_FIN: ex_try { current[l] = ex_local(); protected(p, released); inside(l); unprotected(p); } ex_finally { sx_assert(ex_uncaught_exception() == 0, "a finally section is not unwinding"); happens(F, l); } ex_end_try; break;
        case K_THROWS: ex_try { current[l] = ex_local(); protected(p, released); inside(l); unprotected(p); } ex_catch_any { CLEAN(l); if (ex_err.ex == EX_NAME(two)) throw(one); else throw(two); } ex_end_try; break;
        case K_SWITCH: ex_try { current[l] = ex_local(); protected(p, released); inside(l); unprotected(p); } ex_catch_any { CLEAN(l); } ex_end_try; break;
        default: a_guard(l); break;
    }
    happens(A, l);
    sx_assert(ex_local() == c0 && exception_setup_func == sf && exception_unwind_func == uf, "the context and the handlers are what they were");
}
static void tdef(void *p) { (void)p; terminated |= 2; }
static void at_exit_(int code, int kind_) {
    (void)kind_;
    sx_assert(uncaught && code == EXIT_FAILURE, "an uncaught exception ends the process with the failure status");
    sx_assert(at == nev && terminated == 3, "everything that should happen did");
    sx_cover("uncaught");
}
int h_hooks(void) {
    int i, e, alt[8], n; long kinds = P("kinds", 0x1f), acts = P("acts", 0x1f); uint64_t live;
    raii_init(); ex_signal_setup(); ex_signal(SIGTERM, EX_NAME(sgnl));
    raii_defer(tdef, NULL);
    depth = (int)P("depth", 2);
    for (i = 1; i <= depth; i++) {
        int k, ks = i == 1 ? P("kinds0", kinds) : kinds;
        for (n = k = 0; k < 8; k++) if (ks >> k & 1) alt[n++] = k;
        kind[i] = alt[n == 1 ? 0 : sx_choose("kind", (uint32_t)n)];
    }
    for (n = i = 0; i < 5; i++) if (acts >> i & 1) alt[n++] = i;
    action = alt[n == 1 ? 0 : sx_choose("action", (uint32_t)n)];
    hooks = (int)P("hooks", 3); mask = sx_u32("mask");
    if (hooks & 1) exception_setup_func = my_setup;
    if (hooks & 2) exception_unwind_func = my_unwind;
    exception_terminate_func = on_terminate;
    kind[0] = 99; current[0] = ex_local();
    /* level 0 is the thread's own context */
    e = ref(1);
    if (e) { unwind_at(0, e); expect(X, 0, e); uncaught = 1; sx_on_exit(at_exit_); sx_expect_exit(EXIT_FAILURE); sx_cover("uncaught to be"); }
    live = sx_heap_live();
    level(1);
    sx_assert(!uncaught && at == nev, "everything that should happen did");
    sx_assert(ex_local() == current[0], "the context of the thread is current again");
    sx_assert(exception_setup_func == (hooks & 1 ? my_setup : NULL) && exception_unwind_func == (hooks & 2 ? my_unwind : NULL), "the handlers are what they were");
    sx_assert(sx_heap_live() == live, "nothing is leaked");
    sx_cover("completed");
    return 0;
}
