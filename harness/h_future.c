/* Futures and spawn scopes: T01-T05 (and the privacy of thread scopes, L01), over every schedule with few preemptions. */
#include "raii.h"
#include "sx.h"
#include <string.h>
#include <sched.h>
#define P(n, d) ((long)sx_param(n, d))
#define MAXT 40
EX_EXCEPTION(one);
EX_EXCEPTION(two);
static const char *msgs[MAXT] = { "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "ma", "mb", "mc", "md", "me", "mf", "mg", "mh", "mi", "mj", "mk", "ml", "mm", "mn", "mo", "mp", "mq", "mr", "ms", "mt", "mu", "mv", "mw", "mx", "my", "mz", "mA", "mB", "mC", "mD" };
enum { W_VALUE, W_ZERO, W_HEAP, W_THROW, W_PANIC, W_RECOVER, W_INNER, W_DEFTHROW, W_HANDLED, W_HEAP0, W_MIXED };
static int kind[MAXT], mode[MAXT]; static uint64_t val[MAXT]; static unsigned char blob[MAXT][24]; static raii_values_t direct[MAXT];
static int cnt[MAXT], fin[MAXT], deferred_ran[MAXT], released[MAXT], started[MAXT + 1]; static long argl[MAXT]; static void *argp[MAXT];
static size_t bsz[MAXT];
static void inc(int *p) { __atomic_fetch_add(p, 1, __ATOMIC_RELAXED); }
static int rd(int *p) { return __atomic_load_n(p, __ATOMIC_RELAXED); }
static void on_defer(void *p) { inc((int *)p); }
static void on_release(void *p) { inc((int *)p); }
static void recover_it(void *p) { int i = (int)(intptr_t)p; sx_assert(_recover(msgs[i]), "a thread's error can be recovered by its own deferred functions"); inc(&deferred_ran[i]); }
static void recover_then_ask(void *p) { int i = (int)(intptr_t)p; sx_assert(!_recover("another"), "another name does not match"); }
static void throw_it(void *p) { (void)p; throw(one); }
static void inner(int i, int recover) {
    guard {
        _defer(on_defer, &deferred_ran[i]);
        if (recover) { _defer(recover_then_ask, (void *)(intptr_t)i); _defer(recover_it, (void *)(intptr_t)i); }
        _malloc(5);
        raii_panic(msgs[i]);
    } guarded
}
static void_t work(int i, args_t a) {
    void_t r = NULL;
    inc(&cnt[i]);
    if (mode[i] == 0) { /* arguments by args_for */
        sx_assert(get_args(a, 0).long_long == argl[i] && get_args(a, 1).object == argp[i] && strcmp(get_args(a, 2).char_ptr, msgs[i]) == 0, "the function gets the arguments given");
    } else if (mode[i] == 1) sx_assert(get_arg(a).max_size == (size_t)argl[i], "the function gets the argument given");
    else sx_assert(a == NULL, "the function gets the argument given");
    if (P("own", 0)) { raii_defer(on_release, &released[i]); memset(malloc_default(9), i, 9); }
    switch (kind[i]) {
        case W_VALUE: r = (void_t)(uintptr_t)val[i]; break;
        case W_ZERO: r = thrd_value(0); break;
        case W_HEAP: case W_HEAP0: { size_t z = (size_t)P("hsize", 24); unsigned char *b = malloc(z); memcpy(b, blob[i], 24); if (z > 24) b[z - 1] = 77; r = thrd_returning(a, b, kind[i] == W_HEAP ? z : 0); break; }
        case W_THROW: throw(one); break;
        case W_PANIC: raii_panic(msgs[i]); break;
        case W_RECOVER: inner(i, 1); r = (void_t)(uintptr_t)val[i]; break;
        case W_INNER: inner(i, 0); break;
        case W_DEFTHROW: guard { _defer(on_defer, &deferred_ran[i]); _defer(throw_it, NULL); } guarded break;
        case W_HANDLED: { ex_try { throw(two); } ex_catch_any { inc(&deferred_ran[i]); } ex_end_try; r = (void_t)(uintptr_t)val[i]; break; }
        case W_MIXED: { ex_try { inner(i, 0); } ex_catch_any { inc(&deferred_ran[i]); } ex_end_try; throw(two); }
    }
    inc(&fin[i]);
    return r;
}
static void_t work0(args_t a) { return work(0, a); } static void_t work1(args_t a) { return work(1, a); } static void_t work2(args_t a) { return work(2, a); } static void_t work3(args_t a) { return work(3, a); }
static void_t work4(args_t a) { return work(4, a); } static void_t work5(args_t a) { return work(5, a); } static void_t work6(args_t a) { return work(6, a); } static void_t work7(args_t a) { return work(7, a); } static void_t work8(args_t a) { return work(8, a); }
#define WK(i) static void_t work##i(args_t a) { return work(i, a); }
WK(9) WK(10) WK(11) WK(12) WK(13) WK(14) WK(15) WK(16) WK(17) WK(18) WK(19) WK(20) WK(21) WK(22) WK(23)
WK(24) WK(25) WK(26) WK(27) WK(28) WK(29) WK(30) WK(31) WK(32) WK(33) WK(34) WK(35) WK(36) WK(37) WK(38) WK(39)
static thrd_func_t fns[MAXT] = { work0, work1, work2, work3, work4, work5, work6, work7, work8, work9, work10, work11, work12, work13, work14, work15, work16, work17, work18, work19, work20, work21, work22, work23, work24, work25, work26, work27, work28, work29, work30, work31, work32, work33, work34, work35, work36, work37, work38, work39 };
static int fails(int i) { return kind[i] == W_THROW || kind[i] == W_PANIC || kind[i] == W_INNER || kind[i] == W_DEFTHROW || kind[i] == W_MIXED; }
static void check_value(int i, values_type v) {
    if (kind[i] == W_HEAP || kind[i] == W_HEAP0) { sx_assert(sx_is_live(v.object) && sx_block_size(v.object) >= (uint64_t)P("hsize", 24) && memcmp(v.object, blob[i], 24) == 0 && (P("hsize", 24) == 24 || ((unsigned char *)v.object)[P("hsize", 24) - 1] == 77), "the getter gets the object returned"); }
    else sx_assert((uint64_t)(uintptr_t)v.object == (kind[i] == W_ZERO ? 0 : val[i]), "the getter gets the value returned");
}
static void check_error(int i, const char *ex, const char *panic) {
    sx_assert(fails(i), "no other exception is raised by the getter");
    if (kind[i] == W_THROW || kind[i] == W_DEFTHROW) sx_assert(ex == EX_NAME(one) && panic == NULL, "the getter raises the exception of the thread");
    else if (kind[i] == W_MIXED) sx_assert(ex == EX_NAME(two) && panic == NULL, "the getter raises the exception of the thread");
    else sx_assert(strcmp(ex, "panic") == 0 && panic == msgs[i], "the getter raises the panic of the thread");
}
static void check_run(int i) {
    sx_assert(rd(&cnt[i]) == 1, "the function ran once");
    if (!fails(i)) sx_assert(rd(&fin[i]) == 1, "the function has finished");
    if (kind[i] >= W_RECOVER && kind[i] <= W_HANDLED) sx_assert(rd(&deferred_ran[i]) == (kind[i] == W_RECOVER ? 2 : 1), "the thread's own deferrals ran");
    if (kind[i] == W_MIXED) sx_assert(rd(&deferred_ran[i]) == 2, "the thread's own deferrals ran");
    if (P("own", 0)) sx_assert(rd(&released[i]) == 1, "what the thread deferred on its own scope ran");
}
static void setup(int n) {
    int i; long kinds = P("kinds", 1), modes = P("modes", 1);
    raii_init(); ex_signal_setup();
    for (i = 0; i < n; i++) {
        int alt[16], m, k; kinds = i ? P("kinds", 1) : P("kinds0", P("kinds", 1));
        for (m = k = 0; k < 16; k++) if (kinds >> k & 1) alt[m++] = k;
        kind[i] = alt[m == 1 ? 0 : sx_choose("kind", (uint32_t)m)];
        for (m = k = 0; k < 3; k++) if (modes >> k & 1) alt[m++] = k;
        mode[i] = alt[m == 1 ? 0 : sx_choose("mode", (uint32_t)m)];
        if (mode[i] != 0 && (kind[i] == W_HEAP || kind[i] == W_HEAP0)) mode[i] = 0;
        argp[i] = &argl[i];
        if (P("sym", 1)) { val[i] = sx_u64("value"); argl[i] = sx_s64("arg"); sx_bytes(blob[i], 24, "blob"); } else { val[i] = 0x1000 + i; argl[i] = 0x2000 + i; memset(blob[i], 0x41 + i, 24); }
        if (mode[i] == 1) sx_assume((uint32_t)argl[i] != RAII_ARGS); /* else it is taken for a set of arguments */
        memset((void *)&direct[i], 0, sizeof direct[i]); memcpy((void *)&direct[i], &argl[i], 8);
    }
}
static void *arg_of(int i) { return mode[i] == 0 ? (void *)args_for("dps", argl[i], argp[i], msgs[i]) : mode[i] == 1 ? (void *)&direct[i] : NULL; }
static int yields; static void my_yield(void) { yields++; sched_yield(); }
static void get(future *f, int i, int how) {
    volatile int got = 0; values_type *volatile seen = NULL; int d;
    if (how == 1) { thrd_wait(f[i], my_yield); sx_assert(thrd_is_done(f[i]), "waiting ends when the thread is done"); sx_cover("waited"); }
    if (how == 2) { d = thrd_is_done(f[i]); if (d) { sx_assert(rd(&cnt[i]) == 1 && (fails(i) || rd(&fin[i]) == 1), "done is not claimed before the function has finished"); sx_assert(thrd_is_done(f[i]), "once done, always done"); sx_cover("polled done"); } else sx_cover("polled not done"); }
    ex_try {
        values_type v = thrd_get(f[i]);
        sx_assert(!fails(i), "getting the result of a thread that failed does not return");
        check_value(i, v);
        got = 1;
    } ex_catch_any {
        check_error(i, ex_err.ex, ex_err.panic);
        got = 2;
        sx_cover("raised");
    } ex_end_try;
    sx_assert(got == 1 + fails(i), "the getter gets a value or an exception");
    check_run(i);
    (void)seen;
}
int h_async(void) {
    int n = (int)P("n", 1), i, order = 0, count; future f[MAXT]; uint64_t live0; long how = P("how", 0);
    setup(n);
    raii_defer(on_defer, &started[4]); raii_deferred_clean();
    live0 = sx_heap_live(); raii_defer(on_defer, &started[0]); count = (int)raii_deferred_count(raii_local());
    for (i = 0; i < n; i++) { f[i] = thrd_async(fns[i], arg_of(i)); sx_assert(is_type(f[i], RAII_FUTURE), "a future is returned"); }
    if (n > 1 && P("order", 0)) order = (int)sx_choose("order", 2);
    if (P("busy", 0)) { raii_defer(on_defer, &started[1]); memset(malloc_default(7), 1, 7); guard { _defer(on_defer, &started[2]); } guarded ex_try { throw(two); } ex_catch(two) { started[3]++; } ex_end_try; sx_assert(rd(&started[2]) == 1 && started[3] == 1, "the thread goes on meanwhile"); }
    for (i = 0; i < n; i++) get(f, order ? n - 1 - i : i, (int)how);
    /* values stay until the scope ends */
    sx_assert(rd(&started[0]) == 0 && rd(&started[1]) == 0, "other threads do not run this thread's deferrals");
    sx_assert((int)raii_deferred_count(raii_local()) >= count, "other threads do not take this thread's deferrals");
    raii_deferred_clean();
    sx_assert(rd(&started[0]) == 1 && rd(&started[1]) == (P("busy", 0) ? 1 : 0), "the thread's deferrals run");
    sx_assert(sx_heap_live() == live0, "everything allocated for futures is released");
    sx_cover("done");
    return 0;
}
/* spawn and sync */
static int thens; static result_t res[MAXT]; static int visited[MAXT];
static void_t then(void_t data, size_t id, values_type v) { sx_assert(data == (void_t)&thens, "the then-callback gets what the last one returned"); while (visited[thens]) thens++; sx_assert((int)id == thens, "the then-callback visits the results in spawn order"); check_value((int)id, v); thens++; return data; }
int h_spawn(void) {
    int n = (int)P("n", 2), i, failed = 0, spawn_ex = (int)P("ex", 0), again = (int)P("again", 0), upto; future_t pool; uint64_t live0; volatile int got = 0;
    setup(n);
    live0 = sx_heap_live();
    pool = thrd_scope();
    sx_assert(is_type(pool, RAII_SPAWN), "a thread scope is returned");
    for (upto = 0; upto < n;) {
        int from = upto; upto = again ? upto + 1 : n; got = 0;
        for (i = from; i < upto; i++) {
            if (spawn_ex) { mode[i] = 0; res[i] = thrd_spawn_ex(fns[i], "dps", argl[i], argp[i], msgs[i]); } else res[i] = thrd_spawn(fns[i], arg_of(i));
            sx_assert(is_type(res[i], RAII_VALUE), "a result handle is returned");
            failed = fails(i) ? 1 : failed;
        }
        ex_try { thrd_result(res[from]); got = 1; } ex_catch_any { got = 2; sx_assert(ex_err.ex && strcmp(ex_err.ex, "logic_error") == 0, "before synchronisation reading a result throws"); } ex_end_try;
        sx_assert(got == 2, "before synchronisation reading a result throws");
        if (P("poll", 0) && thrd_is_finish(pool)) { for (i = 0; i < upto; i++) sx_assert(rd(&cnt[i]) == 1 && (fails(i) || rd(&fin[i]) == 1), "a scope is not finished before its functions are"); sx_cover("finished early"); }
        for (i = from; i < upto; ) {
            volatile int at = i; int k; got = 0;
            ex_try { sx_assert(thrd_sync(pool) == pool, "synchronising returns the scope"); got = 1; } ex_catch_any { got = 2; for (k = at; k < upto && !fails(k); k++) ; sx_assert(k < upto, "no other exception is raised"); check_error(k, ex_err.ex, ex_err.panic); sx_cover("raised"); } ex_end_try;
            if (got == 1) { for (k = at; k < upto; k++) sx_assert(!fails(k), "synchronising with a thread that failed does not return"); break; }
            for (k = i; k < upto && !fails(k); k++) ; i = k + 1;
            if (i == upto) { ex_try { thrd_sync(pool); } ex_catch_any { sx_assert(0, "an exception is raised once"); } ex_end_try; }
        }
        for (i = from; i < upto; i++) check_run(i);
        sx_assert(thrd_is_finish(pool), "after synchronisation the scope is finished");
    }
    for (i = 0; i < n; i++) {
        got = 0;
        ex_try { values_type v = thrd_result(res[i]); check_value(i, v); got = 1; } ex_catch_any { got = 2; } ex_end_try;
        sx_assert(got == 1 + fails(i), "the result handle holds the value of its function");
        visited[i] = fails(i);
    }
    thrd_then(then, pool, &thens);
    while (thens < n && visited[thens]) thens++;
    sx_assert(thens == n, "the then-callback visits every result");
    thrd_destroy(pool);
    got = 0;
    ex_try { thrd_spawn(fns[0], NULL); got = 1; } ex_catch_any { got = 2; } ex_end_try;
    sx_assert(got == 2, "without a thread scope nothing is spawned");
    raii_deferred_clean();
    sx_assert(sx_heap_live() == live0, "everything allocated for the thread scope is released");
    sx_cover("done");
    return 0;
}
/* a failing allocation while futures are made */
int h_nomem(void) {
    int n = P("first", 0) ? 2 : 1, k, spawn = (int)P("spawn", 0); volatile int got = 0; uint64_t live1; void *a; future f[MAXT]; future_t pool = NULL;
    setup(n); mode[0] = 2; mode[1] = 2;
    raii_defer(on_defer, &started[0]); raii_deferred_clean();
    live1 = sx_heap_live();
    if (spawn) pool = thrd_scope();
    if (P("first", 0)) { if (spawn) res[1] = thrd_spawn(fns[1], NULL); else f[1] = thrd_async(fns[1], NULL); if (spawn) while (!thrd_is_finish(pool)) sched_yield(); else thrd_wait(f[1], my_yield); /* the failing allocation is ours */ }
    k = (int)sx_choose("failing", 7); if (k) sx_fail_alloc(k); else sx_fail_thread(1); (void)a;
    ex_try { if (spawn) res[0] = thrd_spawn(fns[0], NULL); else f[0] = thrd_async(fns[0], NULL); got = 1; } ex_catch_any { got = 2; } ex_end_try;
    if (got == 2) { sx_assert(sx_failed(), "a call fails for want of memory or threads only"); sx_fail_alloc(0); if (!k) sx_cover("no thread"); sx_cover("failed"); sx_assert(rd(&cnt[0]) == 0, "no thread is started by a call that fails");
        if (P("first", 0)) { /* the one started before is not affected */
            if (spawn) { thrd_sync(pool); check_value(1, thrd_result(res[1])); thrd_destroy(pool); raii_deferred_clean(); } else { get(f, 1, 0); raii_deferred_clean(); }
            sx_assert(sx_heap_live() == live1, "a failing call keeps nothing"); sx_assert(rd(&cnt[1]) == 1, "the function ran once"); return 0; }
        if (!spawn) { raii_deferred_clean(); sx_assert(sx_heap_live() == live1, "a failing call keeps nothing"); return 0; }
        if (P("gone", 0)) { thrd_destroy(pool); raii_deferred_clean(); sx_assert(sx_heap_live() == live1, "a failing call keeps nothing"); return 0; }
        res[0] = thrd_spawn(fns[0], NULL); }
    sx_fail_alloc(0);
    if (spawn) { thrd_sync(pool); check_value(0, thrd_result(res[0])); if (P("first", 0)) check_value(1, thrd_result(res[1])); thrd_destroy(pool); sx_assert(rd(&cnt[0]) == 1, "the function ran once"); } else { get(f, 0, 0); if (P("first", 0)) get(f, 1, 0); }
    raii_deferred_clean();
    sx_assert(sx_heap_live() == live1, "nothing is left behind");
    sx_cover("done");
    return 0;
}

/* no memory in a thread: what it returns, what it defers, an inner section */
static int tk, twhat, tran; static void bump(void *p) { inc((int *)p); }
static void tguard(void) { guard { _defer(bump, &tran); _malloc(10); } guarded }
static void_t starved(args_t a) {
    void_t r = NULL, b = NULL;
    inc(&cnt[0]);
    sx_assert(get_args(a, 0).integer == 1, "the function gets the arguments given");
    if (twhat == 0) { b = malloc(40); memset(b, 3, 40); }
    sx_fail_alloc((uint64_t)tk);
    if (twhat == 0) r = thrd_returning(a, b, 40);
    else if (twhat == 1) { raii_defer(bump, &tran); r = thrd_value(7); }
    else { tguard(); r = thrd_value(7); }
    sx_fail_alloc(0);
    inc(&fin[0]);
    return r;
}
static void got_it(values_type v) {
    if (twhat == 0) { int i; sx_assert(sx_is_live(v.object), "the getter gets the object returned"); for (i = 0; i < 40; i++) sx_assert(((char *)v.object)[i] == 3, "the getter gets the object returned"); }
    else sx_assert(v.integer == 7, "the getter gets the value returned");
}
int h_retfail(void) {
    int spawn = (int)P("spawn", 0), got = 0; uint64_t live1; volatile int ok = 0; volatile future f = NULL; volatile future_t pool = NULL; const char *volatile msg = NULL; result_t r = NULL;
    kind[0] = 1; twhat = (int)sx_choose("what", 3); tk = 1 + (int)sx_choose("failing", 4);
    setup(1); raii_defer(on_defer, &started[0]); raii_deferred_clean(); live1 = sx_heap_live();
    ex_try {
        if (spawn) { pool = thrd_scope(); r = thrd_spawn(starved, args_for("d", 1)); thrd_sync(pool); }
        else f = thrd_async(starved, args_for("d", 1));
        got_it(spawn ? thrd_result(r) : thrd_get(f));
        ok = 1;
    } ex_catch_any { got = 1; msg = ex_err.panic; } ex_end_try;
    sx_assert(got + ok == 1 && rd(&cnt[0]) == 1, "the function ran once");
    if (got) { sx_assert(rd(&fin[0]) == 0, "no exception is raised unless the thread failed"); sx_assert(msg != NULL && msg[0], "the failure of a thread is a panic with a message"); sx_cover("raised"); }
    else { sx_assert(rd(&fin[0]) == 1, "the function has finished"); sx_cover("done"); }
    if (pool) thrd_destroy(pool);
    raii_deferred_clean();
    sx_assert(sx_heap_live() == live1, "nothing is left behind");
    if (twhat) sx_assert(rd(&tran) <= 1 && (got || rd(&tran) == 1), "what the thread deferred ran once");
    return 0;
}
