/* Deferred functions and scope-bound memory: D01-D03 (and D04) over symbolic programs of registrations. */
#include "raii.h"
#include "sx.h"
#include <string.h>
#define P(n, d) ((long)sx_param(n, d))
#define MAXR 9000
/* the oracle: the stack of what is pending, newest last */
static struct { int fn; void *data; int kind; int dead; size_t idx; } st[MAXR];
static int top, ran, mode, firing = -1;
static unique_t *u; static memory_t *scope;
static void call(int fn, void *data);
static void f0(void *d) { call(0, d); }
static void f1(void *d) { call(1, d); }
static void f2(void *d) { call(2, d); }
static void f3(void *d) { call(3, d); }
static func_t fns[4] = { f0, f1, f2, f3 };
static size_t add(int fn, void *data, int kind) { /* register through one of the interfaces */
    size_t i = (size_t)-2;
    switch (mode) {
        case 0: i = raii_deferred(scope, fns[fn], data); break;
        case 1: i = raii_defer(fns[fn], data); break;
        case 2: raii_recover_by(scope, fns[fn], data); break;
        default: raii_recover(fns[fn], data); break;
    }
    sx_assert(top < MAXR, "harness limit");
    st[top].fn = fn; st[top].data = data; st[top].kind = kind; st[top].dead = 0; st[top].idx = i; top++;
    return i;
}
static void call(int fn, void *data) {
    int kind;
    if (firing >= 0) { /* fired by hand */
        int i = firing; firing = -1;
        sx_assert(st[i].fn == fn && st[i].data == data, "firing calls the function registered under that index, with its data");
        st[i].dead = 1; kind = st[i].kind;
    } else {
        while (top > 0 && st[top - 1].dead) top--;
        sx_assert(top > 0, "nothing is called that is not pending");
        top--;
        sx_assert(st[top].fn == fn, "the newest pending function is called next");
        sx_assert(st[top].data == data, "a deferred function gets the data it was registered with");
        kind = st[top].kind;
    }
    ran++;
    /* what this one does while it runs */
    if (kind == 1) add(3, (void *)0x31, 0);
    else if (kind == 2) { add(2, (void *)0x32, 1); add(3, (void *)0x33, 0); }
    else if (kind == 3) { int i; for (i = 0; i < 20; i++) add(i & 1, (void *)(uintptr_t)(0x40 + i), 0); }
    else if (kind == 4) { /* unwinding the same scope from inside runs the older ones now, and not again afterwards */
        if (scope == raii_local()) raii_deferred_clean(); else raii_deferred_free(scope);
    } else if (kind == 5) raii_panic("fired");
}
static void done(const char *msg) {
    while (top > 0 && st[top - 1].dead) top--;
    sx_assert(top == 0, msg);
}
static void open_scope(void) {
    if (P("thread", 0)) { raii_init(); scope = raii_local(); u = NULL; }
    else scope = u = unique_init();
}
static void unwind(long how) {
    if (how == 0) raii_deferred_free(scope);
    else if (how == 1) { if (u) raii_deferred_free(scope); else raii_deferred_clean(); }
    else if (how == 2) { raii_delete(scope); if (u) scope = u = NULL; }
    else if (u) free_arena(scope), scope = u = NULL;
    else raii_destroy();
}
int h_run(void) {
    int n = (int)P("n", 4), i, r, p1 = -1, p2 = -1, k1 = 0, k2 = 0; long how = P("how", 0), rounds = P("rounds", 1); uint64_t live0;
    if (P("thread", 0)) raii_init();
    live0 = sx_heap_live();
    open_scope();
    for (r = 0; r < rounds; r++) {
        if (n && P("nest", 0) >= 1) { p1 = (int)sx_choose("p1", n); k1 = 1 + (int)sx_choose("k1", 4); }
        if (n && P("nest", 0) >= 2) { p2 = (int)sx_choose("p2", n); k2 = 1 + (int)sx_choose("k2", 3); }
        mode = (int)P("mode", 0);
        for (i = 0; i < n; i++) {
            if (P("mode", 0) == 9) mode = (i & 1) ? 2 : 0;
            add((int)(i * 7 + i / 3) & 3, (void *)(uintptr_t)sx_u64("data"), i == p2 ? k2 : i == p1 ? k1 : 0);
        }
        if (mode > 3) mode = 0;
        ran = 0;
        unwind(how);
        done("unwinding calls everything that was deferred");
        sx_assert(ran >= n, "each one is called");
        ran = 0;
        if (scope && P("again", 1)) { raii_deferred_free(scope); sx_assert(ran == 0, "unwinding again calls nothing a second time"); sx_assert(raii_deferred_count(scope) == 0, "nothing is pending after unwinding"); }
        if (!scope) break;
    }
    if (u) raii_delete(u);
    sx_assert(ran == 0, "deleting an unwound scope calls nothing");
    if (!P("thread", 0)) sx_assert(sx_heap_live() == live0, "nothing is left of a deleted scope");
    sx_cover("done");
    return 0;
}
/* D02: cancel and fire */
static int live(int i) { return i < top && !st[i].dead; }
int h_cancel(void) {
    int n = (int)P("n", 4), ops = (int)P("ops", 2), i, k; uint64_t live0;
    if (P("thread", 0) || P("nest", 0)) { raii_init(); ex_signal_setup(); }
    live0 = sx_heap_live();
    open_scope();
    mode = (int)P("mode", 0);
    for (i = 0; i < n; i++) add(i & 3, (void *)(uintptr_t)sx_u64("data"), 0);
    for (k = 0; k < ops; k++) {
        int op = (int)sx_choose("op", 3), r0 = ran;
        if (op == 2) { add(k & 3, (void *)(uintptr_t)(0x90 + k), 0);
            for (i = 0; i < top - 1; i++) if (live(i)) sx_assert(st[i].idx != st[top - 1].idx, "no two pending functions have the same index");
            sx_cover("added"); continue; }
        if (top == 0) continue;
        if (P("sym", 0)) i = (int)sx_range("which", 0, n + ops);
        else if (P("pick", 0)) { static const int at[3] = { 0, 2, 17 }; int m = top / 2; i = (int)sx_choose("which", 6); i = i < 2 ? at[i] : i == 2 ? m : top - (i == 5 ? 17 : i - 2); if (i < 0 || i >= top) continue; }
        else if (top > 8 && n < 8) { i = (int)sx_choose("which", 6); if (i > 2) i = top - (i - 2); } /* among many, the first and last three */
        else i = (int)sx_choose("which", top);
        if (P("sym", 0)) sx_assume(i < top);
        if (!live(i)) continue;
        if (op == 0) {
            st[i].dead = 1;
            if (mode == 1) raii_defer_cancel(st[i].idx); else raii_deferred_cancel(scope, st[i].idx);
            sx_assert(ran == r0, "cancelling calls nothing");
            sx_cover("cancelled");
        } else {
            if (P("nest", 0)) st[i].kind = (int)sx_choose("kind", 6);
            firing = i;
            if (P("nest", 0)) {
                volatile int thrown = 0; int kind = st[i].kind;
                ex_try { if (mode == 1) raii_defer_fire(st[i].idx); else raii_deferred_fire(scope, st[i].idx); } ex_catch_any { thrown = 1; } ex_end_try;
                sx_assert(thrown == (kind == 5), "an exception of a fired function reaches the caller"); if (kind == 4) { done("unwinding calls everything that was deferred"); continue; }
                if (kind == 5) sx_cover("threw");
            }
            else if (mode == 1) raii_defer_fire(st[i].idx); else raii_deferred_fire(scope, st[i].idx);
            sx_assert(firing == -1 && ran == r0 + 1, "firing calls the function once, at once");
            sx_cover("fired");
        }
        /* slots cancelled at the end are gone: an index may be given out again */
        while (top > 0 && st[top - 1].dead) top--;
    }
    unwind(P("how", 0));
    done("the others are called when the scope unwinds");
    if (u) raii_delete(u);
    if (!P("thread", 0)) sx_assert(sx_heap_live() == live0, "nothing is left of a deleted scope");
    return 0;
}
