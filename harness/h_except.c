/* Exceptions and guards: E01-E07, D05, D06. A program (a tree of try statements, guard sections, throws, handlers, deferrals, protected
   pointers) is chosen step by step; a reference interpreter says what has to happen, in which order; the real macros have to do just that. */
#include "raii.h"
#include "sx.h"
#include <string.h>
#include <signal.h>
#define P(n, d) ((long)sx_param(n, d))
EX_EXCEPTION(one);
EX_EXCEPTION(two);
EX_EXCEPTION(sgnl);
extern const char EX_NAME(panic)[];
static char copy_of_one[] = "one";
static char message[] = "stop it";
enum { NOTHING, ONE, TWO, PANIC, COPY, SIGNAL, RETHROW, NEST, SIGNAL2, WITHMSG };
enum { K_CATCH, K_CATCH2, K_ANY, K_CATCHFIN, K_FIN, K_ANYFIN, K_GUARD, K_UNGUARD, K_IF, K_IFFIN, K_PLAIN };
enum { F_KIND, F_BODY, F_POST, F_HAND, F_FIN, F_NPRE, F_PACT0, F_PACT1, F_PACT2, F_PNULL, F_EXIT, F_N };
#define NODES 121
static signed char choice[NODES][F_N];
static int pick(int node, int field, long mask) { /* one of the alternatives in the mask */
    int alt[32], n = 0, i;
    if (choice[node][field]) return choice[node][field] - 1;
    for (i = 0; i < 31; i++) if (mask >> i & 1) alt[n++] = i;
    sx_assert(n > 0, "harness: no alternative");
    i = alt[n == 1 ? 0 : sx_choose("choice", (uint32_t)n)];
    choice[node][field] = (signed char)(i + 1);
    return i;
}
static int depth_of(int node) { int d = 1; while (node > 0) { node = (node - 1) / 3; d++; } return d; }
static int kind_of(int n) { return pick(n, F_KIND, n == 0 ? P("kinds0", P("kinds", 0x5ff)) : P("kinds", 0x5ff)); }
static int is_guard_kind(int k) { return k == K_GUARD || k == K_UNGUARD; }
static int body_of(int n) { return pick(n, F_BODY, depth_of(n) < P("depth", 2) ? P("bodyn", 1 << NEST) : P("body", 0xf)); }
static int post_of(int n) { return pick(n, F_POST, P("post", 1)); }
static int hand_of(int n) { return pick(n, F_HAND, depth_of(n) < P("depth", 2) ? P("handn", P("hand", 1)) : P("hand", 1)); }
static int fin_of(int n) { return pick(n, F_FIN, depth_of(n) < P("depth", 2) ? P("finn", P("fin", 1)) : P("fin", 1)); }
static int npre_of(int n) { return pick(n, F_NPRE, is_guard_kind(kind_of(n)) ? P("defs", 2) : P("prots", 1)); }
enum { D_NONE, D_REC1, D_REC2, D_RECM, D_RECX, D_THROW, D_TRY, D_GUARD, D_MSG, D_TWICE, D_PANIC };
static int pact_of(int n, int i) { return pick(n, F_PACT0 + i, is_guard_kind(kind_of(n)) ? P("dact", 1) : P("ract", 1)); }
static int null_of(int n) { return pick(n, F_PNULL, P("pnull", 1)); } /* which protected pointer is NULL or given up */
static int exit_of(int n) { return pick(n, F_EXIT, P("exit", 1)); }
/* what is expected */
enum { V_END, V_HAND, V_FIN, V_AFTER, V_REL, V_DEF, V_REC, V_IN, V_DIE };
static const char *vname[] = { "body", "handler", "finally", "after", "release", "deferred", "recover", "inner", "die" };
typedef struct { int act; } out_t; /* 0: none */
static struct { int type, node, k, act; } ev[400];
static int nev, at, dying, dead;
static void expect(int type, int node, int k, int act) { if (dying) return; sx_assert(nev < 399, "harness: too many events"); ev[nev].type = type; ev[nev].node = node; ev[nev].k = k; ev[nev].act = act; nev++; }
static const char *name_of(int act) { return act == ONE || act == WITHMSG ? EX_NAME(one) : act == TWO ? EX_NAME(two) : act == PANIC ? EX_NAME(panic) : act == COPY ? copy_of_one : act == SIGNAL ? EX_NAME(sgnl) : act == SIGNAL2 ? EX_NAME(two) : NULL; }
static const char *text_of(int act) { return act == PANIC || act == WITHMSG ? message : name_of(act); }
static int line_at[16]; static const char *file_at[16], *func_at[16]; static int copy_line;
static int run(int node);
static int interp(int node);
static void die(int node) { expect(V_DIE, node, 0, 0); dying = 1; }
static int ref_act(int node, int act, int cur, int child) { /* returns what is thrown, 0 if nothing */
    if (act == NOTHING) return 0;
    if (act == RETHROW) return cur;
    if (act == NEST) return interp(node * 3 + child);
    return act;
}
static int ref_pre_tail(int node, int from, int n, int act, int unwinding, int *rec) { /* deferred functions from .. 0 of a guard; returns what one of them throws */
    int i;
    for (i = from; i >= 0; i--) {
        int a = pact_of(node, i);
        expect(V_DEF, node, i, act);
        if (dying) return 0;
        if (a >= D_REC1 && a <= D_RECX) {
            const char *nm = a == D_REC1 ? "one" : a == D_REC2 ? "two" : a == D_RECM ? message : "other";
            int yes = act != 0 && strcmp(nm, text_of(act)) == 0;
            expect(V_REC, node, yes, act);
            if (yes) *rec = 1;
        }
        else if (a == D_TWICE) { /* asks two names; being told yes once is enough */
            int yes = act != 0 && strcmp("one", text_of(act)) == 0;
            expect(V_REC, node, yes, act); expect(V_REC, node, 0, act);
            if (yes) *rec = 1;
        }
        else if (a == D_MSG) expect(V_REC, node, 2, act);
        else if (a == D_TRY || a == D_GUARD) expect(V_IN, node, i, 0);
        else if (a == D_THROW || a == D_PANIC) {
            int t = a == D_PANIC ? PANIC : TWO;
            if (unwinding) { die(node); return 0; }
            ref_pre_tail(node, i - 1, n, t, 1, rec);
            return t;
        }
    }
    return 0;
}
static int interp(int node) {
    int k = kind_of(node), n = npre_of(node), a, i, rec = 0, handled = 0, o;
    /* body */
    a = body_of(node);
    o = ref_act(node, a, 0, 1);
    if (dying) return 0;
    if (!o) o = ref_act(node, post_of(node), 0, 1);
    if (!o) { expect(V_END, node, 0, 0); }
    if (dying) return 0;
    if (k == K_PLAIN) return o;
    if (is_guard_kind(k)) {
        int t;
        if (o) { ref_pre_tail(node, n - 1, n, o, 1, &rec); }
        else { t = ref_pre_tail(node, n - 1, n, 0, 0, &rec); if (t) o = t; }
        if (dying) return 0;
        if (o && rec) o = 0;
        if (!o) expect(V_AFTER, node, 0, 0);
        return o;
    }
    if (o) { /* protected pointers, newest first */
        for (i = n - 1; i >= 0; i--) {
            int z = null_of(node);
            if (z == 1 + i) continue; /* NULL */
            if (z >= 4 && i >= z - 4) continue; /* unprotected, and those after it */
            expect(V_REL, node, i, o);
            if (pact_of(node, i) == D_THROW || pact_of(node, i) == D_PANIC) { die(node); return 0; }
            if (pact_of(node, i) == D_TRY) expect(V_IN, node, i, 0);
        }
        /* which clause */
        if (k == K_ANY || k == K_ANYFIN) handled = 1;
        else if (k == K_IF || k == K_IFFIN) { handled = strcmp(name_of(o), "one") == 0 ? 1 : strcmp(name_of(o), "two") == 0 ? 2 : 3; }
        else if (k == K_CATCH || k == K_CATCHFIN) handled = name_of(o) == EX_NAME(one);
        else if (k == K_CATCH2) handled = name_of(o) == EX_NAME(one) ? 1 : name_of(o) == EX_NAME(two) ? 2 : 0;
        if (handled) {
            int h;
            expect(V_HAND, node, handled, o);
            if (dying) return 0;
            h = ref_act(node, hand_of(node), o, 2);
            if (dying) return 0;
            if (h && P("hprot", 0)) expect(V_REL, node, 3, h); /* protected by the handler */
            if (h) o = h; else if (handled != 3) { expect(V_END, node, 1, 0); }
            else expect(V_END, node, 1, 0);
            handled = (h == 0);
            if ((k == K_IF || k == K_IFFIN) && !h && ev[nev - 1].type == V_END) { /* an unmatched catch_if does not handle */
                int m = 0, q; for (q = nev - 1; q >= 0; q--) if (ev[q].type == V_HAND && ev[q].node == node) { m = ev[q].k; break; }
                if (m == 3) handled = 0;
            }
        }
        if (dying) return 0;
    }
    if (k == K_CATCHFIN || k == K_FIN || k == K_ANYFIN || k == K_IFFIN) {
        int f;
        expect(V_FIN, node, 0, o);
        f = ref_act(node, fin_of(node), 0, 3);
        if (dying) return 0;
        if (f) return f; /* replaces what was pending */
        expect(V_END, node, 2, 0);
    }
    if (o && !handled) return o;
    expect(V_AFTER, node, 0, 0);
    return 0;
}
/* what happens */
static sigset_t mask0; static int same_mask(void) { sigset_t m; int i; pthread_sigmask(SIG_SETMASK, NULL, &m); for (i = 1; i < 32; i++) if (sigismember(&m, i) != sigismember(&mask0, i)) return 0; return 1; }
static void happens(int type, int node, int k) {
    sx_assert(!dead, "nothing happens after the process was to end");
    sx_assert(at < nev, "nothing more happens than it should");
    sx_assert(ev[at].type == type && ev[at].node == node, vname[ev[at].type]);
    sx_assert(ev[at].k == k, "the right clause, function or answer");
    at++;
}
static void info(int act, const char *err, const char *file, int line, const char *msg, const char *func) {
    sx_assert(err == name_of(act), "the reported exception is the one that was thrown");
    if (!act) return;
    if (act == SIGNAL || act == SIGNAL2) { sx_assert(strcmp(file, "unknown") == 0 && line == 0, "a signal has no place"); }
    else sx_assert(file == file_at[act] && line == line_at[act] && strcmp(func, func_at[act]) == 0, "the reported place is that of the throw");
    sx_assert(msg == (act == PANIC || act == WITHMSG ? message : NULL), "a panic reports its message, others none");
}
static void act(int node, int a, int child, ex_context_t *cur) {
    switch (a) {
        case ONE: line_at[ONE] = __LINE__; file_at[ONE] = __FILE__; func_at[ONE] = __FUNCTION__; throw(one); break;
        case TWO: file_at[TWO] = __FILE__; func_at[TWO] = __FUNCTION__; line_at[TWO] = __LINE__; throw(two); break;
        case PANIC: file_at[PANIC] = __FILE__; func_at[PANIC] = __FUNCTION__; line_at[PANIC] = __LINE__; raii_panic(message); break;
        case WITHMSG: file_at[WITHMSG] = "there"; func_at[WITHMSG] = "f"; line_at[WITHMSG] = 12; ex_throw(EX_NAME(one), file_at[WITHMSG], 12, "f", message, NULL); break;
        case COPY: file_at[COPY] = "elsewhere"; func_at[COPY] = "f"; line_at[COPY] = copy_line; ex_throw(copy_of_one, file_at[COPY], copy_line, "f", NULL, NULL); break;
        case SIGNAL: raise(SIGUSR1); break;
        case SIGNAL2: raise(SIGTERM); break;
        case NEST: run(node * 3 + child); return;
        default: return;
    }
    sx_assert(0, "a statement after a throw does not run");
}
static void inner_try(int how) { int got = 0; volatile int *g = &got; ex_try { if (how) ex_throw(EX_NAME(two), "x", 1, "f", NULL, NULL); } ex_catch_any { *g = 1; } ex_end_try; sx_assert(got == how, "a try inside a deferred function works"); }
static int inner_ran; static void inner_rec(void *p) { (void)p; inner_ran++; sx_assert(_recover("inner"), "a guard inside a deferred function works"); }
static void inner_guard(void) { inner_ran = 0; guard { _defer(inner_rec, NULL); raii_panic("inner"); } guarded sx_assert(inner_ran == 1, "a guard inside a deferred function works"); }
/* memory of a guard, requested before and after its deferrals */
static unsigned char *blk[NODES][3];
static int below(int q, int node) { while (q > node) { int up = (q - 1) / 3; if (up == node) return q == node * 3 + 1; q = up; } return 0; }
static void gone(int node, int self) { int q; for (q = node; q < NODES; q++) if (blk[q][0] && ((self && q == node) || below(q, node))) { int k; for (k = 0; k < 3; k++) if (blk[q][k]) sx_assert(!sx_is_live(blk[q][k]), "the memory of a guard is released when it ends"); blk[q][0] = blk[q][1] = blk[q][2] = NULL; } }
static void holds(int node) { if (!blk[node][0]) return; sx_assert(sx_is_live(blk[node][0]) && blk[node][0][0] == node + 1 && blk[node][0][23] == 77, "memory requested before is still there"); sx_assert(!blk[node][1] || !sx_is_live(blk[node][1]), "memory requested later is gone"); sx_assert(!blk[node][2] || !sx_is_live(blk[node][2]), "memory requested later is gone"); }
static void deferred(void *p) {
    int id = (int)(intptr_t)p, node = id / 4, i = id % 4, a = pact_of(node, i), was;
    holds(node);
    happens(V_DEF, node, i);
    was = ev[at - 1].act;
    if (a >= D_REC1 && a <= D_RECX) { const char *nm = a == D_REC1 ? "one" : a == D_REC2 ? "two" : a == D_RECM ? message : "other"; int yes = a == D_REC1 ? _is_caught(one) : _recover(nm); happens(V_REC, node, yes); }
    else if (a == D_TWICE) { int yes = _is_caught(one); happens(V_REC, node, yes); yes = _recover("other"); happens(V_REC, node, yes); }
    else if (a == D_MSG) { const char *m = _get_message(); happens(V_REC, node, 2); sx_assert(was == 0 ? m == NULL : m == text_of(was), "deferred functions are told the message"); }
    else if (a == D_TRY) { inner_try(1); happens(V_IN, node, i); }
    else if (a == D_GUARD) { inner_guard(); happens(V_IN, node, i); }
    else if (a == D_THROW) { file_at[TWO] = __FILE__; func_at[TWO] = __FUNCTION__; line_at[TWO] = __LINE__; throw(two); sx_assert(0, "a statement after a throw does not run"); }
    else if (a == D_PANIC) { file_at[PANIC] = __FILE__; func_at[PANIC] = __FUNCTION__; line_at[PANIC] = __LINE__; raii_panic(message); sx_assert(0, "a statement after a throw does not run"); }
}
static int cell[NODES][4];
static void released(void *p) {
    int id, node, i, a;
    id = (int)((int *)p - &cell[0][0]); node = id / 4; i = id % 4; a = i == 3 ? D_NONE : pact_of(node, i);
    happens(V_REL, node, i);
    if (a == D_PANIC) { raii_panic(message); sx_assert(0, "a statement after a throw does not run"); }
    if (a == D_THROW) { throw(two); sx_assert(0, "a statement after a throw does not run"); }
    if (a == D_TRY) { inner_try(1); happens(V_IN, node, i); }
}
/* three protected pointers */
#define PROTECT() void *volatile p0 = &cell[node][0]; void *volatile p1 = &cell[node][1]; void *volatile p2 = &cell[node][2]; \
    if (n >= 1) { ex_ptr_p0p = &ex_protected_p0; ex_protect_ptr(&ex_protected_p0, (void *)&p0, released); } if (n >= 2) ex_protect_ptr(&ex_protected_p1, (void *)&p1, released); if (n >= 3) ex_protect_ptr(&ex_protected_p2, (void *)&p2, released); \
    if (z == 1) p0 = NULL; else if (z == 2) p1 = NULL; else if (z == 3) p2 = NULL; \
    else if (z == 4 && n >= 1) ex_unprotected_ptr(&ex_protected_p0); else if (z == 5 && n >= 2) unprotected(p1); else if (z == 6 && n >= 3) unprotected(p2);
#define BODY() do { act(node, body_of(node), 1, NULL); act(node, post_of(node), 1, NULL); happens(V_END, node, 0); } while (0)
#define TRY() ex_try { ex_ptr_t ex_protected_p0, ex_protected_p1, ex_protected_p2, *ex_ptr_p0p; (void)ex_ptr_p0p; PROTECT() BODY();
#define STATE(c) do { sx_assert(ex_local() == (c), "the current exception context is the right one"); sx_assert(raii_local()->arena == arena0, "the current guard scope is the right one"); sx_assert(same_mask(), "the signal mask is what it was"); } while (0)
#define HANDLER(cl) do { int was_; gone(node, 0); happens(V_HAND, node, cl); was_ = ev[at - 1].act; STATE(&ex_err); info(was_, err, err_file, err_line, ex_err.panic, ex_err.function); void *volatile hq_ = &cell[node][3]; ex_ptr_t hp_; if (P("hprot", 0)) ex_protect_ptr(&hp_, (void *)&hq_, released); if (hand_of(node) == RETHROW) { rethrow(); sx_assert(0, "a statement after a rethrow does not run"); } act(node, hand_of(node), 2, &ex_err); happens(V_END, node, 1); } while (0)
#define FINALLY() do { gone(node, 0); happens(V_FIN, node, 0); STATE(ex_err.next); info(ev[at - 1].act, err, err_file, err_line, ex_err.panic, ex_err.function); act(node, fin_of(node), 3, NULL); happens(V_END, node, 2); } while (0)
#define DEFERS() do { if (P("alloc", 0)) { blk[node][0] = _malloc(24); blk[node][0][0] = (unsigned char)(node + 1); blk[node][0][23] = 77; } if (n >= 1) _defer(deferred, (void *)(intptr_t)(node * 4)); if (n >= 2) _defer(deferred, (void *)(intptr_t)(node * 4 + 1)); if (n >= 3) _defer(deferred, (void *)(intptr_t)(node * 4 + 2)); if (P("alloc", 0)) { blk[node][1] = _calloc(3, 5); blk[node][2] = _malloc(1); blk[node][2][0] = 1; } } while (0)
static void my_setup(ex_context_t *c, const char *e, const char *m) { (void)e; (void)m; (void)c; }
static void my_unwind(void *p) { (void)p; }
static int in_guard(int node, int n) {
    int x = exit_of(node);
    guard {
        sx_assert(raii_local()->arena != NULL && is_guard(raii_local()->arena), "a guard has a scope");
        if (P("swap", 0) & 1) exception_setup_func = my_setup; if (P("swap", 0) & 2) exception_unwind_func = my_unwind;
        DEFERS();
        BODY();
        if (x == 1) break;
        if (x == 2) { _return(7); }
        if (x == 3) { unique_t *s; _assign_ptr(t); s = t; sx_assert((void *)s == (void *)raii_local()->arena, "the scope of the guard is at hand"); }
    } guarded
    return 9;
}
static int in_unguard(int node, int n) {
    int x = exit_of(node);
    guard {
        DEFERS();
        BODY();
        if (x == 1) break;
        if (x == 2) { _return(7); }
    } unguarded(8)
}
static int run(int node) {
    int k = kind_of(node), n = npre_of(node), z = is_guard_kind(k) ? 0 : null_of(node), r;
    ex_context_t *ctx0 = ex_init(); void *arena0 = raii_local()->arena; ex_setup_func sf = exception_setup_func; ex_unwind_func uf = exception_unwind_func;
    switch (k) {
        case K_CATCH: TRY() } ex_catch(one) { HANDLER(1); } ex_end_try; break;
        case K_CATCH2: TRY() } ex_catch(one) { HANDLER(1); } ex_catch(two) { HANDLER(2); } ex_end_try; break;
        case K_ANY: TRY() } ex_catch_any { HANDLER(1); } ex_end_try; break;
        case K_CATCHFIN: TRY() } ex_catch(one) { HANDLER(1); } ex_finally { FINALLY(); } ex_end_try; break;
        case K_FIN: TRY() } ex_finally { FINALLY(); } ex_end_try; break;
        case K_ANYFIN: TRY() } ex_catch_any { HANDLER(1); } ex_finally { FINALLY(); } ex_end_try; break;
        case K_IF: TRY() } ex_catch_if { if (caught(one)) HANDLER(1); else if (caught(two)) HANDLER(2); else HANDLER(3); } ex_end_try; break;
        case K_IFFIN: TRY() } ex_catch_if { if (caught(one)) HANDLER(1); else if (caught(two)) HANDLER(2); else HANDLER(3); } ex_finally { FINALLY(); } ex_end_try; break;
        case K_GUARD: r = in_guard(node, n); sx_assert(r == (exit_of(node) == 2 && ev[at > 0 ? at - 1 : 0].type != V_HAND ? r : 9), "the value"); if (exit_of(node) != 2) sx_assert(r == 9, "control goes on after the guard"); else sx_assert(r == 7 || r == 9, "_return returns its value"); break;
        case K_UNGUARD: r = in_unguard(node, n); if (exit_of(node) != 2) sx_assert(r == 8, "a guard returns its value"); else sx_assert(r == 7 || r == 8, "_return returns its value"); break;
        default: BODY(); return 0;
    }
    happens(V_AFTER, node, 0); gone(node, 1);
    STATE(ctx0);
    sx_assert(exception_setup_func == sf && exception_unwind_func == uf, "the handlers are what they were");
    return 0;
}
static int tdef[24], ntdef, nterm, nctrl, uncaught, sigd;
static int tdef_sum(void) { int i, r = 0; for (i = 0; i < 24; i++) r += tdef[i]; return r; }
static void thread_deferred(void *p) { int i = (int)(intptr_t)p; sx_assert(tdef[i] == 0, "a deferred function runs once"); tdef[i] = 1; sx_assert(i == ntdef - 1 - (tdef_sum() - 1), "newest first"); }
static void on_terminate(void) { nterm++; sx_assert(nterm == 1, "the terminate handler is called at most once"); }
static void on_exit_(int code, int kind) {
    if (!uncaught) return;
    sx_assert(dying || at == nev, "everything that should happen did");
    if (dying) { sx_assert(at == nev - 1 && ev[at].type == V_DIE, "everything that should happen did"); sx_cover("unwinding exception"); }
    else { int i; for (i = 0; i < ntdef; i++) sx_assert(tdef[i] == 1, "everything deferred on the thread's scope runs"); sx_cover("uncaught"); }
    sx_assert(nterm == 1, "the terminate handler is called");
    sx_assert(code == EXIT_FAILURE && (kind == 0 || kind == 1), "the process ends with the failure status");
    (void)kind;
}
int h_prog(void) {
    int o, i; uint64_t live0;
    raii_init();
    ex_signal_setup(); ex_signal(SIGUSR1, EX_NAME(sgnl)); ex_signal(SIGTERM, EX_NAME(two));
    pthread_sigmask(SIG_SETMASK, NULL, &mask0);
    copy_line = P("symline", 0) ? sx_s32("line") : -77;
    ntdef = (int)P("tdefs", 0); exception_terminate_func = on_terminate;
    raii_defer(thread_deferred, NULL); raii_defer_cancel(0);
    for (i = 0; i < ntdef; i++) raii_defer(thread_deferred, (void *)(intptr_t)i);
    o = interp(0);
    if (P("preset", 0) & 1) exception_setup_func = my_setup; if (P("preset", 0) & 2) exception_unwind_func = my_unwind;
    live0 = sx_heap_live();
    if (o || dying) { uncaught = 1; sx_on_exit(on_exit_); sx_expect_exit(EXIT_FAILURE); sx_cover("uncaught to be"); }
    run(0);
    sx_assert(!uncaught, "an uncaught exception does not return");
    sx_assert(at == nev, "everything that should happen did");
    sx_assert(ex_local() != NULL && ex_local()->next == NULL, "the context of the thread is current again");
    sx_assert(sx_heap_live() == live0, "nothing is leaked");
    if (P("twice", 0)) { at = 0; run(0); sx_assert(at == nev, "everything that should happen did"); }
    sx_cover("completed");
    return 0;
}

/* the names a deferred function can ask for, and the messages a panic can have: every byte */
static char msg_[8], ask_[8], nam_[8]; static int answers[2], asked, use_msg; static const char *told;
static void ask(void *p) { (void)p; told = _get_message(); answers[asked++] = _recover(ask_); }
int h_names(void) {
    int how = (int)sx_choose("how", 3), got = 0, after = 0, same, i, same2; size_t n = (size_t)P("n", 3), m = (size_t)P("m", 3); volatile int *g = &got, *f = &after; const char *volatile seen = NULL; const char *what;
    raii_init(); ex_signal_setup();
    sx_bytes(msg_, n, "msg"); sx_bytes(ask_, m, "ask"); sx_bytes(nam_, n, "name"); msg_[n] = ask_[m] = nam_[n] = 0;
    what = how == 0 ? msg_ : nam_;
    for (same = 1, i = 0; ; i++) { if (what[i] != ask_[i]) { same = 0; break; } if (!what[i]) break; }
    use_msg = (int)P("twice", 0);
    ex_try {
        guard {
            if (use_msg) _defer(ask, NULL);
            _defer(ask, NULL);
            if (how == 0) raii_panic(msg_); else if (how == 1) ex_throw(nam_, "f", 3, "fn", NULL, NULL); else ex_throw(EX_NAME(one), "f", 3, "fn", nam_, NULL);
        } guarded
        *f = 1;
    } ex_catch_any {
        *g = 1; seen = ex_err.panic ? ex_err.panic : ex_err.ex;
    } ex_end_try;
    (void)same2;
    sx_assert(asked == 1 + use_msg, "deferred functions run");
    sx_assert(told == what, "deferred functions are told the message");
    for (i = 0; i < asked; i++) sx_assert((answers[i] != 0) == same, "recovering answers whether the names are equal");
    sx_assert(after == same && got == !same, "a recovered error stops, another one goes on");
    if (got) sx_assert(seen == what, "what goes on is the same error");
    sx_cover(same ? "recovered" : "went on");
    return 0;
}
/* E05: signals */
static const int sigs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGINT, SIGTERM, SIGQUIT, SIGHUP, SIGWINCH, SIGTRAP, SIGALRM, SIGBUS };
static const char *own[] = { "sig_segv", "sig_abrt", "sig_fpe", "sig_ill", "sig_int", "sig_term", "sig_quit", "sig_hup", "sig_winch", "sig_trap", "sig_alrm", "sig_bus" };
static char tags[40][4];
static int deliver(int sg, const char *name, const char *text, int where) { /* the signal arrives as that exception */
    volatile int got = 0, fin = 0; const char *volatile e = NULL;
    ex_try {
        if (where == 1) { ex_try { raise(sg); } ex_catch(one) { sx_assert(name == EX_NAME(one), "another clause is not entered"); ex_throw(name, "unknown", 0, NULL, NULL, NULL); } ex_finally { fin++; } ex_end_try; }
        if (where == 2) { ex_try { raii_panic(message); } ex_catch_any { raise(sg); } ex_finally { fin += 2; } ex_end_try; }
        if (where == 0) raise(sg);
        sx_assert(0, "nothing after the signal runs");
    } ex_catch_any {
        got++; e = err; sx_assert(err_line == 0 && strcmp(err_file, "unknown") == 0, "a signal has no place"); sx_assert(ex_err.panic == NULL, "a signal has no message");
    } ex_end_try;
    sx_assert(got == 1, "a signal is delivered as an exception");
    if (name) sx_assert(e == name, "it is the exception registered for it");
    if (text) sx_assert(strcmp(e, text) == 0, "it is the exception registered for it");
    sx_assert(fin == where, "finally runs once");
    sx_assert(same_mask(), "the signal mask is what it was");
    return got;
}
int h_signal(void) {
    int k, n = (int)P("n", 3), rounds = (int)P("rounds", 2), s, where = (int)P("where", 0); const char *now[12] = { 0 }; static char names[6][8];
    raii_init(); ex_signal_setup(); pthread_sigmask(SIG_SETMASK, NULL, &mask0);
    for (k = 0; k < n; k++) {
        int i = (int)sx_choose("which", 12), op = (int)sx_choose("op", 2);
        if (op == 1) { names[k][0] = 'a' + (char)k; ex_signal(sigs[i], names[k]); now[i] = names[k]; sx_cover("registered"); }
        else for (s = 0; s < rounds; s++) { deliver(sigs[i], now[i], now[i] ? NULL : own[i], where); sx_cover("delivered"); }
    }
    for (k = 0; k < 12; k++) deliver(sigs[k], now[k], now[k] ? NULL : own[k], 0);
    return 0;
}
static int free_sigs[] = { 10, 12, 13, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 31, 34, 35, 36, 37, 38, 39 };
int h_table(void) { /* the table of registrations is full at 32 */
    int k, i, extra = (int)P("extra", 2), probe; struct sigaction sa;
    raii_init(); ex_signal_setup(); pthread_sigmask(SIG_SETMASK, NULL, &mask0);
    for (k = 0; k < 20 + extra; k++) { tags[k][0] = 'A' + (char)k; ex_signal(free_sigs[k], tags[k]); }
    for (k = 0; k < 20; k++) deliver(free_sigs[k], tags[k], NULL, 0);
    for (k = 20; k < 20 + extra; k++) { sigaction(free_sigs[k], NULL, &sa); sx_assert(sa.sa_handler == SIG_DFL, "a registration too many changes nothing"); }
    for (i = 0; i < 12; i++) deliver(sigs[i], NULL, own[i], 0);
    /* registered signals can still be given another exception */
    probe = (int)sx_choose("probe", 20);
    ex_signal(free_sigs[probe], EX_NAME(two)); ex_signal(sigs[probe % 12], EX_NAME(one));
    for (k = 0; k < 20; k++) deliver(free_sigs[k], k == probe ? EX_NAME(two) : tags[k], NULL, 0);
    for (i = 0; i < 12; i++) deliver(sigs[i], i == probe % 12 ? EX_NAME(one) : NULL, i == probe % 12 ? NULL : own[i], 0);
    ex_signal_default();
    for (i = 0; i < 12; i++) { sigaction(sigs[i], NULL, &sa); sx_assert(sa.sa_handler == SIG_DFL, "restoring the defaults gives every supported signal its default disposition"); }
    ex_try { i = 1; } ex_end_try;
    for (i = 0; i < 12; i++) deliver(sigs[i], NULL, own[i], 1);
    sx_cover("done");
    return 0;
}
int h_blocked(void) { /* a signal mask that blocks other signals is kept, and what is pending is delivered when it is unblocked */
    sigset_t m; int i = (int)sx_choose("blocked", 12), j = (int)sx_choose("raised", 12), k;
    raii_init(); ex_signal_setup(); if (i == j) sx_end();
    sigemptyset(&m); sigaddset(&m, sigs[i]); pthread_sigmask(SIG_BLOCK, &m, NULL); pthread_sigmask(SIG_SETMASK, NULL, &mask0);
    for (k = 0; k < 2; k++) deliver(sigs[j], NULL, own[j], 0);
    sx_cover("done");
    return 0;
}
int h_masked(void) { /* a handler of a signal changes the mask: the enclosing handler has the mask of its try */
    sigset_t m; int i = (int)sx_choose("signal", 12), j = (int)sx_choose("blocked", 13), how = (int)sx_choose("how", 3), k; volatile int got = 0;
    raii_init(); ex_signal_setup();
    for (k = 0; k < 2; k++) {
        sigemptyset(&m); pthread_sigmask(SIG_SETMASK, &m, NULL); pthread_sigmask(SIG_SETMASK, NULL, &mask0);
        ex_try {
            ex_try { raise(sigs[i]); } ex_catch_any {
                if (j < 12) { sigemptyset(&m); sigaddset(&m, sigs[j]); pthread_sigmask(SIG_BLOCK, &m, NULL); }
                if (how == 0) rethrow(); else if (how == 1) throw(one); else raii_panic(message);
            } ex_end_try;
        } ex_catch_any { got++; sx_assert(same_mask(), "the signal mask is what it was"); if (how) sx_assert(err == (how == 1 ? EX_NAME(one) : EX_NAME(panic)), "it is what the handler raised"); } ex_end_try;
        sx_assert(got == k + 1, "it reaches the outer handler");
        sx_assert(same_mask(), "the signal mask is what it was");
    }
    sx_cover("done");
    return 0;
}
/* E04: many protected pointers, some of them the same, some NULL, some given up */
static int order[64], norder; static int things[64];
static void let_go(void *p) { sx_assert(norder < 64, "a protected pointer is released once"); order[norder++] = (int)((int *)p - things); }
static void let_go2(void *p) { sx_assert(norder < 64, "a protected pointer is released once"); order[norder++] = 100 + (int)((int *)p - things); }
static void hold(int i, int n, int same, int up, int nul) { /* one frame for each */
    void *volatile p = &things[i], *volatile q = &things[i]; ex_ptr_t a, b; (void)q;
    if (i >= n) throw(one);
    ex_protect_ptr(&a, (void *)&p, let_go);
    if (i == same) ex_protect_ptr(&b, (void *)&p, let_go2);
    if (i == up) { ex_unprotected_ptr(i == same ? &b : &a); if (i == same) ex_unprotected_ptr(&a); }
    if (i == nul) p = NULL;
    hold(i + 1, n, same, up, nul);
}
int h_many(void) {
    int n = (int)P("n", 6), same = (int)sx_choose("same", (uint32_t)n + 1), up = (int)sx_choose("unprotected", (uint32_t)n + 1), nul = (int)sx_choose("null", (uint32_t)n + 1), i, k; volatile int got = 0;
    raii_init();
    for (k = 0; k < 2; k++) {
        int w = 0; norder = 0; got = 0;
        ex_try { hold(0, n, same, up, nul); } ex_catch(one) { got = 1; } ex_end_try;
        sx_assert(got == 1, "the exception is handled");
        for (i = n - 1; i >= 0; i--) {
            if (i == up || i == nul) continue;
            if (i == same) { sx_assert(order[w] == 100 + i, "protected pointers are released newest first, each once"); w++; }
            sx_assert(order[w] == i, "protected pointers are released newest first, each once"); w++;
        }
        sx_assert(w == norder, "nothing else is released");
    }
    sx_cover("done");
    return 0;
}
/* E06, E07 outside of any try block */
static int td_act, td_at, ctrl_expected, h_act, nmem; static unsigned char *tmem[2];
static void tmem_free(void *p) { sx_assert(p == tmem[1 - nmem], "the memory of the thread is released newest first"); nmem++; if (nmem == 1) sx_assert(tdef_sum() == 0, "newest first"); else sx_assert(tdef_sum() == ntdef, "newest first"); free(p); }
static const char *told_of(int a);
static int what_;
static void td(void *p) {
    int i = (int)(intptr_t)p; sx_assert(tdef[i] == 0, "a deferred function runs once"); tdef[i] = 1;
    if (tmem[0]) sx_assert(nmem == 1 && sx_is_live(tmem[0]) && tmem[0][0] == 'm', "memory requested before is still there");
    if (td_act == 0 && told_of(what_)) { const char *t = told_of(what_); sx_assert(raii_message() && strcmp(raii_message(), t) == 0, "deferred functions are told the message"); }
    if (i == td_at && td_act == 1) throw(two);
    if (i == td_at && td_act == 2) raii_panic(message);
    if (i == td_at && td_act == 3) inner_try(1);
    if (i == td_at && td_act == 4) inner_guard();
    if (i == td_at && td_act == 5) raise(SIGTERM);
    if (P("recov", 0) && (i == td_at || i == td_at + 1) && told_of(what_)) sx_assert(raii_caught(told_of(what_)), "a recovery function is asked for the name or message it recovers from");
    if (i == td_at) sx_assert(td_act == 0 || td_act == 3 || td_act == 4 || (td_act == 5 && tmem[0]) /* blocked while unwinding */, "a statement after a throw does not run");
}
static void ctrl_c(void) { nctrl++; sx_assert(ctrl_expected && nctrl == 1 && nterm == 0, "the ctrl-c handler is called once, after SIGINT only"); if (h_act == 2) raii_panic(message); if (h_act == 3) throw(two); if (h_act == 4) inner_try(1); }
static void at_end(void) { on_terminate(); if (h_act == 1) raii_panic(message); if (h_act == 5) throw(two); if (h_act == 6) inner_try(1); }
static void fin_uncaught(int code, int kind) {
    int i; for (i = 0; i < ntdef; i++) sx_assert(tdef[i] == 1, "everything deferred on the thread's scope runs");
    if (tmem[0]) sx_assert(nmem == 2, "the memory of the thread is released");
    sx_assert(nterm == (P("handlers", 1) ? 1 : 0), "the terminate handler is called once");
    if (td_act == 0 && ctrl_expected < 2) sx_assert(nctrl == (ctrl_expected && P("handlers", 1)), "the ctrl-c handler is called after SIGINT");
    sx_assert(code == EXIT_FAILURE && kind < 2, "the process ends with the failure status");
    sx_cover(td_act == 1 || td_act == 2 || td_act == 5 ? "raised while unwinding" : "uncaught");
}
static void thrower(int a) {
    switch (a) {
        case 0: throw(one); break; case 1: raii_panic(message); break; case 2: raise(SIGINT); break; case 3: raise(SIGSEGV); break;
        case 4: ex_try { throw(two); } ex_catch(one) { sx_assert(0, "another clause is not entered"); } ex_end_try; break;
        case 5: ex_try { throw(two); } ex_catch_any { throw(one); } ex_end_try; break;
        case 6: guard { _defer(deferred, NULL); at = 0; nev = 1; ev[0].type = V_DEF; choice[0][F_PACT0] = 1; raii_panic(message); } guarded break;
        case 7: abort();
        case 8: ex_try { raise(SIGINT); } ex_catch_any { } ex_end_try; ctrl_expected = 2; throw(one); break; /* either is fine */
        case 9: ex_try { throw(two); } ex_finally { } ex_end_try; break;
    }
}
static const char *told_of(int a) { return a == 0 || a == 5 || a == 8 ? EX_NAME(one) : a == 4 || a == 9 ? EX_NAME(two) : a == 1 ? message : NULL; }
int h_uncaught(void) {
    int a = (int)sx_choose("what", 10), i;
    raii_init(); ex_signal_setup();
    if (P("handlers", 1)) { exception_terminate_func = at_end; exception_ctrl_c_func = ctrl_c; }
    ntdef = (int)P("tdefs", 3); td_act = (int)sx_choose("act", (uint32_t)P("acts", 6)); td_at = ntdef ? (int)sx_choose("at", (uint32_t)ntdef) : 0; ctrl_expected = a == 2 || a == 8;
    if (!ntdef && td_act) sx_end();
    if (P("handlers", 1) && !td_act) h_act = (int)sx_choose("handler", (uint32_t)P("hacts", 7));
    what_ = a;
    if (P("mem", 0)) { tmem[0] = malloc_full(raii_local(), 24, tmem_free); tmem[0][0] = 'm'; }
    for (i = 0; i < ntdef; i++) if (P("recov", 0)) raii_recover(td, (void *)(intptr_t)i); else raii_defer(td, (void *)(intptr_t)i);
    if (P("mem", 0)) { tmem[1] = calloc_full(raii_local(), 2, 8, tmem_free); calloc_default(1, 8); }
    sx_on_exit(fin_uncaught); sx_expect_exit(EXIT_FAILURE);
    thrower(a);
    sx_assert(0, "an uncaught exception does not return");
    return 0;
}
/* a throw outside of try blocks by a function called through several frames, before the library was set up */
int h_first(void) {
    int a = (int)sx_choose("what", 2);
    sx_on_exit(NULL); sx_expect_exit(EXIT_FAILURE);
    if (a == 0) throw(one); else raii_panic(message);
    sx_assert(0, "an uncaught exception does not return");
    return 0;
}
