/* compat/sys/queue.h: Q01. Every program of a few list operations, against an array. */
#include <stddef.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "sx.h"
static void random_cookie(void *p, size_t n);
#define arc4random_buf random_cookie
#undef _SYS_QUEUE_H_
#undef SLIST_HEAD
#include "compat/sys/queue.h"
#define P(n, d) ((long)sx_param(n, d))
#define MAX 9
static int cookies;
static void random_cookie(void *p, size_t n) { uint64_t v = cookies++ % 2 ? 0 : P("cookie", 0) ? sx_u64("cookie") : 0xA5A5000012345671ull; memcpy(p, &v, n); }
struct el { uint32_t before; SLIST_ENTRY(el) s; LIST_ENTRY(el) l; SIMPLEQ_ENTRY(el) q; XSIMPLEQ_ENTRY(el) x; TAILQ_ENTRY(el) t; uint32_t after; };
SLIST_HEAD(shead, el); LIST_HEAD(lhead, el); SIMPLEQ_HEAD(qhead, el); XSIMPLEQ_HEAD(xhead, el); TAILQ_HEAD(thead, el);
static struct el *pool[MAX]; static int fresh; static uint32_t pay[MAX];
static int m[2][MAX], mn[2];
static struct shead *sh[2]; static struct lhead *lh[2]; static struct qhead *qh[2]; static struct xhead *xh[2]; static struct thead *th[2];
static void ins(int h, int at, int id) { int i; for (i = mn[h]++; i > at; i--) m[h][i] = m[h][i - 1]; m[h][at] = id; }
static void del(int h, int at) { int i; for (i = at; i + 1 < mn[h]; i++) m[h][i] = m[h][i + 1]; mn[h]--; }
static struct el *mk(void) { int i = fresh++; pool[i] = malloc(sizeof(struct el)); memset(pool[i], 0xEE, sizeof(struct el)); pay[i] = sx_u32("payload"); pool[i]->before = pay[i]; pool[i]->after = ~pay[i]; return pool[i]; }
static int where(int n) { return n == 1 ? 0 : (int)sx_choose("where", (uint32_t)n); }
static void is(struct el *e, int h, int i) { sx_assert(i < mn[h] && e == pool[m[h][i]], "a traversal visits the expected elements in order"); sx_assert(e->before == pay[m[h][i]] && e->after == ~pay[m[h][i]], "elements are not altered"); }
static struct el *mx(int h, int i) { return pool[m[h][i]]; }
#define ALL(h, n) do { sx_assert(i == mn[h], "a traversal visits every element"); } while (0)
/* 0 head 1 tail 2 after 3 before 4 remove 5 remove head 6 remove after 7 concat 8 replace 9 init 10 drain */
static int can(int kind, int op, int h) {
    switch (op) {
        case 0: return 1;
        case 1: return kind == 2 || kind == 3 || kind == 4;
        case 2: return mn[h] > 0;
        case 3: return mn[h] > 0 && (kind == 1 || kind == 4);
        case 4: return mn[h] > 0 && (kind == 0 || kind == 1 || kind == 4);
        case 5: return mn[h] > 0 && (kind == 0 || kind == 2 || kind == 3);
        case 6: return mn[h] > 1 && (kind == 0 || kind == 2 || kind == 3);
        case 7: return kind == 2 || kind == 4;
        case 8: return mn[h] > 0 && (kind == 1 || kind == 4);
        case 9: return 1;
        case 10: return 1;
    }
    return 0;
}
static void doop(int kind, int op, int h) {
    int w, i = 0; struct el *e, *n, *o;
    switch (op) {
        case 0: e = mk(); if (kind == 0) SLIST_INSERT_HEAD(sh[h], e, s); else if (kind == 1) LIST_INSERT_HEAD(lh[h], e, l); else if (kind == 2) SIMPLEQ_INSERT_HEAD(qh[h], e, q); else if (kind == 3) XSIMPLEQ_INSERT_HEAD(xh[h], e, x); else TAILQ_INSERT_HEAD(th[h], e, t); ins(h, 0, fresh - 1); break;
        case 1: e = mk(); if (kind == 2) SIMPLEQ_INSERT_TAIL(qh[h], e, q); else if (kind == 3) XSIMPLEQ_INSERT_TAIL(xh[h], e, x); else TAILQ_INSERT_TAIL(th[h], e, t); ins(h, mn[h], fresh - 1); break;
        case 2: w = where(mn[h]); o = mx(h, w); e = mk(); if (kind == 0) SLIST_INSERT_AFTER(o, e, s); else if (kind == 1) LIST_INSERT_AFTER(o, e, l); else if (kind == 2) SIMPLEQ_INSERT_AFTER(qh[h], o, e, q); else if (kind == 3) XSIMPLEQ_INSERT_AFTER(xh[h], o, e, x); else TAILQ_INSERT_AFTER(th[h], o, e, t); ins(h, w + 1, fresh - 1); break;
        case 3: w = where(mn[h]); o = mx(h, w); e = mk(); if (kind == 1) LIST_INSERT_BEFORE(o, e, l); else TAILQ_INSERT_BEFORE(o, e, t); ins(h, w, fresh - 1); break;
        case 4: w = where(mn[h]); o = mx(h, w); if (kind == 0) SLIST_REMOVE(sh[h], o, el, s); else if (kind == 1) LIST_REMOVE(o, l); else TAILQ_REMOVE(th[h], o, t); del(h, w); free(o); break;
        case 5: o = mx(h, 0); if (kind == 0) SLIST_REMOVE_HEAD(sh[h], s); else if (kind == 2) SIMPLEQ_REMOVE_HEAD(qh[h], q); else XSIMPLEQ_REMOVE_HEAD(xh[h], x); del(h, 0); free(o); break;
        case 6: w = where(mn[h] - 1); o = mx(h, w); e = mx(h, w + 1); if (kind == 0) SLIST_REMOVE_AFTER(o, s); else if (kind == 2) SIMPLEQ_REMOVE_AFTER(qh[h], o, q); else XSIMPLEQ_REMOVE_AFTER(xh[h], o, x); del(h, w + 1); free(e); break;
        case 7: if (kind == 2) SIMPLEQ_CONCAT(qh[h], qh[1 - h]); else TAILQ_CONCAT(th[h], th[1 - h], t); for (w = 0; w < mn[1 - h]; w++) m[h][mn[h]++] = m[1 - h][w]; mn[1 - h] = 0; break;
        case 8: w = where(mn[h]); o = mx(h, w); e = mk(); if (kind == 1) LIST_REPLACE(o, e, l); else TAILQ_REPLACE(th[h], o, e, t); m[h][w] = fresh - 1; free(o); break;
        case 9: mn[h] = 0; if (kind == 0) { SLIST_INIT(sh[h]); } else if (kind == 1) LIST_INIT(lh[h]); else if (kind == 2) SIMPLEQ_INIT(qh[h]); else if (kind == 3) XSIMPLEQ_INIT(xh[h]); else TAILQ_INIT(th[h]); break;
        case 10: /* removing the element visited, in a safe traversal */
            if (kind == 0) SLIST_FOREACH_SAFE(e, sh[h], s, n) { is(e, h, i++); SLIST_REMOVE_HEAD(sh[h], s); free(e); }
            else if (kind == 1) LIST_FOREACH_SAFE(e, lh[h], l, n) { is(e, h, i++); LIST_REMOVE(e, l); free(e); }
            else if (kind == 2) SIMPLEQ_FOREACH_SAFE(e, qh[h], q, n) { is(e, h, i++); SIMPLEQ_REMOVE_HEAD(qh[h], q); free(e); }
            else if (kind == 3) XSIMPLEQ_FOREACH_SAFE(e, xh[h], x, n) { is(e, h, i++); XSIMPLEQ_REMOVE_HEAD(xh[h], x); free(e); }
            else if (h) TAILQ_FOREACH_SAFE(e, th[h], t, n) { is(e, h, i++); TAILQ_REMOVE(th[h], e, t); free(e); }
            else TAILQ_FOREACH_REVERSE_SAFE(e, th[h], thead, t, n) { i++; is(e, h, mn[h] - i); TAILQ_REMOVE(th[h], e, t); free(e); }
            ALL(h, i); mn[h] = 0; break;
    }
}
static void look(int kind, int h) {
    int i = 0; struct el *e;
    if (kind == 0) { SLIST_FOREACH(e, sh[h], s) { is(e, h, i); sx_assert(SLIST_NEXT(e, s) == (i + 1 < mn[h] ? mx(h, i + 1) : NULL), "next"); i++; } sx_assert(!!SLIST_EMPTY(sh[h]) == (mn[h] == 0), "empty"); sx_assert(SLIST_FIRST(sh[h]) == (mn[h] ? mx(h, 0) : NULL), "first"); }
    else if (kind == 1) { LIST_FOREACH(e, lh[h], l) { is(e, h, i); sx_assert(LIST_NEXT(e, l) == (i + 1 < mn[h] ? mx(h, i + 1) : NULL), "next"); i++; } sx_assert(!!LIST_EMPTY(lh[h]) == (mn[h] == 0), "empty"); sx_assert(LIST_FIRST(lh[h]) == (mn[h] ? mx(h, 0) : NULL), "first"); }
    else if (kind == 2) { SIMPLEQ_FOREACH(e, qh[h], q) { is(e, h, i); sx_assert(SIMPLEQ_NEXT(e, q) == (i + 1 < mn[h] ? mx(h, i + 1) : NULL), "next"); i++; } sx_assert(!!SIMPLEQ_EMPTY(qh[h]) == (mn[h] == 0), "empty"); sx_assert(SIMPLEQ_FIRST(qh[h]) == (mn[h] ? mx(h, 0) : NULL), "first"); }
    else if (kind == 3) { XSIMPLEQ_FOREACH(e, xh[h], x) { is(e, h, i); sx_assert(XSIMPLEQ_NEXT(xh[h], e, x) == (i + 1 < mn[h] ? mx(h, i + 1) : NULL), "next"); i++; } sx_assert(!!XSIMPLEQ_EMPTY(xh[h]) == (mn[h] == 0), "empty"); sx_assert(XSIMPLEQ_FIRST(xh[h]) == (mn[h] ? mx(h, 0) : NULL), "first"); }
    else {
        TAILQ_FOREACH(e, th[h], t) { is(e, h, i); sx_assert(TAILQ_NEXT(e, t) == (i + 1 < mn[h] ? mx(h, i + 1) : NULL), "next"); sx_assert(TAILQ_PREV(e, thead, t) == (i ? mx(h, i - 1) : NULL), "previous"); i++; }
        sx_assert(!!TAILQ_EMPTY(th[h]) == (mn[h] == 0), "empty"); sx_assert(TAILQ_FIRST(th[h]) == (mn[h] ? mx(h, 0) : NULL), "first"); sx_assert(TAILQ_LAST(th[h], thead) == (mn[h] ? mx(h, mn[h] - 1) : NULL), "last");
        ALL(h, i); i = 0;
        TAILQ_FOREACH_REVERSE(e, th[h], thead, t) { i++; is(e, h, mn[h] - i); }
    }
    ALL(h, i);
}
int h_queue(void) {
    int kind = (int)P("kind", 4), ops = (int)P("ops", 3), start = (int)P("start", 0), i, h, two = (int)P("two", 0); long set = P("set", 0x7ff);
    for (h = 0; h < 2; h++) {
        sh[h] = malloc(sizeof *sh[0]); lh[h] = malloc(sizeof *lh[0]); qh[h] = malloc(sizeof *qh[0]); xh[h] = malloc(sizeof *xh[0]); th[h] = malloc(sizeof *th[0]);
        doop(kind, 9, h);
    }
    if (P("static", 0)) { struct shead a = SLIST_HEAD_INITIALIZER(*sh[0]); struct lhead b = LIST_HEAD_INITIALIZER(*lh[0]); struct qhead c = SIMPLEQ_HEAD_INITIALIZER(*qh[0]); struct thead d = TAILQ_HEAD_INITIALIZER(*th[0]); *sh[0] = a; *lh[0] = b; *qh[0] = c; *th[0] = d; }
    for (i = 0; i < start; i++) doop(kind, kind >= 2 ? 1 : 0, 0);
    look(kind, 0); look(kind, 1);
    for (i = 0; i < ops; i++) {
        int alt[24], n = 0, o, c;
        for (h = 0; h < (two ? 2 : 1); h++) for (o = 0; o < 11; o++) if ((set >> o & 1) && can(kind, o, h)) alt[n++] = o * 2 + h;
        c = alt[sx_choose("op", (uint32_t)n)];
        doop(kind, c / 2, c & 1);
        look(kind, 0); look(kind, 1);
    }
    sx_cover("done");
    return 0;
}
