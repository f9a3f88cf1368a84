/* compat/sys/tree.h: Q02. Inserts and removals with arbitrary distinct keys, against a set. */
#include <stddef.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "sx.h"
#ifndef __unused
#define __unused __attribute__((__unused__))
#endif
#include "compat/sys/tree.h"
#define P(n, d) ((long)sx_param(n, d))
#define MAX 16
struct el { int32_t key; uint32_t before; RB_ENTRY(el) r; SPLAY_ENTRY(el) s; uint32_t after; };
RB_HEAD(rtree, el); SPLAY_HEAD(stree, el);
static int cmp(struct el *a, struct el *b) { return a->key < b->key ? -1 : a->key > b->key; }
RB_PROTOTYPE(rtree, el, r, cmp)
RB_GENERATE(rtree, el, r, cmp)
SPLAY_PROTOTYPE(stree, el, s, cmp)
SPLAY_GENERATE(stree, el, s, cmp)
static struct rtree *rt; static struct stree *st; static int kind;
static struct el *pool[MAX]; static int in[MAX], made, left;
static struct el *ins(struct el *e) { return kind ? SPLAY_INSERT(stree, st, e) : RB_INSERT(rtree, rt, e); }
static struct el *del(struct el *e) { return kind ? SPLAY_REMOVE(stree, st, e) : RB_REMOVE(rtree, rt, e); }
static struct el *find(struct el *e) { return kind ? SPLAY_FIND(stree, st, e) : RB_FIND(rtree, rt, e); }
static int depth, nodes;
static int shape(struct el *e, struct el *up) { /* black height, or -1 */
    int a, b;
    if (!e) return 0;
    sx_assert(++nodes <= made, "a tree has no cycle");
    sx_assert(sx_is_live(e), "a tree holds live elements");
    sx_assert(RB_PARENT(e, r) == up, "parents are right");
    if (RB_COLOR(e, r) == RB_RED) sx_assert(up && RB_COLOR(up, r) == RB_BLACK, "no red element has a red parent"); else sx_assert(RB_COLOR(e, r) == RB_BLACK, "colours are red and black");
    a = shape(RB_LEFT(e, r), e); b = shape(RB_RIGHT(e, r), e);
    sx_assert(a == b, "every path has as many black elements");
    return a + (RB_COLOR(e, r) == RB_BLACK);
}
static void look(void) {
    int n = 0, i, seen[MAX] = { 0 }; struct el *e, *last = NULL, *first = NULL;
    if (kind) {
        SPLAY_FOREACH(e, stree, st) { for (i = 0; i < made && !(in[i] && pool[i] == e); i++) ; sx_assert(i < made && in[i] && !seen[i]++, "a traversal visits the elements in the tree, once"); sx_assert(!last || last->key < e->key, "a traversal is in order"); if (!last) first = e; last = e; n++; }
        sx_assert(n == left, "a traversal visits every element"); sx_assert(!!SPLAY_EMPTY(st) == (left == 0), "empty");
        sx_assert(SPLAY_MAX(stree, st) == last, "the maximum"); sx_assert(SPLAY_MIN(stree, st) == first, "the minimum");
        return;
    }
    nodes = 0; shape(RB_ROOT(rt), NULL); sx_assert(nodes == left, "the tree has the elements inserted and not removed");
    RB_FOREACH(e, rtree, rt) { for (i = 0; i < made && !(in[i] && pool[i] == e); i++) ; sx_assert(i < made && in[i] && !seen[i]++, "a traversal visits the elements in the tree, once"); sx_assert(!last || last->key < e->key, "a traversal is in order"); if (!last) first = e; last = e; n++; }
    sx_assert(n == left, "a traversal visits every element"); sx_assert(!!RB_EMPTY(rt) == (left == 0), "empty");
    sx_assert(RB_MIN(rtree, rt) == first && RB_MAX(rtree, rt) == last, "the minimum and maximum");
    last = NULL; n = 0;
    RB_FOREACH_REVERSE(e, rtree, rt) { for (i = 0; i < made && !(in[i] && pool[i] == e); i++) ; sx_assert(i < made && seen[i]++ == 1, "a reverse traversal visits the elements in the tree, once"); sx_assert(!last || last->key > e->key, "a reverse traversal is in reverse order"); last = e; n++; }
    sx_assert(n == left, "a reverse traversal visits every element");
}
static void payload(void) { int i; for (i = 0; i < made; i++) if (in[i]) sx_assert(pool[i]->before == 0x1234u + i && pool[i]->after == 0x4321u + i, "elements are not altered"); }
static void insert(int32_t key) { struct el *e = malloc(sizeof *e); memset(e, 0xEE, sizeof *e); e->key = key; e->before = 0x1234u + made; e->after = 0x4321u + made; pool[made] = e; in[made++] = 1; left++; sx_assert(ins(e) == NULL, "a new key is inserted"); }
static void again(int32_t key, int w) { struct el *e = malloc(sizeof *e); memset(e, 0, sizeof *e); e->key = key; sx_assert(ins(e) == pool[w], "inserting a key again returns the element there is"); free(e); look(); }
static void remove_(int w) { struct el *e = pool[w]; sx_assert(del(e) == e, "removing returns the element"); in[w] = 0; left--; free(e); }
static void query(void) {
    struct el *k = malloc(sizeof *k), *e, *want = NULL, *next = NULL; int i;
    memset(k, 0, sizeof *k); k->key = sx_s32("query");
    e = find(k);
    for (i = 0; i < made; i++) if (in[i]) { if (pool[i]->key == k->key) want = pool[i]; if (pool[i]->key >= k->key && (!next || pool[i]->key < next->key)) next = pool[i]; }
    sx_assert(e == want, "find returns the element with the key, if there is one");
    if (!kind) sx_assert(RB_NFIND(rtree, rt, k) == next, "nfind returns the least element not below");
    else if (!want) { sx_assert(SPLAY_REMOVE(stree, st, k) == NULL, "removing a key that is not there does nothing"); }
    if (want) sx_cover("found"); else sx_cover("not found");
    free(k); look();
}
int h_tree(void) {
    int n = (int)P("n", 3), rm = (int)P("rm", 1), i, j, mix = (int)P("mix", 0); int32_t keys[MAX]; long order = P("order", 0);
    kind = (int)P("kind", 0);
    rt = malloc(sizeof *rt); st = malloc(sizeof *st);
    if (P("static", 0)) { struct rtree a = RB_INITIALIZER(rt); struct stree b = SPLAY_INITIALIZER(st); *rt = a; *st = b; } else { RB_INIT(rt); SPLAY_INIT(st); }
    for (i = 0; i < n; i++) {
        keys[i] = sx_s32("key");
        if (order == 1 && i) sx_assume(keys[i - 1] < keys[i]); else if (order == 2 && i) sx_assume(keys[i - 1] > keys[i]); else if (order == 3 && i > 1) sx_assume(i & 1 ? keys[i] < keys[i - 2] : keys[i] > keys[i - 2]); else for (j = 0; j < i; j++) sx_assume(keys[i] != keys[j]);
        if (order == 3 && i == 1) sx_assume(keys[1] < keys[0]);
        insert(keys[i]);
        if (!P("late", 0) || i == n - 1) look();
    }
    if (P("dup", 0)) { i = (int)sx_choose("dup", (uint32_t)n); again(keys[i], i); }
    for (i = 0; i < rm && left; i++) {
        int alt[MAX], m = 0;
        for (j = 0; j < made; j++) if (in[j]) alt[m++] = j;
        remove_(alt[m == 1 ? 0 : sx_choose("which", (uint32_t)m)]);
        look();
        if (mix) { int32_t k = sx_s32("new"); for (j = 0; j < made; j++) if (in[j]) sx_assume(k != pool[j]->key); insert(k); look(); }
    }
    if (P("query", 0)) query();
    payload();
    sx_cover("done");
    return 0;
}
