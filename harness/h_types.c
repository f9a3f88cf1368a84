/* Type predicates: V01, for every tag. */
#include "raii.h"
#include "sx.h"
#include <string.h>
#define P(n, d) ((long)sx_param(n, d))
static int value_tag(uint32_t t) {
    switch (t) {
        case RAII_INT: case RAII_ENUM: case RAII_INTEGER: case RAII_UINT: case RAII_SLONG: case RAII_ULONG: case RAII_LLONG: case RAII_MAXSIZE: case RAII_FLOAT: case RAII_DOUBLE: case RAII_BOOL: case RAII_SHORT: case RAII_USHORT:
        case RAII_CHAR: case RAII_UCHAR: case RAII_UCHAR_P: case RAII_CHAR_P: case RAII_CONST_CHAR: case RAII_STRING: case RAII_ARRAY: case RAII_HASH: case RAII_OBJ: case RAII_PTR: case RAII_FUNC: return 1;
    }
    return 0;
}
static int instance_tag(uint32_t t) {
    switch (t) {
        case RAII_DEF_ARR: case RAII_DEF_FUNC: case RAII_ROUTINE: case RAII_OA_HASH: case RAII_REFLECT_TYPE: case RAII_REFLECT_INFO: case RAII_REFLECT_VALUE: case RAII_MAP_VALUE: case RAII_MAP_STRUCT: case RAII_MAP_ITER: case RAII_MAP_ARR:
        case RAII_ERR_PTR: case RAII_ERR_CONTEXT: case RAII_PROMISE: case RAII_FUTURE: case RAII_FUTURE_ARG: case RAII_EVENT_ARG: case RAII_ARGS: case RAII_PROCESS: case RAII_SCHED: case RAII_CHANNEL: case RAII_STRUCT: case RAII_UNION: case RAII_VALUE: return 1;
    }
    return 0;
}
int h_tags(void) {
    var_t *a = malloc(sizeof *a), *b = malloc(sizeof *b); uint32_t s = sx_u32("tag"), t = sx_u32("other");
    uint64_t va = sx_u64("content"), vb = sx_u64("content2");
    memset(a, 0, sizeof *a); memset(b, 0, sizeof *b);
    a->value = (void *)(uintptr_t)va; b->value = (void *)(uintptr_t)vb; a->type = (raii_type)s; b->type = (raii_type)t;
    sx_assert((uint32_t)type_of(a) == s, "type_of is the tag");
    sx_assert(is_type(a, (raii_type)t) == (s == t), "is_type compares the tag");
    sx_assert(is_instance_of(a, b) == (s == t), "is_instance_of compares the tags");
    sx_assert(is_value(a) == value_tag(s), "is_value is true of the tags of values");
    sx_assert(is_instance(a) == instance_tag(s), "is_instance is true of the tags of instances");
    sx_assert(is_valid(a) == (value_tag(s) || instance_tag(s)), "is_valid is true of values and instances");
    sx_assert((uint32_t)a->type == s && a->value == (void *)(uintptr_t)va && (uint32_t)b->type == t && b->value == (void *)(uintptr_t)vb, "asking changes nothing");
    sx_cover_if(value_tag(s), "value"); sx_cover_if(instance_tag(s), "instance"); sx_cover_if(s == t, "same");
    return 0;
}
int h_plain(void) {
    uint64_t x = sx_u64("x"); uint8_t b = sx_u8("b"); unique_t *u = malloc(sizeof *u); int32_t st = sx_s32("status");
    sx_assert(is_zero((size_t)x) == (x == 0), "is_zero");
    sx_assert(is_empty((void *)(uintptr_t)x) == (x == 0), "is_empty");
    b &= 1;
    sx_assert(is_true((bool)b) == (b == 1), "is_true"); sx_assert(is_false((bool)b) == (b == 0), "is_false");
    memset(u, 0, sizeof *u); u->status = st;
    sx_assert(is_guard(u) == (st == RAII_GUARDED_STATUS), "is_guard looks at the status");
    sx_assert(!is_guard(NULL), "NULL is no guard");
    sx_cover_if(st == RAII_GUARDED_STATUS, "guard"); sx_cover_if(x == 0, "zero");
    return 0;
}
static void_t fn(args_t a) { (void)a; return NULL; }
static void nop(void *p) { (void)p; }
int h_objects(void) {
    args_t a; unique_t *u; future f; future_t sc; result_t r; int in = 0;
    raii_init(); ex_signal_setup();
    u = unique_init();
    sx_assert(!is_guard(u), "a unique scope is no guard");
    raii_deferred(u, nop, NULL);
    sx_assert(is_type(&u->defer, RAII_DEF_ARR) && is_instance(&u->defer), "a scope's deferrals");
    a = args_for("d", 1); sx_assert(is_type(a, RAII_ARGS) && is_instance(a) && !is_value(a), "an argument set");
   
    f = thrd_async(fn, NULL); sx_assert(is_type(f, RAII_FUTURE) && is_instance(f) && !is_instance_of(f, a), "a future");
    sx_assert(thrd_get(f).object == NULL, "no value");
    guard { in = is_guard(raii_local()->arena); } guarded
    sx_assert(in, "a guard section has a guard");
    sc = thrd_scope(); sx_assert(is_type(sc, RAII_SPAWN) && !is_valid(sc), "a thread scope");
    r = thrd_spawn(fn, NULL); sx_assert(is_type(r, RAII_VALUE) && is_instance(r), "a result");
    thrd_sync(sc); thrd_destroy(sc);
    raii_delete(u);
    sx_cover("done");
    return 0;
}
