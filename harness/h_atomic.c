/* Atomic operations and the spinlock of catomic.h: C01, C02. */
#undef FORCEINLINE
#define FORCEINLINE
#include "raii.h"
#include "sx.h"
#include <pthread.h>
#include <string.h>
#define P(n, d) ((long)sx_param(n, d))
#define RX memory_order_relaxed
#define AQ memory_order_acquire
#define RL memory_order_release
#define AR memory_order_acq_rel
#define SC memory_order_seq_cst

/* ------------------------------------------------------------ one thread: what each operation returns and leaves */
typedef struct { uint64_t before; uint64_t v; uint64_t after; } cell64;
#define LEFT(want) sx_assert(c.v == (want) && c.before == 0x1111111111111111ull && c.after == 0x2222222222222222ull, "an operation leaves exactly its new value")
#define GAVE(x, want) sx_assert((x) == (want), "an operation gives back the documented value")
int h_ops(void) {
    static cell64 c; uint64_t a, b, e, r, was; volatile atomic_ullong *p = (volatile atomic_ullong *)&c.v; int ok, op = (int)sx_choose("op", 36);
    a = sx_u64("old"); b = sx_u64("operand"); e = sx_u64("expected"); was = e;
    c.before = 0x1111111111111111ull; c.after = 0x2222222222222222ull; c.v = a;
    switch (op) {
        case 0: atomic_store(p, b); LEFT(b); break;
        case 1: atomic_store_explicit(p, b, RX); LEFT(b); break;
        case 2: atomic_store_explicit(p, b, RL); LEFT(b); break;
        case 3: atomic_init(p, b); LEFT(b); break;
        case 4: r = atomic_load(p); GAVE(r, a); LEFT(a); break;
        case 5: r = atomic_load_explicit(p, RX); GAVE(r, a); LEFT(a); break;
        case 6: r = atomic_load_explicit(p, AQ); GAVE(r, a); LEFT(a); break;
        case 7: r = atomic_exchange(p, b); GAVE(r, a); LEFT(b); break;
        case 8: r = atomic_exchange_explicit(p, b, AR); GAVE(r, a); LEFT(b); break;
        case 9: r = atomic_fetch_add(p, b); GAVE(r, a); LEFT(a + b); break;
        case 10: r = atomic_fetch_add_explicit(p, b, RX); GAVE(r, a); LEFT(a + b); break;
        case 11: r = atomic_fetch_sub(p, b); GAVE(r, a); LEFT(a - b); break;
        case 12: r = atomic_fetch_sub_explicit(p, b, RX); GAVE(r, a); LEFT(a - b); break;
        case 13: r = atomic_fetch_or(p, b); GAVE(r, a); LEFT(a | b); break;
        case 14: r = atomic_fetch_or_explicit(p, b, RX); GAVE(r, a); LEFT(a | b); break;
        case 15: r = atomic_fetch_xor(p, b); GAVE(r, a); LEFT(a ^ b); break;
        case 16: r = atomic_fetch_xor_explicit(p, b, RX); GAVE(r, a); LEFT(a ^ b); break;
        case 17: r = atomic_fetch_and(p, b); GAVE(r, a); LEFT(a & b); break;
        case 18: r = atomic_fetch_and_explicit(p, b, RX); GAVE(r, a); LEFT(a & b); break;
#define CAS(call) ok = call; sx_assert(ok == (a == was), "a compare and exchange tells whether it exchanged"); sx_assert(e == sx_ite(a == was, was, a), "a failed compare and exchange reports the value it found"); LEFT(sx_ite(a == was, b, a)); break
        case 19: CAS(atomic_compare_exchange_strong(p, &e, b));
        case 20: CAS(atomic_compare_exchange_weak(p, &e, b));
        case 21: CAS(atomic_compare_exchange_strong_explicit(p, &e, b, AR, RX));
        case 22: CAS(atomic_compare_exchange_weak_explicit(p, &e, b, AR, RX));
        case 23: CAS(atomic_cas(p, &e, b));
        case 24: CAS(atomic_swap(p, &e, b));
        case 25: r = atomic_get(uint64_t, p); GAVE(r, a); LEFT(a); break;
        case 26: r = c89atomic_compare_and_swap_64(p, e, b); GAVE(r, a); LEFT(sx_ite(a == was, b, a)); break;
        case 27: r = c89atomic_test_and_set_64(p); GAVE(r, a); LEFT(1); break;
        case 28: c89atomic_clear_64(p); LEFT(0); break;
        case 29: { void *q = c89atomic_load_ptr((volatile void **)p); GAVE((uint64_t)q, a); LEFT(a); break; }
        case 30: c89atomic_store_ptr((volatile void **)p, (void *)b); LEFT(b); break;
        case 31: { void *q = c89atomic_exchange_ptr((volatile void **)p, (void *)b); GAVE((uint64_t)q, a); LEFT(b); break; }
        case 32: CAS(c89atomic_compare_exchange_strong_ptr((volatile void **)p, (void **)&e, (void *)b));
        case 33: CAS(c89atomic_compare_exchange_weak_ptr((volatile void **)p, (void **)&e, (void *)b));
        case 34: { void *q = c89atomic_compare_and_swap_ptr((volatile void **)p, (void *)e, (void *)b); GAVE((uint64_t)q, a); LEFT(sx_ite(a == was, b, a)); break; }
        case 35: { c.v = a; sx_assert(atomic_is_lock_free(p), "64-bit objects are lock-free"); LEFT(a); break; }
    }
    sx_cover("done");
    return 0;
}
/* the sized operations: the same, on 8, 16, 32 and 64 bits, signed and unsigned */
#undef LEFT
#define SIZED(W, I, S, T) \
static void sized_ ## W (uint64_t a_, uint64_t b_, uint64_t e_, int op) { \
    static T c[3]; T a = (T)a_, b = (T)b_, e = (T)e_, was = e, r, left = a; int ok; \
    memset(c, 0x5a, sizeof c); c[1] = a; T guard_ = c[0]; \
    switch (op) { \
        case 0: c89atomic_store_ ## I ## S(&c[1], b); left = b; break; \
        case 1: r = c89atomic_load_ ## I ## S(&c[1]); GAVE(r, a); break; \
        case 2: r = c89atomic_exchange_ ## I ## S(&c[1], b); GAVE(r, a); left = b; break; \
        case 3: r = c89atomic_fetch_add_ ## I ## S(&c[1], b); GAVE(r, a); left = (T)(a + b); break; \
        case 4: r = c89atomic_fetch_sub_ ## I ## S(&c[1], b); GAVE(r, a); left = (T)(a - b); break; \
        case 5: r = c89atomic_fetch_or_ ## I ## S(&c[1], b); GAVE(r, a); left = (T)(a | b); break; \
        case 6: r = c89atomic_fetch_xor_ ## I ## S(&c[1], b); GAVE(r, a); left = (T)(a ^ b); break; \
        case 7: r = c89atomic_fetch_and_ ## I ## S(&c[1], b); GAVE(r, a); left = (T)(a & b); break; \
        case 8: r = c89atomic_test_and_set_ ## I ## S(&c[1]); GAVE(r, a); left = 1; break; \
        case 9: c89atomic_clear_ ## I ## S(&c[1]); left = 0; break; \
        case 10: r = c89atomic_compare_and_swap_ ## I ## S(&c[1], e, b); GAVE(r, a); left = (T)sx_ite(a == was, (uint64_t)b, (uint64_t)a); break; \
        case 11: ok = c89atomic_compare_exchange_strong_ ## I ## S(&c[1], &e, b); goto cas; \
        case 12: ok = c89atomic_compare_exchange_weak_ ## I ## S(&c[1], &e, b); \
        cas: sx_assert(ok == (a == was), "a compare and exchange tells whether it exchanged"); sx_assert(e == (T)sx_ite(a == was, (uint64_t)was, (uint64_t)a), "a failed compare and exchange reports the value it found"); left = (T)sx_ite(a == was, (uint64_t)b, (uint64_t)a); break; \
    } \
    sx_assert(c[1] == left && c[0] == guard_ && c[2] == guard_, "an operation leaves exactly its new value"); \
}
SIZED(U8, , 8, c89atomic_uint8) SIZED(U16, , 16, c89atomic_uint16) SIZED(U32, , 32, c89atomic_uint32) SIZED(U64, , 64, c89atomic_uint64)
SIZED(I8, i, 8, c89atomic_int8) SIZED(I16, i, 16, c89atomic_int16) SIZED(I32, i, 32, c89atomic_int32) SIZED(I64, i, 64, c89atomic_int64)
int h_sized(void) {
    int w = (int)sx_choose("width", 8), op = (int)sx_choose("op", 13);
    uint64_t a = sx_u64("old"), b = sx_u64("operand"), e = sx_u64("expected");
    switch (w) {
        case 0: sized_U8(a, b, e, op); break; case 1: sized_U16(a, b, e, op); break; case 2: sized_U32(a, b, e, op); break; case 3: sized_U64(a, b, e, op); break;
        case 4: sized_I8(a, b, e, op); break; case 5: sized_I16(a, b, e, op); break; case 6: sized_I32(a, b, e, op); break; case 7: sized_I64(a, b, e, op); break;
    }
    sx_cover("done");
    return 0;
}
/* floating point objects are loaded, stored, exchanged and compared bit by bit */
int h_float(void) {
    static union { uint64_t i; double d; } c, a, b, e, r; static union { uint32_t i; float f; } d, a2, b2, e2, r2; int ok, op = (int)sx_choose("op", 18); uint64_t was;
    a.i = sx_u64("old"); b.i = sx_u64("operand"); e.i = sx_u64("expected"); was = e.i;
    a2.i = (uint32_t)a.i; b2.i = (uint32_t)b.i; e2.i = (uint32_t)e.i; c.i = a.i; d.i = a2.i;
    switch (op) {
        case 0: c89atomic_store_f64(&c.d, b.d); sx_assert(c.i == b.i, "an operation leaves exactly its new value"); break;
        case 1: r.d = c89atomic_load_f64(&c.d); GAVE(r.i, a.i); sx_assert(c.i == a.i, "an operation leaves exactly its new value"); break;
        case 2: r.d = c89atomic_exchange_f64(&c.d, b.d); GAVE(r.i, a.i); sx_assert(c.i == b.i, "an operation leaves exactly its new value"); break;
        case 3: r.d = c89atomic_compare_and_swap_f64(&c.d, e.d, b.d); GAVE(r.i, a.i); sx_assert(c.i == sx_ite(a.i == e.i, b.i, a.i), "an operation leaves exactly its new value"); break;
        case 4: ok = c89atomic_compare_exchange_strong_f64(&c.d, &e.d, b.d); goto cas;
        case 5: ok = c89atomic_compare_exchange_weak_f64(&c.d, &e.d, b.d);
        cas: sx_assert(ok == (a.i == was), "a compare and exchange tells whether it exchanged"); sx_assert(e.i == a.i && c.i == sx_ite(a.i == was, b.i, a.i), "an operation leaves exactly its new value"); break;
        case 6: c89atomic_store_f32(&d.f, b2.f); sx_assert(d.i == b2.i, "an operation leaves exactly its new value"); break;
        case 7: r2.f = c89atomic_load_f32(&d.f); GAVE(r2.i, a2.i); break;
        case 8: r2.f = c89atomic_exchange_f32(&d.f, b2.f); GAVE(r2.i, a2.i); sx_assert(d.i == b2.i, "an operation leaves exactly its new value"); break;
        case 9: r2.f = c89atomic_compare_and_swap_f32(&d.f, e2.f, b2.f); GAVE(r2.i, a2.i); sx_assert(d.i == (uint32_t)sx_ite(a2.i == e2.i, b2.i, a2.i), "an operation leaves exactly its new value"); break;
        case 10: ok = c89atomic_compare_exchange_strong_f32(&d.f, &e2.f, b2.f); goto cas2;
        case 11: ok = c89atomic_compare_exchange_weak_f32(&d.f, &e2.f, b2.f);
        cas2: sx_assert(ok == (a2.i == (uint32_t)was), "a compare and exchange tells whether it exchanged"); sx_assert(e2.i == a2.i && d.i == (uint32_t)sx_ite(a2.i == (uint32_t)was, b2.i, a2.i), "an operation leaves exactly its new value"); break;
        case 12: r.d = c89atomic_fetch_or_f64(&c.d, b.d); GAVE(r.i, a.i); sx_assert(c.i == (a.i | b.i), "an operation leaves exactly its new value"); break;
        case 13: r.d = c89atomic_fetch_xor_f64(&c.d, b.d); GAVE(r.i, a.i); sx_assert(c.i == (a.i ^ b.i), "an operation leaves exactly its new value"); break;
        case 14: r.d = c89atomic_fetch_and_f64(&c.d, b.d); GAVE(r.i, a.i); sx_assert(c.i == (a.i & b.i), "an operation leaves exactly its new value"); break;
        case 15: r2.f = c89atomic_fetch_or_f32(&d.f, b2.f); GAVE(r2.i, a2.i); sx_assert(d.i == (a2.i | b2.i), "an operation leaves exactly its new value"); break;
        case 16: r2.f = c89atomic_fetch_xor_f32(&d.f, b2.f); GAVE(r2.i, a2.i); sx_assert(d.i == (a2.i ^ b2.i), "an operation leaves exactly its new value"); break;
        case 17: r2.f = c89atomic_fetch_and_f32(&d.f, b2.f); GAVE(r2.i, a2.i); sx_assert(d.i == (a2.i & b2.i), "an operation leaves exactly its new value"); break;
    }
    sx_cover("done");
    return 0;
}
/* flags */
int h_flag(void) {
    static unsigned char m[3]; volatile atomic_flag *f = (volatile atomic_flag *)&m[1]; int i, n = (int)P("n", 4), set; uint8_t g = sx_u8("around");
    m[0] = m[2] = g; m[1] = 0; set = 0;
    if (sx_choose("start", 2)) { atomic_flag_test_and_set(f); set = 1; }
    for (i = 0; i < n; i++) {
        switch (sx_choose("op", 6)) {
            case 0: sx_assert(!!atomic_flag_test_and_set(f) == set, "test and set tells the flag as it was"); set = 1; break;
            case 1: sx_assert(!!atomic_flag_test_and_set_explicit(f, AQ) == set, "test and set tells the flag as it was"); set = 1; break;
            case 2: atomic_flag_clear(f); set = 0; break;
            case 3: atomic_flag_clear_explicit(f, RL); set = 0; break;
            case 4: sx_assert(!!atomic_flag_load(f) == set, "a load tells the flag"); break;
            case 5: sx_assert(!!atomic_flag_load_explicit(f, RX) == set, "a load tells the flag"); break;
        }
        sx_assert(!!m[1] == set && m[0] == g && m[2] == g, "a flag operation changes the flag alone");
    }
    sx_cover("done");
    return 0;
}

/* ------------------------------------------------------------ threads on one object */
enum { A_ADD, A_SUB, A_OR, A_XOR, A_AND, A_XCHG, A_STORE, A_CAS, A_CASW, A_SWAPF, A_TAS, A_LOAD, A_ADDX, A_CASL, A_N };
static volatile uint64_t obj_; static struct { int op; uint64_t x, e; uint64_t got, ok; } t_[3];
static void *apply(void *p) {
    int k = (int)(long)p; uint64_t x = t_[k].x, e = t_[k].e, got = 0, ok = 0; volatile uint64_t *o = &obj_;
    switch (t_[k].op) {
        case A_ADD: got = atomic_fetch_add(o, x); break;
        case A_SUB: got = atomic_fetch_sub(o, x); break;
        case A_OR: got = atomic_fetch_or(o, x); break;
        case A_XOR: got = atomic_fetch_xor(o, x); break;
        case A_AND: got = atomic_fetch_and(o, x); break;
        case A_XCHG: got = atomic_exchange(o, x); break;
        case A_STORE: atomic_store(o, x); break;
        case A_CAS: ok = atomic_compare_exchange_strong(o, &e, x); got = e; break;
        case A_CASW: ok = atomic_compare_exchange_weak_explicit(o, &e, x, AR, AQ); got = e; break;
        case A_SWAPF: got = c89atomic_compare_and_swap_64(o, e, x); break;
        case A_TAS: got = c89atomic_test_and_set_64(o); break;
        case A_LOAD: got = atomic_load(o); break;
        case A_ADDX: got = atomic_fetch_add_explicit(o, x, RX); break;
        case A_CASL: { uint64_t was = atomic_load(o); do { e = was; } while (!atomic_cas(o, &was, e + x)); got = was; break; } /* an addition made of compare and exchange */
    }
    t_[k].got = got; t_[k].ok = ok;
    return NULL;
}
/* the effect of thread k's operation on v; whether what it returned agrees */
static uint64_t effect(int k, uint64_t v, uint64_t *agree) {
    uint64_t x = t_[k].x, e = t_[k].e, g = t_[k].got, same = (uint64_t)(g == v), hit = (uint64_t)(e == v);
    switch (t_[k].op) {
        case A_ADD: case A_ADDX: case A_CASL: *agree &= same; return v + x;
        case A_SUB: *agree &= same; return v - x;
        case A_OR: *agree &= same; return v | x;
        case A_XOR: *agree &= same; return v ^ x;
        case A_AND: *agree &= same; return v & x;
        case A_XCHG: *agree &= same; return x;
        case A_STORE: return x;
        case A_CAS: case A_CASW: *agree &= same & (uint64_t)(t_[k].ok == hit); return sx_ite((int)hit, x, v);
        case A_SWAPF: *agree &= same; return sx_ite((int)hit, x, v);
        case A_TAS: *agree &= same; return 1;
        default: *agree &= same; return v;
    }
}
static uint64_t run(uint64_t v, uint64_t final, int a, int b, int c) {
    uint64_t agree = 1;
    v = effect(a, v, &agree); v = effect(b, v, &agree); if (c >= 0) v = effect(c, v, &agree);
    return agree & (uint64_t)(v == final);
}
int h_conc(void) {
    int n = (int)P("n", 2), k; pthread_t th[3]; uint64_t start = sx_u64("old"), any; long op[3]; static const char *nx[3] = { "x0", "x1", "x2" }, *ne[3] = { "e0", "e1", "e2" };
    op[0] = P("op0", 0xffff); op[1] = P("op1", 0xffff); op[2] = P("op2", 0xffff);
    for (k = 0; k < n; k++) {
        do { t_[k].op = (int)sx_choose("op", A_N); if (!((op[k] >> t_[k].op) & 1)) sx_end(); } while (0);
        t_[k].x = sx_u64(nx[k]); t_[k].e = sx_u64(ne[k]);
    }
    obj_ = start;
    for (k = 1; k < n; k++) pthread_create(&th[k], NULL, apply, (void *)(long)k);
    apply((void *)0L);
    for (k = 1; k < n; k++) pthread_join(th[k], NULL);
    if (n == 2) any = run(start, obj_, 0, 1, -1) | run(start, obj_, 1, 0, -1);
    else any = run(start, obj_, 0, 1, 2) | run(start, obj_, 0, 2, 1) | run(start, obj_, 1, 0, 2) | run(start, obj_, 1, 2, 0) | run(start, obj_, 2, 0, 1) | run(start, obj_, 2, 1, 0);
    sx_assert((int)any, "operations of several threads on one object take effect in some order");
    sx_cover("done");
    return 0;
}
/* what one thread wrote before it stored to an atomic object is there for a thread that reads the store */
static uint64_t data_; static volatile atomic_flag flag_; static int how_; static uint64_t word_;
static void *writer(void *p) {
    uint64_t e = 0;
    data_ = *(uint64_t *)p;
    switch (how_) {
        case 0: atomic_store(&obj_, 1); break;
        case 1: atomic_store_explicit(&obj_, 1, RL); break;
        case 2: atomic_exchange(&obj_, 1); break;
        case 3: atomic_fetch_add(&obj_, 1); break;
        case 4: atomic_compare_exchange_strong(&obj_, &e, 1); break;
        case 5: atomic_flag_test_and_set(&flag_); break;
        case 6: atomic_flag_clear(&flag_); break;
        case 7: atomic_fetch_or(&obj_, 1); break;
        case 8: atomic_fetch_sub(&obj_, (uint64_t)-1); break;
        case 9: atomic_fetch_xor(&obj_, 1); break;
        case 10: c89atomic_compare_and_swap_64(&obj_, 0, 1); break;
        case 11: atomic_thread_fence(RL); atomic_store_explicit(&obj_, 1, RX); break;
        case 12: atomic_thread_fence(SC); atomic_fetch_add_explicit(&obj_, 1, RX); break;
        case 13: atomic_compare_exchange_strong_explicit(&obj_, &e, 1, RL, RX); break;
        case 14: do e = 0; while (!atomic_compare_exchange_weak_explicit(&obj_, &e, 1, RL, RX)); break;
        case 15: atomic_exchange_explicit(&obj_, 1, RL); break;
        case 16: atomic_fetch_add_explicit(&obj_, 1, RL); break;
        case 17: atomic_fetch_or_explicit(&obj_, 1, RL); break;
        case 18: atomic_fetch_xor_explicit(&obj_, 1, RL); break;
        case 19: atomic_fetch_sub_explicit(&obj_, (uint64_t)-1, RL); break;
        case 20: c89atomic_store_explicit_ptr((volatile void **)&obj_, (void *)1, RL); break;
        case 21: atomic_swap(&obj_, &e, 1); break;
        case 22: c89atomic_compare_exchange_strong_explicit_ptr((volatile void **)&obj_, (void **)&e, (void *)1, RL, RX); break;
    }
    return NULL;
}
static int published(int rd) {
    uint64_t e = 5;
    if (how_ == 5) return !!(rd == 1 ? atomic_flag_load_explicit(&flag_, AQ) : atomic_flag_load(&flag_));
    if (how_ == 6) return !(rd == 1 ? atomic_flag_test_and_set_explicit(&flag_, AQ) : rd == 2 ? atomic_flag_test_and_set(&flag_) : atomic_flag_load(&flag_));
    switch (rd) {
        case 0: return atomic_load(&obj_) == 1;
        case 7: e = 1; return atomic_compare_exchange_strong_explicit(&obj_, &e, 9, AQ, RX);
        case 8: e = 1; return atomic_compare_exchange_weak_explicit(&obj_, &e, 9, AQ, RX);
        case 9: return atomic_exchange_explicit(&obj_, 0, AQ) == 1;
        case 10: return atomic_fetch_or_explicit(&obj_, 0, AQ) == 1;
        case 11: return c89atomic_load_explicit_ptr((volatile void **)&obj_, AQ) == (void *)1;
        case 1: return atomic_load_explicit(&obj_, AQ) == 1;
        case 2: return atomic_fetch_add(&obj_, 0) == 1;
        case 3: atomic_compare_exchange_strong(&obj_, &e, 9); return e == 1;
        case 4: return atomic_get(uint64_t, &obj_) == 1;
        case 6: if (atomic_load_explicit(&obj_, RX) != 1) return 0; atomic_thread_fence(AQ); return 1;
        default: return c89atomic_compare_and_swap_64(&obj_, 5, 9) == 1;
    }
}
int h_message(void) {
    pthread_t th; uint64_t v = sx_u64("data"); int rd, spin = 0;
    how_ = (int)sx_choose("how", 23); rd = (int)sx_choose("read", 12);
    data_ = 0; obj_ = 0; atomic_flag_clear(&flag_); if (how_ == 6) atomic_flag_test_and_set(&flag_);
    pthread_create(&th, NULL, writer, &v);
    if (sx_choose("spin", 2)) { while (!published(rd)) spin++; sx_assert(data_ == v, "what was written before a store is there for who reads the store"); sx_cover("waited"); }
    else if (published(rd)) { sx_assert(data_ == v, "what was written before a store is there for who reads the store"); sx_cover("seen"); }
    else sx_cover("not seen");
    pthread_join(th, NULL);
    return 0;
}

/* ------------------------------------------------------------ the spinlock */
static struct { uint8_t around0; atomic_spinlock lock; uint8_t around1; uint64_t a, b; } s_; static int inside_, rounds_; static atomic_spinlock other_; static uint64_t o_;
static void *critical(void *p) {
    int k = (int)(long)p, i;
    for (i = 0; i < rounds_; i++) {
        uint64_t x;
        atomic_lock(&s_.lock);
        sx_assert(inside_ == 0, "one thread is between lock and unlock"); inside_ = 1 + k;
        x = s_.a; sx_assert(x == s_.b, "what was written under the lock is seen under it");
        s_.a = x + t_[k].x; s_.b = x + t_[k].x;
        sx_assert(inside_ == 1 + k, "one thread is between lock and unlock"); inside_ = 0;
        atomic_unlock(&s_.lock);
    }
    return NULL;
}
int h_lock(void) {
    int n = (int)P("n", 2), k; pthread_t th[3]; static const char *nx[3] = { "x0", "x1", "x2" }; uint64_t want, start = sx_u64("start"); uint8_t g = sx_u8("around"); int held = (int)sx_choose("held", 2);
    rounds_ = (int)P("rounds", 1); s_.a = s_.b = want = start; s_.around0 = s_.around1 = g;
    atomic_flag_clear(&s_.lock);
    for (k = 0; k < n; k++) { t_[k].x = sx_u64(nx[k]); want += (uint64_t)rounds_ * t_[k].x; }
    if (held) { atomic_lock(&s_.lock); sx_assert(atomic_flag_load(&s_.lock), "a lock that is held reads so"); inside_ = 9; }
    for (k = 1; k < n; k++) pthread_create(&th[k], NULL, critical, (void *)(long)k);
    if (held) { sx_assert(inside_ == 9, "one thread is between lock and unlock"); s_.a += 7; s_.b += 7; want += 7; inside_ = 0; atomic_unlock(&s_.lock); }
    critical((void *)0L);
    for (k = 1; k < n; k++) pthread_join(th[k], NULL);
    sx_assert(!atomic_flag_load(&s_.lock), "a lock that was let go is free");
    sx_assert(s_.a == want && s_.b == want && s_.around0 == g && s_.around1 == g, "nothing done under the lock is lost");
    atomic_lock(&s_.lock); atomic_unlock(&s_.lock);
    sx_cover("done");
    return 0;
}
/* two locks: independent of each other, taken in one order */
static void *both(void *p) {
    int k = (int)(long)p;
    if (k) { atomic_lock(&s_.lock); atomic_lock(&other_); s_.a++; o_++; atomic_unlock(&other_); s_.b++; atomic_unlock(&s_.lock); }
    else { atomic_lock(&other_); o_++; atomic_unlock(&other_); atomic_lock(&s_.lock); s_.a++; s_.b++; atomic_unlock(&s_.lock); }
    return NULL;
}
int h_locks(void) {
    pthread_t th;
    atomic_flag_clear(&s_.lock); atomic_flag_clear(&other_);
    pthread_create(&th, NULL, both, (void *)1L);
    both((void *)0L);
    pthread_join(th, NULL);
    sx_assert(s_.a == 2 && s_.b == 2 && o_ == 2, "nothing done under the lock is lost");
    sx_cover("done");
    return 0;
}
