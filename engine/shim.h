#if defined(__clang__)
#define SYMX_T(p) __typeof__((0, *(p)))
#define __atomic_load_n(p,o) (__atomic_load_n)((volatile SYMX_T(p)*)(p), o)
#define __atomic_store_n(p,v,o) (__atomic_store_n)((volatile SYMX_T(p)*)(p), (SYMX_T(p))(v), o)
#define __atomic_exchange_n(p,v,o) (__atomic_exchange_n)((volatile SYMX_T(p)*)(p), (SYMX_T(p))(v), o)
#define __atomic_test_and_set(p,o) (__atomic_test_and_set)((volatile void*)(p), o)
#define __atomic_clear(p,o) (__atomic_clear)((volatile unsigned char*)(p), o)
#define __atomic_fetch_add(p,v,o) (__atomic_fetch_add)((volatile SYMX_T(p)*)(p), (SYMX_T(p))(v), o)
#define __atomic_fetch_sub(p,v,o) (__atomic_fetch_sub)((volatile SYMX_T(p)*)(p), (SYMX_T(p))(v), o)
#define __atomic_fetch_or(p,v,o) (__atomic_fetch_or)((volatile SYMX_T(p)*)(p), (SYMX_T(p))(v), o)
#define __atomic_fetch_xor(p,v,o) (__atomic_fetch_xor)((volatile SYMX_T(p)*)(p), (SYMX_T(p))(v), o)
#define __atomic_fetch_and(p,v,o) (__atomic_fetch_and)((volatile SYMX_T(p)*)(p), (SYMX_T(p))(v), o)
#define __atomic_compare_exchange_n(p,e,d,w,s,f) (__atomic_compare_exchange_n)((volatile SYMX_T(p)*)(p), (SYMX_T(p)*)(e), (SYMX_T(p))(d), w, s, f)
#endif
