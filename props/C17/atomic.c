/* Contracts for the read-modify-write helpers of lib/tinycc/lib/stdatomic.c.
   The two compiler intrinsics they are built from are replaced by their C11
   contracts (sequentially: another thread may store any value before the
   compare-exchange, which may then fail, and it may also fail spuriously). */
#include "verif.h"
typedef unsigned char u1; typedef unsigned short u2; typedef unsigned int u4; typedef unsigned long long u8;
static int interferences;
static unsigned long long seen; /* value of the object when the exchange took effect */
#define __atomic_load(p, q, m) (*(q) = *(p))
#define __atomic_compare_exchange(a, c, x, w, s, f) \
    ({ if (interferences < 2 && nondet_bool()) { interferences++; *(a) = nondet_ullong(); } \
       int ok = *(a) == *(c); \
       if (ok && interferences < 2 && nondet_bool()) { interferences++; ok = 0; } \
       if (ok) { seen = *(a); *(a) = *(x); } else *(c) = *(a); ok; })
#define R(n) __atomic_##n##_1
#define __atomic_thread_fence t_thread_fence
#define __atomic_signal_fence t_signal_fence
#define __atomic_is_lock_free t_is_lock_free
#include "atomic_names.h"
#include "lib/tinycc/lib/stdatomic.c"

#define CAT_(a, b, c) a##b##_##c
#define CAT(a, b, c) CAT_(a, b, c)
#define T u##SIZE_
void harness(void)
{
    TY a = NONDET(TY), v = NONDET(TY), r;
    TY a0 = a;
    r = CAT(t_, NAME, SIZE)(&a, v, 5);
    TY o = (TY)seen;
    TY n = (TY)(EXPR);
    CHECK(a == n, "object holds the operation applied to the value it had");
    CHECK(r == (OLD ? o : n), "returned value is the value before (fetch_op) or after (op_fetch)");
    if (interferences == 0) CHECK(o == a0, "without interference the initial value is used");
    TY s = NONDET(TY), b = NONDET(TY);
    CAT(t_, store, SIZE)(&b, s, 5);
    CHECK(b == s, "store");
    CHECK(CAT(t_, load, SIZE)(&b, 5) == s, "load");
    CANARY("end");
}
