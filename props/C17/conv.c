/* Contracts for the 64-bit integer / floating point conversions of
   lib/tinycc/lib/libtcc1.c.  The oracle is the C conversion as CBMC's IEEE-754
   semantics defines it; preconditions restrict to the values for which C defines
   the conversion. */
#include "verif.h"
#include "lib/tinycc/lib/libtcc1.c"

#ifdef U_fixunssfdi
void harness(void)
{
    float a = NONDET(float);
    ASSUME(a > -1.0f && a < 18446744073709551616.0f);
    unsigned long long r = __fixunssfdi(a);
    CHECK(r == (a < 0 ? 0 : (unsigned long long)a), "float to unsigned 64-bit truncates toward zero");
    CANARY("end");
}
#endif
#ifdef U_fixsfdi
void harness(void)
{
    float a = NONDET(float);
    ASSUME(a >= -9223372036854775808.0f && a < 9223372036854775808.0f);
    CHECK(__fixsfdi(a) == (long long)a, "float to signed 64-bit truncates toward zero");
    CANARY("end");
}
#endif
#ifdef U_fixunsdfdi
void harness(void)
{
    double a = NONDET(double);
    ASSUME(a > -1.0 && a < 18446744073709551616.0);
    unsigned long long r = __fixunsdfdi(a);
    CHECK(r == (a < 0 ? 0 : (unsigned long long)a), "double to unsigned 64-bit truncates toward zero");
    CANARY("end");
}
#endif
#ifdef U_fixdfdi
void harness(void)
{
    double a = NONDET(double);
    ASSUME(a >= -9223372036854775808.0 && a < 9223372036854775808.0);
    CHECK(__fixdfdi(a) == (long long)a, "double to signed 64-bit truncates toward zero");
    CANARY("end");
}
#endif
#ifdef U_fixunsxfdi
/* x87 extended: value = lower * 2^(exponent - 16383 - 63); given by its bits */
void harness(void)
{
    union ldouble_long u;
    unsigned long long m = nondet_ullong();
    unsigned short up = nondet_ushort();
    unsigned e = up & 0x7fff;
    u.ld = 0;
    u.l.lower = m; u.l.upper = up;
    /* normalised or zero, and in range */
    ASSUME((m >> 63) == 1 || (m == 0 && e == 0));
    ASSUME(e < 16383 + 64);
    ASSUME(!(up & 0x8000) || e < 16383);
    unsigned long long r = __fixunsxfdi(u.ld);
    unsigned long long want = e < 16383 ? 0 : m >> (63 - (e - 16383));
    CHECK(r == want, "extended to unsigned 64-bit truncates toward zero");
    CANARY("end");
}
#endif
#ifdef U_floatundisf
void harness(void)
{
    unsigned long long a = nondet_ullong();
    CHECK(__floatundisf(a) == (float)a, "unsigned 64-bit to float rounds once");
    CANARY("end");
}
#endif
#ifdef U_floatundidf
void harness(void)
{
    unsigned long long a = nondet_ullong();
    CHECK(__floatundidf(a) == (double)a, "unsigned 64-bit to double rounds once");
    CANARY("end");
}
#endif
#ifdef U_floatundixf
void harness(void)
{
    unsigned long long a = nondet_ullong();
    CHECK(__floatundixf(a) == (long double)a, "unsigned 64-bit to extended is exact");
    CANARY("end");
}
#endif
#ifdef U_fixxfdi
/* modular: __fixunsxfdi is replaced by its contract (proved by unit conv.fixunsxfdi) */
unsigned long long __fixunsxfdi(long double a1)
{
    CHECK(a1 > -1.0L && a1 < 18446744073709551616.0L, "precondition of __fixunsxfdi");
    return a1 < 0 ? 0 : (unsigned long long)a1;
}
void harness(void)
{
    long double a = NONDET(long double);
    ASSUME(a >= -9223372036854775808.0L && a < 9223372036854775808.0L);
    CHECK(__fixxfdi(a) == (long long)a, "extended to signed 64-bit truncates toward zero");
    CANARY("end");
}
#endif
