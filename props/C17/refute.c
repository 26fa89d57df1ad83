/* concrete search on the real helpers, compiled natively from the same sources */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define BAD(f, x) do { fprintf(stderr, "REFUTED: %s(0x%llx) is wrong\n", f, (unsigned long long)(x)); abort(); } while (0)
#define D(n, T) int __tcc_builtin_##n(T);
D(ffs,int) D(ffsl,long) D(ffsll,long long) D(clz,unsigned) D(clzl,unsigned long) D(clzll,unsigned long long)
D(ctz,unsigned) D(ctzl,unsigned long) D(ctzll,unsigned long long) D(clrsb,int) D(clrsbl,long) D(clrsbll,long long)
D(popcount,unsigned) D(popcountl,unsigned long) D(popcountll,unsigned long long)
D(parity,unsigned) D(parityl,unsigned long) D(parityll,unsigned long long)
unsigned long long __fixunssfdi(float); long long __fixsfdi(float); unsigned long long __fixunsdfdi(double); long long __fixdfdi(double);
unsigned long long __fixunsxfdi(long double); long long __fixxfdi(long double);
float __floatundisf(unsigned long long); double __floatundidf(unsigned long long); long double __floatundixf(unsigned long long);

static int pop(uint64_t x, int w) { int n = 0; for (int i = 0; i < w; i++) n += (x >> i) & 1; return n; }
static int ctz(uint64_t x, int w) { int i = 0; while (i < w && !((x >> i) & 1)) i++; return i; }
static int clz(uint64_t x, int w) { int i = 0; while (i < w && !((x >> (w - 1 - i)) & 1)) i++; return i; }
static int clrsb(uint64_t x, int w) { int n = 0, s = (x >> (w - 1)) & 1; for (int i = w - 2; i >= 0 && (int)((x >> i) & 1) == s; i--) n++; return n; }
static void one(uint64_t x)
{
    uint32_t y = (uint32_t)x;
#define T3(n, e32, e64) \
    if (__tcc_builtin_##n(y) != (e32)) BAD("__builtin_" #n, y); \
    if (__tcc_builtin_##n##l(x) != (e64)) BAD("__builtin_" #n "l", x); \
    if (__tcc_builtin_##n##ll(x) != (e64)) BAD("__builtin_" #n "ll", x);
    T3(ffs, y ? ctz(y, 32) + 1 : 0, x ? ctz(x, 64) + 1 : 0)
    T3(clrsb, clrsb(y, 32), clrsb(x, 64))
    T3(popcount, pop(y, 32), pop(x, 64))
    T3(parity, pop(y, 32) & 1, pop(x, 64) & 1)
    if (y && x) { T3(clz, clz(y, 32), clz(x, 64)) T3(ctz, ctz(y, 32), ctz(x, 64)) }
    if (__floatundisf(x) != (float)x) BAD("__floatundisf", x);
    if (__floatundidf(x) != (double)x) BAD("__floatundidf", x);
    if (__floatundixf(x) != (long double)x) BAD("__floatundixf", x);
    float f; memcpy(&f, &y, 4);
    double d; memcpy(&d, &x, 8);
    if (f > -1.0f && f < 18446744073709551616.0f && __fixunssfdi(f) != (f < 0 ? 0 : (unsigned long long)f)) BAD("__fixunssfdi", y);
    if (f >= -9223372036854775808.0f && f < 9223372036854775808.0f && __fixsfdi(f) != (long long)f) BAD("__fixsfdi", y);
    if (d > -1.0 && d < 18446744073709551616.0 && __fixunsdfdi(d) != (d < 0 ? 0 : (unsigned long long)d)) BAD("__fixunsdfdi", x);
    if (d >= -9223372036854775808.0 && d < 9223372036854775808.0 && __fixdfdi(d) != (long long)d) BAD("__fixdfdi", x);
    for (int k = 0; k < 66; k++) {
        long double l = (long double)(x | 1ull << 63);
        for (int j = 0; j < k; j++) l /= 2;
        if (__fixunsxfdi(l) != (unsigned long long)l) BAD("__fixunsxfdi", x);
        if (k && __fixxfdi(l) != (long long)l) BAD("__fixxfdi", x);
        if (k && __fixxfdi(-l) != (long long)-l) BAD("__fixxfdi", x);
    }
}
/* variadic slots: compare against a direct model of the register save area */
typedef struct { unsigned gp, fp; char *ov; char *save; } va1;
void *__va_arg(va1 *, int, int, int);
static void va(uint64_t s)
{
    static _Alignas(16) char regs[176], regs0[176], stack[4096], stack0[4096];
    for (int i = 0; i < 176; i++) regs[i] = regs0[i] = (s >> (i % 50)) + i * 7;
    va1 a = { 8 * (s % 7), 48 + 16 * ((s >> 3) % 9), stack + 8 * ((s >> 8) % 32), regs }, o = a;
    int type = (s >> 16) % 3, al = 1 << ((s >> 18) % 5), size = al * (1 + (s >> 22) % (type == 2 ? 20 : 4));
    if (type != 2 && size > 16) size = 16;
    if (size % al) return;
    int sz = (size + 7) / 8 * 8; if (al < 8) al = 8;
    char *r = __va_arg(&a, type, size, al);
    char *want; va1 e = o;
    if (type == 0 && o.gp + sz <= 48) { want = regs + o.gp; e.gp += sz; }
    else if (type == 1 && o.fp + (sz == 8 ? 16 : 32) <= 176) {
        want = regs + o.fp; e.fp += sz == 8 ? 16 : 32;
        if (sz == 16) memcpy(regs0 + o.fp + 8, regs0 + o.fp + 16, 8), memcpy(regs0 + o.fp + 16, regs + o.fp + 16, 16);
    }
    else { uintptr_t p = ((uintptr_t)o.ov + al - 1) / al * al; want = (char *)p; e.ov = want + sz; e.fp = a.fp; }
    if (r != want) BAD("__va_arg slot", s);
    if (a.gp != e.gp || a.fp != e.fp || a.ov != e.ov || a.save != regs) BAD("__va_arg state", s);
    if (memcmp(regs, regs0, 176)) BAD("__va_arg registers", s);
    if (memcmp(stack, stack0, 4096)) BAD("__va_arg stack", s);
}

#define DA(n, s, T) T t_##n##_##s(volatile void *, T, int);
#define DS(s, T) DA(exchange, s, T) DA(add_fetch, s, T) DA(sub_fetch, s, T) DA(and_fetch, s, T) DA(or_fetch, s, T) DA(xor_fetch, s, T) DA(nand_fetch, s, T) \
  DA(fetch_add, s, T) DA(fetch_sub, s, T) DA(fetch_and, s, T) DA(fetch_or, s, T) DA(fetch_xor, s, T) DA(fetch_nand, s, T) T t_load_##s(const volatile void *, int); void t_store_##s(volatile void *, T, int);
DS(1, uint8_t) DS(2, uint16_t) DS(4, uint32_t) DS(8, uint64_t)
#define AT(n, s, T, e, old) { T a[3] = {1, o, 2}; T r = t_##n##_##s(&a[1], v, 5); if (a[1] != (T)(e) || r != (old ? o : (T)(e)) || a[0] != 1 || a[2] != 2) BAD("__atomic_" #n "_" #s, o); }
#define AS(s, T) { T o = x, v = y; AT(exchange, s, T, v, 1) \
  AT(add_fetch, s, T, o + v, 0) AT(sub_fetch, s, T, o - v, 0) AT(and_fetch, s, T, o & v, 0) AT(or_fetch, s, T, o | v, 0) AT(xor_fetch, s, T, o ^ v, 0) AT(nand_fetch, s, T, ~(o & v), 0) \
  AT(fetch_add, s, T, o + v, 1) AT(fetch_sub, s, T, o - v, 1) AT(fetch_and, s, T, o & v, 1) AT(fetch_or, s, T, o | v, 1) AT(fetch_xor, s, T, o ^ v, 1) AT(fetch_nand, s, T, ~(o & v), 1) \
  T b[3] = {1, 0, 2}; t_store_##s(&b[1], v, 5); if (b[0] != 1 || b[1] != v || b[2] != 2 || t_load_##s(&b[1], 5) != v) BAD("__atomic_load/store_" #s, v); }
static void at(uint64_t x, uint64_t y) { AS(1, uint8_t) AS(2, uint16_t) AS(4, uint32_t) AS(8, uint64_t) }
int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n)
{
    uint64_t s = 88172645463325252ull, x = 0;
    memcpy(&x, p, n < 8 ? n : 8);
    one(x); va(x);
    s ^= x * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 64; i++) {
        one(1ull << i); one(~(1ull << i)); one((1ull << i) - 1); one(-(1ull << i)); one(x >> i); one(x << i);
        s ^= s << 13; s ^= s >> 7; s ^= s << 17; one(s); one(s & (s << 1)); one(s >> (i & 63)); va(s * 0x2545F4914F6CDD1Dull); at(s, s * 0x2545F4914F6CDD1Dull);
    }
    return 0;
}
