/* concrete search: constant expressions through the real compiler against a direct evaluator */
#include "tccrun.h"
#define BAD(...) do { fprintf(stderr, "REFUTED: "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); abort(); } while (0)
typedef struct { const char *n; int w, u; } ty;
static const ty T[] = { {"signed char",8,0}, {"unsigned char",8,1}, {"short",16,0}, {"unsigned short",16,1}, {"int",32,0}, {"unsigned",32,1},
    {"long long",64,0}, {"unsigned long long",64,1}, {"long",64,0}, {"unsigned long",64,1}, {"_Bool",1,1} };
static const char *O[] = { "+","-","*","/","%","&","|","^","<<",">>","==","!=","<",">","<=",">=","&&","||" };
static uint64_t conv(ty t, uint64_t v)
{
    if (t.w == 1) return v != 0;
    if (t.w == 64) return v;
    v &= (1ull << t.w) - 1;
    if (!t.u && v >> (t.w - 1)) v |= -1ull << t.w;
    return v;
}
static ty prom(ty t) { return t.w < 32 ? T[4] : t; }
static ty common(ty a, ty b)
{
    a = prom(a); b = prom(b);
    if (a.w == b.w) return a.u ? a : b;
    return a.w > b.w ? a : b;
}
/* 0: undefined, 1: value, type of result in *rt */
static int eval(int o, ty ta, uint64_t a, ty tb, uint64_t b, uint64_t *r, ty *rt)
{
    ty c = (o == 8 || o == 9) ? prom(ta) : common(ta, tb);
    uint64_t x = conv(c, a), y = (o == 8 || o == 9) ? b : conv(c, b);
    int64_t sx = x, sy = y;
    int u = c.u;
    *rt = c;
    if ((o == 3 || o == 4) && (y == 0 || (!u && sy == -1 && x == (c.w == 64 ? 1ull << 63 : (uint64_t)(int64_t)INT32_MIN)))) return 0;
    if ((o == 8 || o == 9) && y >= (unsigned)c.w) return 0;
    switch (o) {
    case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break;
    case 3: x = u ? x / y : (uint64_t)(sx / sy); break;
    case 4: x = u ? x % y : (uint64_t)(sx % sy); break;
    case 5: x &= y; break; case 6: x |= y; break; case 7: x ^= y; break;
    case 8: x <<= y; break; case 9: x = u ? x >> y : (uint64_t)(sx >> y); break;
    case 10: x = x == y; *rt = T[4]; break; case 11: x = x != y; *rt = T[4]; break;
    case 12: x = u ? x < y : sx < sy; *rt = T[4]; break; case 13: x = u ? x > y : sx > sy; *rt = T[4]; break;
    case 14: x = u ? x <= y : sx <= sy; *rt = T[4]; break; case 15: x = u ? x >= y : sx >= sy; *rt = T[4]; break;
    case 16: x = a && b; *rt = T[4]; break; case 17: x = a || b; *rt = T[4]; break;
    }
    *r = conv(*rt, x);
    return 1;
}
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static uint64_t val(void)
{
    uint64_t r = rnd(); int k = (r >> 8) & 63;
    switch (r & 7) { case 0: return k & 3; case 1: return -(uint64_t)(k & 3); case 2: return 1ull << k; case 3: return (1ull << k) - 1; case 4: return -(1ull << k); case 5: return r >> k; case 6: return k; }
    return rnd();
}
enum { N = 60 };
int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n)
{
    static char buf[200000]; char *q = buf;
    struct { int o, i, j, d; uint64_t a, b, r; ty rt; } e[N];
    rs = 88172645463325252ull;
    for (size_t i = 0; i < n; i++) rs = rs * 6364136223846793005ull + p[i] + 1;
    rnd();
    for (int k = 0; k < N; k++) {
        do {
            e[k].o = rnd() % 18; e[k].i = rnd() % 11; e[k].j = rnd() % 11; e[k].d = rnd() % 11;
            e[k].a = conv(T[e[k].i], val()); e[k].b = conv(T[e[k].j], val());
            if (e[k].o == 8 || e[k].o == 9) e[k].b &= 63;
            e[k].b = conv(T[e[k].j], e[k].b);
        } while (!eval(e[k].o, T[e[k].i], e[k].a, T[e[k].j], e[k].b, &e[k].r, &e[k].rt));
#define L(v) (unsigned long long)(v)
        q += sprintf(q, "unsigned long long r%d = (unsigned long long)(((%s)0x%llxull) %s ((%s)0x%llxull));\n", k, T[e[k].i].n, L(e[k].a), O[e[k].o], T[e[k].j].n, L(e[k].b));
        q += sprintf(q, "unsigned long long c%d = (unsigned long long)(%s)(((%s)0x%llxull) %s ((%s)0x%llxull));\n", k, T[e[k].d].n, T[e[k].i].n, L(e[k].a), O[e[k].o], T[e[k].j].n, L(e[k].b));
        q += sprintf(q, "unsigned s%d = sizeof(((%s)1) %s ((%s)1));\n", k, T[e[k].i].n, O[e[k].o], T[e[k].j].n);
        q += sprintf(q, "unsigned long long f%d(%s x){return (unsigned long long)(x %s ((%s)0x%llxull));}\n", k, T[e[k].i].n, O[e[k].o], T[e[k].j].n, L(e[k].b));
        q += sprintf(q, "unsigned long long g%d(%s x){return (unsigned long long)(((%s)0x%llxull) %s x);}\n", k, T[e[k].j].n, T[e[k].i].n, L(e[k].a), O[e[k].o]);
    }
    sprintf(q, "char arr[64]; long diff(int i,int j){ struct s{char c[8];}*a=(void*)arr,*b=a+i; return b-(a+j);}\n long padd(long i){ return (long)(&arr[5]+i-(long)arr) ; } long cadd(void){ return (arr+7-3)-arr; } ");
    TCCState *s = tr_compile(buf);
    if (!s) BAD("rejected: %s", tr_msg);
    for (int k = 0; k < N; k++) {
        char nm[20]; unsigned long long *v; unsigned *u;
        char what[300];
        snprintf(what, sizeof what, "(%s)0x%llx %s (%s)0x%llx", T[e[k].i].n, L(e[k].a), O[e[k].o], T[e[k].j].n, L(e[k].b));
        sprintf(nm, "r%d", k); v = tcc_get_symbol(s, nm);
        if (*v != e[k].r) BAD("%s folds to 0x%llx, is 0x%llx", what, *v, L(e[k].r));
        sprintf(nm, "c%d", k); v = tcc_get_symbol(s, nm);
        if (*v != conv(T[e[k].d], e[k].r)) BAD("(%s)(%s) folds to 0x%llx, is 0x%llx", T[e[k].d].n, what, *v, L(conv(T[e[k].d], e[k].r)));
        sprintf(nm, "s%d", k); u = tcc_get_symbol(s, nm);
        if (*u != e[k].rt.w / 8) BAD("sizeof(%s) is %u", what, *u);
        sprintf(nm, "f%d", k); unsigned long long (*f)(unsigned long long) = tcc_get_symbol(s, nm);
        if (f(e[k].a) != e[k].r) BAD("x %s c: %s gives 0x%llx, is 0x%llx", O[e[k].o], what, f(e[k].a), L(e[k].r));
        sprintf(nm, "g%d", k); f = tcc_get_symbol(s, nm);
        if (f(e[k].b) != e[k].r) BAD("c %s x: %s gives 0x%llx, is 0x%llx", O[e[k].o], what, f(e[k].b), L(e[k].r));
    }
    long (*d)(int, int) = tcc_get_symbol(s, "diff");
    if (d(5, 2) != 3 || d(1, 7) != -6) BAD("pointer difference");
    long (*pa)(long) = tcc_get_symbol(s, "padd"); if (pa(3) != 8) BAD("symbol plus constant");
    long (*ca)(void) = tcc_get_symbol(s, "cadd"); if (ca() != 4) BAD("symbol plus constants");
    tcc_delete(s);
    /* division by zero in a constant expression is diagnosed */
    static const char *z[] = { "int a[1/0];", "enum { A = 5 % 0 };", "int x; void f(void){ switch(x){ case 1u/0u: ; } }", "enum { B = 7ll / 0 };" };
    s = tr_compile(z[rs & 3]);
    if (s || !strstr(tr_msg, "division by zero")) BAD("division by zero accepted: %s", z[rs & 3]);
    return 0;
}
