/* Contracts of the pointer lists, bounded string copies and allocation wrappers of lib/tinycc/libtcc.c. */
#include "verif.h"
#include "mem.h"
#undef memset
#undef memmove
#undef memcpy
#undef strlen
#define USING_GLOBALS
#include <stdlib.h>
VS void *g_base; VS const char *g_b; VS char *g_q; VS size_t g_bl, g_N, g_i; VS int g_v;
VS void *g_free_p, *g_ra_p; VS size_t g_ra_n; VS int g_nfree, g_nra, g_exits; VS void *g_ra_r; VS int g_hit;
#include "tcc.h"
#ifdef __CPROVER
#define memset vf_memset
#define memmove vf_memmove
#define memcpy vf_memmove
static size_t vf_strlen2(const char *s) { return s == g_b ? g_bl : vf_strlen(s); }
#define strlen vf_strlen2
static char *vf_strcpy(char *d, const char *s)
{
    CHECK(s == g_str && W_OK(d, g_n + 1), "strcpy stays inside the buffer");
    __CPROVER_havoc_slice(d, g_n + 1);
    d[g_n] = 0; if (g_t <= g_n) d[g_t] = s[g_t];
    return d;
}
#define strcpy vf_strcpy
#endif
#include "lib/tinycc/libtcc.c"
#ifdef RM_tcc_realloc
void *tcc_realloc(void *p, unsigned long n) { return grow(p, n); }
#endif
#ifdef RM_tcc_malloc
void *tcc_malloc(unsigned long n) { g_ra_n = n; g_ra_r = n ? vf_buf(n) : 0; g_blk = g_ra_r; return g_ra_r; }
#endif
#ifdef RM_tcc_free
/* gives back one block: how often the tracked element is given back */
void tcc_free(void *p)
{
    if (p == g_base) { CHECK(!g_hit, "the table is released once"); g_hit = 1; CHECK(g_nfree == (g_v != 0), "every element was released once"); return; }
    CHECK(p != 0, "elements only");
#if defined(BOUNDED) || !defined(__CPROVER)
    if (p == g_free_p) g_nfree++;
#else
    if (g_i == g_t) { CHECK(p == g_free_p, "the element itself"); g_nfree++; }
#endif
}
#endif
void harness(void)
{
#if defined(U_add)
    /* representation invariant: a table of n pointers has room up to the next power of two */
    int sh = vf_range(0, 24); size_t cap = (size_t)1 << sh; int nb = vf_range(0, cap);
    ASSUME(nb == 0 || (size_t)nb > cap / 2 || cap == 1);
    void **tab = nb ? vf_buf(cap * sizeof(void *)) : 0; if (!nb) cap = 0;
    size_t k = vf_range(0, 1 << 25); g_t = k * sizeof(void *) + vf_range(0, 7);
    g_blk = tab; g_blksz = cap * sizeof(void *);
    char v = k < (size_t)nb ? ((char *)tab)[g_t] : 0; void *d = nondet_ptr(); int n = nb;
    dynarray_add(&tab, &n, d);
    CHECK(n == nb + 1 && R_OK(tab, n * sizeof(void *)) && tab[nb] == d, "the pointer is added at the end");
    if (k < (size_t)nb) CHECK(((char *)tab)[g_t] == v, "earlier pointers kept");
    size_t c2 = g_blksz / sizeof(void *);
    CHECK((c2 & (c2 - 1)) == 0 && (size_t)n <= c2 && ((size_t)n > c2 / 2), "room up to the next power of two");
    CHECK(W_OK(tab, g_blksz), "announced room exists");
    CANARY("end");
#elif defined(U_reset)
    int n = vf_range(0, BIG / 8); g_N = n;
    void **tab = vf_buf(n * sizeof(void *) + 1); void *p = tab; g_base = tab; g_t = n ? vf_range(0, n - 1) : 0; g_i = 0;
#if defined(BOUNDED) || !defined(__CPROVER)
    for (int i = 0; i < n; i++) { tab[i] = nondet_bool() ? (char *)tab + 1 + i : 0; }
#endif
    g_free_p = n ? tab[g_t] : 0; g_v = g_free_p != 0; if (g_free_p) ASSUME(g_free_p != g_base);
    dynarray_reset(&p, &n);
    CHECK(p == 0 && n == 0, "the list is empty afterwards");
    CHECK(g_hit, "the table is released");
    CANARY("end");
#elif defined(U_pstrcpy)
    mkstr(); g_N = vf_range(0, BIG); char *b = vf_buf(g_N); g_q = b; g_t = vf_range(0, BIG); ASSUME(g_t < g_n);
    ASSUME(g_str[g_t] != 0); /* g_n is the position of the first NUL */
    char *r = pstrcpy(b, g_N, g_str);
    CHECK(r == b, "returns the buffer");
    if (g_N) {
        size_t m = g_n < g_N - 1 ? g_n : g_N - 1;
        CHECK(b[m] == 0, "terminated where the copy ends");
        if (g_t < m) CHECK(b[g_t] == g_str[g_t], "a prefix of the string is copied exactly");
        CANARY("copied");
    }
    CANARY("end");
#elif defined(U_pstrcat)
    mkstr(); g_N = vf_range(0, BIG); g_q = vf_buf(BIG > g_N ? BIG + 1 : g_N);
    char *b = vf_buf(g_N + 1);
    g_bl = vf_range(0, g_N); b[g_bl] = 0; g_b = b;
#ifndef __CPROVER
    for (size_t i = 0; i < g_bl; i++) if (!b[i]) b[i] = 'y';
#endif
    char *r = pstrcat(b, g_N, g_str);
    CHECK(r == b, "returns the buffer");
    CHECK(g_nfree == (g_bl < g_N), "appends only when there is room");
    if (g_bl < g_N) CHECK(g_free_p == b + g_bl && g_ra_n == g_N - g_bl && g_ra_p == g_str, "the string is copied behind the text into the rest of the buffer");
    CANARY("end");
#elif defined(U_pstrncpy)
    mkstr(); size_t num = vf_range(0, g_n); char *b = vf_buf(num + 1); g_t = vf_range(0, BIG); g_blk = b; g_blksz = num + 1;
    char *r = pstrncpy(b, g_str, num);
    CHECK(r == b && b[num] == 0, "terminated after num bytes");
    if (g_t < num) CHECK(b[g_t] == g_str[g_t], "copied exactly");
    CANARY("end");
#elif defined(U_strdup)
    mkstr(); g_t = vf_range(0, BIG);
    char *r = tcc_strdup(g_str);
    CHECK(r == g_ra_r && g_ra_n == g_n + 1, "a new block with room for the string");
    if (g_t <= g_n) CHECK(r[g_t] == g_str[g_t], "copied exactly");
    CANARY("end");
#elif defined(U_mallocz)
    size_t n = vf_range(0, BIG); g_t = vf_range(0, BIG);
#ifdef __CPROVER
    g_blk = 0;
#endif
    unsigned char *r = tcc_mallocz(n);
    CHECK(r == g_ra_r && g_ra_n == n, "a new block of that size");
    if (g_t < n) CHECK(r[g_t] == 0, "all zero");
    CANARY("end");
#elif defined(U_default)
    size_t n = vf_range(0, BIG), o = vf_range(1, BIG);
    char *p = nondet_bool() ? (malloc)(o) : 0; 
#ifdef __CPROVER
    if (p) { g_t = vf_range(0, o - 1); }
    char v = p ? p[g_t] : 0;
    char *r = default_reallocator(p, n);
    if (n == 0) { CHECK(r == 0, "nothing is left"); CANARY("freed"); }
    else { CHECK(r != 0 && W_OK(r, n), "otherwise the block has the new size and is never null"); }
#endif
    CANARY("end");
#endif
}
#ifdef RM_pstrcpy
char *pstrcpy(char *b, size_t n, const char *s) { CHECK(n > 0 && W_OK(b, n), "room for the rest"); g_free_p = b; g_ra_n = n; g_ra_p = (void *)s; g_nfree++; return b; }
#endif
