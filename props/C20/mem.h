/* Memory contracts shared by the units of C20: allocation gives the number of bytes asked for
   and keeps the old contents; facts about all bytes of a buffer are followed at one arbitrary
   byte g_t.  Natively the real C library is used. */
#ifndef MEM_H
#define MEM_H
#include <string.h>
VS size_t g_t;            /* the tracked byte of the growing buffer */
VS void *g_blk; VS size_t g_blksz; /* the buffer (0: none yet) */
VS size_t g_asked; VS int g_reallocs;
VS const char *g_str; VS size_t g_n; /* the string handed over and its length */
#ifdef BOUNDED
#define BIG 40
#else
#define BIG (1ul << 28)
#endif
static void *grow(void *p, size_t n)
{
    CHECK(p == g_blk, "the buffer itself is grown");
    CHECK(n >= g_blksz && n > 0, "a buffer never shrinks");
    unsigned char *q = vf_buf(n);
#ifdef __CPROVER
    if (g_t < g_blksz) q[g_t] = ((unsigned char *)p)[g_t];
#else
    if (g_blksz) (memcpy)(q, p, g_blksz);
#endif
    g_blk = q; g_blksz = n; g_asked = n; g_reallocs = 1;
    return q;
}
#ifdef __CPROVER
static void *vf_memset(void *d, int c, size_t n)
{
    if (n == 0) return d;
    CHECK(W_OK(d, n), "memset stays inside the buffer");
    size_t o = __CPROVER_POINTER_OFFSET(d);
    __CPROVER_havoc_slice(d, n);
    if (d == (void *)((char *)g_blk + o) && g_t >= o && g_t - o < n) ((char *)g_blk)[g_t] = c;
    return d;
}
static void *vf_memmove(void *d, const void *s, size_t n)
{
    if (n == 0) return d;
    CHECK(W_OK(d, n) && R_OK(s, n), "copy stays inside both objects");
    size_t o = __CPROVER_POINTER_OFFSET(d);
    int in = __CPROVER_same_object(d, g_blk) && g_t >= o && g_t - o < n;
    char v = in ? ((const char *)s)[g_t - o] : 0;
    __CPROVER_havoc_slice(d, n);
    if (in) ((char *)g_blk)[g_t] = v;
    return d;
}
static size_t vf_strlen(const char *s) { CHECK(s == g_str, "length of the string handed over"); return g_n; }
#define memset vf_memset
#define memmove vf_memmove
#define memcpy vf_memmove
#define strlen vf_strlen
#endif
/* a string of arbitrary length */
static void mkstr(void)
{
    g_n = vf_range(0, BIG);
    char *p = vf_buf(g_n + 1);
#ifdef __CPROVER
    p[g_n] = 0;
#ifdef BOUNDED
    for (size_t i = 0; i < BIG; i++) if (i < g_n) ASSUME(p[i] != 0);
#endif
#else
    for (size_t i = 0; i < g_n; i++) if (!p[i]) p[i] = 'x';
    p[g_n] = 0;
#endif
    g_str = p;
}
#endif
