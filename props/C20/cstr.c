/* Contracts of the growing strings, token strings and identifier table of lib/tinycc/tccpp.c. */
#include "verif.h"
#include "mem.h"
#undef memset
#undef memmove
#undef memcpy
#undef strlen
#define USING_GLOBALS
#include "tcc.h"
#include <stdarg.h>
#ifdef __CPROVER
#define memset vf_memset
#define memmove vf_memmove
#define memcpy vf_memmove
#define strlen vf_strlen
#endif
int _tcc_error_noabort(const char *fmt, ...) { return -1; }
VS int g_err;
void _tcc_error(const char *fmt, ...) { g_err++; ASSUME(0); }
void _tcc_warning(const char *fmt, ...) { }
void *tcc_realloc(void *p, unsigned long n) { return grow(p, n); }
VS void *g_freed; VS int g_frees;
void tcc_free(void *p) { g_freed = p; g_frees++; }
VS int g_tal_new; VS void *g_tal_p; VS size_t g_tal_sz;
VS size_t g_old, g_new; VS long g_len; VS int g_tries;
#ifdef U_vprintf
/* contract of vsnprintf: the text has g_len bytes whatever the room */
static int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    CHECK(n > 0 && W_OK(b, n), "vsnprintf stays inside the string's storage");
#ifdef __CPROVER
    __CPROVER_havoc_slice(b, n);
#endif
    g_tries = 1;
    return g_len;
}
#define vsnprintf vf_vsnprintf
#endif
#include "lib/tinycc/tccpp.c"
#ifdef U_realloc
#elif defined(RM_cstr_realloc)
/* contract of cstr_realloc, proved by unit realloc */
static void cstr_realloc(CString *c, int n)
{
    CHECK(n >= 0 && n <= (1 << 30), "cstr_realloc: size in range");
    int a = c->size_allocated, a1;
    a1 = vf_range(n > a ? n : a, 2 * (size_t)(n > a ? n : a) + 8);
    char *q = vf_buf(a1);
#ifdef __CPROVER
    if (g_t < (size_t)a) q[g_t] = c->data[g_t];
#else
    if (a) (memcpy)(q, c->data, a);
#endif
    c->data = q; c->size_allocated = a1; g_blk = q; g_blksz = a1; g_reallocs = 1;
}
#endif
#if defined(RM_tok_str_realloc)
/* contract of tok_str_realloc, proved by unit tok_realloc */
int *tok_str_realloc(TokenString *s, int n)
{
    CHECK(n >= 0 && n <= (1 << 28), "tok_str_realloc: size in range");
    int a = s->allocated_len, a1 = vf_range(n > a ? n : a, 2 * (size_t)(n > a ? n : a) + 16);
    int *q = vf_buf((size_t)a1 * sizeof(int));
#ifdef __CPROVER
    if (g_t < (size_t)a * sizeof(int)) ((char *)q)[g_t] = ((char *)s->str)[g_t];
#else
    if (a) (memcpy)(q, s->str, (size_t)a * sizeof(int));
#endif
    s->str = q; s->allocated_len = a1; g_blk = q; g_blksz = (size_t)a1 * sizeof(int); g_reallocs = 1;
    return q;
}
#endif
#if defined(RM_tal_realloc_impl)
/* contract of the pool allocator: TRUSTED: tal_realloc hands out n bytes and keeps the old contents */
static void *tal_realloc_impl(TinyAlloc **al, void *p, unsigned n) { if (!p && g_tal_new) { g_tal_sz = n; return g_tal_p = vf_buf(n); } return grow(p, n); }
#endif
static void mkcstr(CString *c)
{
    c->size_allocated = vf_range(0, BIG); c->size = vf_range(0, c->size_allocated);
    c->data = c->size_allocated ? vf_buf(c->size_allocated) : 0;
    g_t = vf_range(0, BIG * 4); g_blk = c->data; g_blksz = c->size_allocated;
}
static void mktok(TokenString *s)
{
    s->allocated_len = vf_range(0, BIG / 8); s->len = vf_range(0, s->allocated_len); s->str = s->allocated_len ? vf_buf((size_t)s->allocated_len * sizeof(int)) : 0;
    s->last_line_num = nondet_int(); s->save_line_num = nondet_int(); s->need_spc = nondet_int();
    g_t = vf_range(0, BIG * 4); g_blk = s->str; g_blksz = (size_t)s->allocated_len * sizeof(int);
}
#define ROOM CHECK(c.size >= 0 && c.size <= c.size_allocated && (c.size_allocated == 0 || W_OK(c.data, c.size_allocated)), "contents within the storage")
#define TROOM CHECK(s.len >= 0 && s.len <= s.allocated_len && W_OK(s.str, (size_t)s.allocated_len * sizeof(int)), "tokens within the storage")
void harness(void)
{
#if defined(U_realloc)
    CString c; mkcstr(&c);
    int sz = c.size; size_t a = c.size_allocated; char v = g_t < a ? c.data[g_t] : 0;
    g_new = vf_range(0, BIG * 4); g_old = c.size_allocated;
    cstr_realloc(&c, g_new);
    ROOM; CHECK(c.size_allocated >= (int)g_new && (size_t)c.size_allocated >= g_old && c.size == sz, "capacity covers the request");
    CHECK((size_t)c.size_allocated <= g_blksz, "announced capacity was allocated");
    if (g_t < a) CHECK(c.data[g_t] == v, "old bytes kept");
    CANARY("end");
#elif defined(U_ccat)
    CString c; mkcstr(&c);
    int sz = c.size, ch = nondet_int(); char v = g_t < (size_t)sz ? c.data[g_t] : 0;
    cstr_ccat(&c, ch);
    ROOM; CHECK(c.size == sz + 1 && c.data[sz] == (char)ch, "the byte is added at the end");
    if (g_t < (size_t)sz) CHECK(c.data[g_t] == v, "earlier bytes kept");
    CANARY("end");
#elif defined(U_wccat)
    CString c; mkcstr(&c);
    int sz = c.size, ch = nondet_int(); char v = g_t < (size_t)sz ? c.data[g_t] : 0;
    cstr_wccat(&c, ch);
    nwchar_t w; char *q = c.data + sz;
    ROOM; CHECK(c.size == sz + (int)sizeof(nwchar_t), "one wide character is added");
    for (unsigned i = 0; i < sizeof(nwchar_t); i++) CHECK(q[i] == (char)((unsigned)ch >> 8 * i), "it is stored little-endian at the end");
    if (g_t < (size_t)sz) CHECK(c.data[g_t] == v, "earlier bytes kept");
    CANARY("end");
#elif defined(U_cat)
    CString c; mkcstr(&c); mkstr();
    int sz = c.size, len = nondet_int(); ASSUME(len >= -1 && (len <= 0 || len <= (int)g_n + 1));
    char v = g_t < (size_t)sz ? c.data[g_t] : 0;
    int add = len > 0 ? len : (int)g_n + 1 + len;
    cstr_cat(&c, g_str, len);
    ROOM; CHECK(c.size == sz + add, "exactly the bytes asked for are added");
    if (g_t < (size_t)sz) CHECK(c.data[g_t] == v, "earlier bytes kept");
    else if (g_t < (size_t)c.size) CHECK(c.data[g_t] == g_str[g_t - sz], "the string is copied exactly");
    CANARY("end");
#elif defined(U_vprintf)
    CString c; mkcstr(&c); va_list ap; g_len = vf_range(0, BIG);
    int sz = c.size; g_old = sz; char v = g_t < (size_t)sz ? c.data[g_t] : 0; g_new = v;
#ifdef __CPROVER
    if (g_t >= (size_t)sz) g_t = 0, v = sz ? c.data[0] : 0, g_new = v;
#endif
    int r = cstr_vprintf(&c, "x", ap);
    ROOM; CHECK(r == g_len && c.size == sz + r && c.size < c.size_allocated, "exactly the text is added");
    if (g_t < (size_t)sz) CHECK(c.data[g_t] == v, "earlier bytes kept");
    CANARY("end");
#elif defined(U_misc)
    CString c; mkcstr(&c); CString b = c;
    cstr_reset(&c); CHECK(c.size == 0 && c.size_allocated == b.size_allocated && c.data == b.data, "reset empties, keeps the storage");
    cstr_free(&c); CHECK(g_frees == 1 && g_freed == b.data, "the storage is released");
    static const CString z; c = z; c.size = 1;
    c.size = 0; CHECK(c.data == 0, "new");
    CANARY("end");
#elif defined(U_tok_realloc)
    TokenString s; mktok(&s); TokenString b = s;
    size_t a = g_blksz; char v = g_t < a ? ((char *)s.str)[g_t] : 0;
    g_new = vf_range(0, BIG / 4); g_old = s.allocated_len;
    int *r = tok_str_realloc(&s, g_new);
    TROOM; CHECK(r == s.str && s.allocated_len >= (int)g_new && (size_t)s.allocated_len >= g_old && s.len == b.len, "capacity covers the request");
    CHECK((size_t)s.allocated_len * sizeof(int) <= g_blksz, "announced capacity was allocated");
    if (g_t < a) CHECK(((char *)s.str)[g_t] == v, "old tokens kept");
    if (g_reallocs) CANARY("grown");
    CANARY("end");
#elif defined(U_tok_add)
    TokenString s; mktok(&s); int len = s.len, t = nondet_int();
    char v = g_t < len * sizeof(int) ? ((char *)s.str)[g_t] : 0;
    tok_str_add(&s, t);
    TROOM; CHECK(s.len == len + 1 && s.str[len] == t, "the token is added at the end");
    if (g_t < len * sizeof(int)) CHECK(((char *)s.str)[g_t] == v, "earlier tokens kept");
    CANARY("end");
#elif defined(U_tok_add2)
    TokenString s; mktok(&s); int len = s.len, t = nondet_int(); CValue cv; 
    for (int i = 0; i < 4; i++) cv.tab[i] = nondet_int();
    int isstr = t == TOK_PPNUM || t == TOK_PPSTR || t == TOK_STR || t == TOK_LSTR;
    if (isstr) { mkstr(); cv.str.data = (char *)g_str; cv.str.size = g_n + 1; }
    char v = g_t < len * sizeof(int) ? ((char *)s.str)[g_t] : 0;
    tok_str_add2(&s, t, &cv);
    TROOM; if (g_t / 4 == (size_t)len) CHECK(((char *)s.str)[g_t] == (char)((unsigned)t >> 8 * (g_t % 4)), "the token is added at the end");
    if (g_t < len * sizeof(int)) CHECK(((char *)s.str)[g_t] == v, "earlier tokens kept");
    if (isstr) {
        CHECK(s.str[len + 1] == cv.str.size, "the string's size follows");
        CHECK((size_t)s.len == len + 2 + (cv.str.size + 3ul) / 4, "whole words are used");
        size_t o = (len + 2ul) * sizeof(int);
        if (g_t >= o && g_t - o < (size_t)cv.str.size) CHECK(((char *)s.str)[g_t] == g_str[g_t - o], "the string's bytes follow");
        CANARY("string");
    } else {
        int n = t == TOK_CINT || t == TOK_CUINT || t == TOK_CCHAR || t == TOK_LCHAR || t == TOK_CFLOAT || t == TOK_LINENUM ? 1
              : t == TOK_CDOUBLE || t == TOK_CLLONG || t == TOK_CULLONG || t == TOK_CLONG || t == TOK_CULONG ? 2 : t == TOK_CLDOUBLE ? 4 : 0;
        CHECK(s.len == len + 1 + n, "the value takes the words of its type");
        for (int i = 0; i < 4; i++) if (i < n) CHECK(s.str[len + 1 + i] == cv.tab[i], "the value follows");
        CANARY("value");
    }
#elif defined(U_tok_alloc)
    mkstr(); ASSUME(g_n <= BIG / 64);
    int i = vf_range(0, BIG / 32);
    tok_ident = TOK_IDENT + i;
    size_t cap = (i + TOK_ALLOC_INCR - 1) / TOK_ALLOC_INCR * (size_t)TOK_ALLOC_INCR; /* representation invariant of the table */
    table_ident = cap ? vf_buf(cap * sizeof(TokenSym *)) : 0;
    g_blk = table_ident; g_blksz = cap * sizeof(TokenSym *); size_t k = vf_range(0, BIG); g_t = k * sizeof(TokenSym *);
    size_t k2 = vf_range(0, BIG); TokenSym *pp = 0; char v = g_t < i * sizeof(TokenSym *) ? *((char *)table_ident + g_t) : 0;
    g_tal_new = 1;
    TokenSym *ts = tok_alloc_new(&pp, g_str, g_n);
    CHECK(ts == pp && ts == g_tal_p && g_tal_sz >= offsetof(TokenSym, str) + g_n + 1, "a new symbol with room for its name");
    CHECK(tok_ident == TOK_IDENT + i + 1 && ts->tok == TOK_IDENT + i, "symbols are numbered in order");
    CHECK(R_OK(table_ident, (i + 1) * sizeof(TokenSym *)) && table_ident[i] == ts, "the table holds it at its number");
    size_t cap1 = (i + 1 + TOK_ALLOC_INCR - 1) / TOK_ALLOC_INCR * (size_t)TOK_ALLOC_INCR;
    CHECK(W_OK(table_ident, cap1 * sizeof(TokenSym *)) && g_blksz >= cap1 * sizeof(TokenSym *), "the table has room up to the next step");
    if (g_t < i * sizeof(TokenSym *)) CHECK(((char *)table_ident)[g_t] == v, "earlier symbols keep their number");
    CHECK(ts->len == (int)g_n && ts->sym_define == 0 && ts->sym_label == 0 && ts->sym_struct == 0 && ts->sym_identifier == 0 && ts->hash_next == 0, "a new symbol has no meaning yet");
    CHECK(ts->str[g_n] == 0, "name is terminated");
    CANARY("end");
#endif
}
