/* Contracts of src/array.c.  Representation: pData has nSize slots, the first nUsed hold the
   elements, the others are NULL.  Facts about all slots are stated at one arbitrary slot g_t. */
#include "verif.h"
static size_t g_t; static void *g_m, *g_0, *g_1, *g_new, *g_last; static size_t g_cleared, g_u, g_ix; static void *g_clr;
static void *g_base, *g_old;
#ifdef BOUNDED
#define MAXN 9
#else
#define MAXN (1ul << 20)
#endif
#ifdef REC
/* free() recorded: which pointers are given back, and that none is given back twice */
#include <stdlib.h>
static void *g_fr[4]; static int g_nfr;
void rec_free(void *p) { for (int i = 0; i < 4; i++) CHECK(!(p && i < g_nfr && g_fr[i] == p), "released once"); if (p && g_nfr < 4) g_fr[g_nfr] = p; if (p) g_nfr++; }
static int was_freed(void *p) { for (int i = 0; i < 4; i++) if (i < g_nfr && g_fr[i] == p) return 1; return 0; }
#define free rec_free
#endif
#include "src/array.c"
#ifdef CUTMEM
/* contract of memcpy on tables of pointers / bytes, followed at the arbitrary place g_t */
#ifndef BYTES
void *memcpy(void *d, const void *s, size_t n)
{
    CHECK(R_OK(s, n) && W_OK(d, n), "copy stays inside both objects");
    CHECK(n % sizeof(void *) == 0, "whole slots are copied");
    void *c = g_t < n / sizeof(void *) ? ((void **)s)[g_t] : 0;
    __CPROVER_havoc_slice(d, n);
    if (g_t < n / sizeof(void *)) ((void **)d)[g_t] = c;
    return d;
}
#else
void *memcpy(void *d, const void *s, size_t n)
{
    CHECK(R_OK(s, n) && W_OK(d, n), "copy stays inside both objects");
    char c = g_t < n ? ((char *)s)[g_t] : 0;
    __CPROVER_havoc_slice(d, n);
    if (g_t < n) ((char *)d)[g_t] = c;
    return d;
}
#endif
#endif
static void arr(xarray_t *a)
{
    a->nSize = vf_range(0, MAXN); a->nUsed = vf_range(0, a->nSize); a->nFixed = nondet_bool() ? 1 : 0; a->nAlloc = nondet_bool(); a->clearCb = 0; a->eStatus = nondet_int();
    a->pData = a->nSize ? (xarray_data_t **)vf_buf(a->nSize * sizeof(void *)) : 0;
    g_base = a->pData;
    g_t = vf_range(0, MAXN); g_u = a->nUsed;
#define AT(i) ((i) < a->nSize ? a->pData[i] : 0)
    if (g_t < a->nSize) ASSUME((a->pData[g_t] != 0) == (g_t < a->nUsed));
    if (g_t && g_t - 1 < a->nSize) ASSUME((a->pData[g_t - 1] != 0) == (g_t - 1 < a->nUsed));
    if (g_t + 1 < a->nSize) ASSUME((a->pData[g_t + 1] != 0) == (g_t + 1 < a->nUsed));
    g_0 = AT(g_t); g_1 = AT(g_t + 1); g_m = g_t ? AT(g_t - 1) : 0;
    g_last = g_u ? AT(g_u - 1) : 0; if (g_u) ASSUME(g_last != 0);
    if (g_u < a->nSize) ASSUME(a->pData[g_u] == 0);
#ifdef BOUNDED
    for (size_t i = 0; i < MAXN; i++) if (i < a->nSize) ASSUME((a->pData[i] != 0) == (i < a->nUsed));
#endif
}
/* the table is valid and its tracked slot holds want (slots past nUsed: NULL) */
static void check(xarray_t *a, size_t used, void *want)
{
    CHECK(a->nUsed == used && used <= a->nSize, "number of elements");
    CHECK(a->nSize == 0 || W_OK(a->pData, a->nSize * sizeof(void *)), "storage has room for the announced number of slots");
    if (g_t < a->nSize) CHECK(a->pData[g_t] == (g_t < used ? (xarray_data_t *)want : 0), "elements are kept in order");
}
#if defined(U_add) || defined(U_insert)
/* growth keeps every element: contract proved by unit realloc */
size_t XArray_Realloc(xarray_t *a)
{
    CHECK(a->nUsed <= a->nSize && a->nSize > 0, "XArray_Realloc: valid array");
    if (a->nFixed) return a->nSize;
    if (a->nUsed == a->nSize) {
        if (nondet_bool()) { a->eStatus = XARRAY_STATUS_NO_MEMORY; return 0; }
        size_t n = a->nSize * 2; void **p = vf_buf(n * sizeof(void *));
        if (g_t < a->nUsed) p[g_t] = a->pData[g_t]; else if (g_t < n) p[g_t] = 0;
#if defined(U_insert)
        if (g_t && g_t - 1 < a->nUsed) p[g_t - 1] = a->pData[g_t - 1];
        if (g_t + 1 < a->nUsed) p[g_t + 1] = a->pData[g_t + 1];
        if (g_ix < a->nUsed) p[g_ix] = a->pData[g_ix];
        p[g_u - 1] = g_last;
#endif
        a->pData = (xarray_data_t **)p; a->nSize = n; g_base = p;
    }
    return a->nSize;
}
#endif

#ifdef U_newdata
void harness(void)
{
    size_t n = vf_range(0, MAXN); char *src = nondet_bool() ? vf_buf(n) : 0; uint32_t key = nondet_uint();
    g_t = nondet_size_t();
    char c = src && g_t < n ? src[g_t] : 0;
    xarray_data_t *d = XArray_NewData(src, n, key);
    if (d) {
        CHECK(d->nKey == key, "key");
        if (src && n) {
            CHECK(d->nSize == n && d->pData != 0 && d->pData != src, "an own copy of the given size");
            CHECK(W_OK(d->pData, n + 1) && ((char *)d->pData)[n] == 0, "the copy is terminated");
            CHECK(!__CPROVER_same_object(d->pData, src), "the copy does not share storage");
            CHECK(g_t >= n || ((char *)d->pData)[g_t] == c, "the copy holds the bytes given");
            CANARY("copy");
        } else CHECK(d->nSize == 0 && d->pData == src, "no bytes given: nothing copied");
        XArray_FreeData(d);
    }
    CANARY("end");
}
#endif
#ifdef U_init
void harness(void)
{
    xarray_t a; VF_FILL(a);
    size_t n = vf_range(0, MAXN); uint8_t f = nondet_uchar();
    g_t = nondet_size_t(); ASSUME(g_t < MAXN);
    void *r = XArray_Init(&a, n, f);
    if (n == 0 || r) { CHECK(a.nSize == n && a.nUsed == 0 && a.nFixed == f && a.clearCb == 0, "empty array"); CHECK(r == a.pData, "storage"); check(&a, 0, 0); CANARY("init"); }
    else CHECK(a.pData == 0 && a.nSize == 0 && a.nUsed == 0, "out of memory: an empty array");
    CANARY("end");
}
#endif
#ifdef U_new
static int s_f; static size_t s_n; static void *s_p;
void *XArray_Init(xarray_t *a, size_t n, uint8_t f) { s_p = a; s_n = n; s_f = f; a->nAlloc = 0; return nondet_bool() ? a : 0; }
void harness(void)
{
    size_t n = nondet_size_t(); uint8_t f = nondet_uchar();
    xarray_t *a = XArray_New(n, f);
    if (a) { CHECK(s_p == a && s_n == n && s_f == f && a->nAlloc, "new array is initialised"); CANARY("new"); }
    CANARY("end");
}
#endif
#ifdef U_realloc
void harness(void)
{
    xarray_t A, *a = &A; arr(a); ASSUME(a->nSize > 0);
    size_t n = a->nSize; uint8_t fx = a->nFixed;
    size_t r = XArray_Realloc(a);
    check(a, g_u, g_0);
    CHECK(a->nFixed == fx && (!fx || (a->nSize == n && a->pData == g_base)), "a fixed array keeps its storage");
    CHECK(r == a->nSize || r == 0, "capacity is returned");
    if (!fx && g_u == n && r) { CHECK(a->nSize > g_u, "a full array grows"); CANARY("grow"); }
    if (r == 0) CHECK(a->nSize == n, "unchanged without memory");
    CHECK(a->nUsed < 1 || a->nSize > 0, "capacity");
    if (a->nSize < n) CANARY("shrink");
    CANARY("end");
}
#endif
#ifdef U_add
static void *s_cleared; static int s_ncl;
void XArray_ClearData(xarray_t *a, xarray_data_t *d) { s_cleared = d; s_ncl++; }
void *XArray_Init(xarray_t *a, size_t n, uint8_t f)
{
    CHECK(n > 0, "initial size");
    a->eStatus = XARRAY_STATUS_EMPTY; a->clearCb = 0; a->pData = 0; a->nSize = n; a->nFixed = f; a->nAlloc = 0; a->nUsed = 0;
    if (nondet_bool()) { a->nSize = 0; return 0; }
    a->pData = vf_buf(n * sizeof(void *));
    if (g_t < n) a->pData[g_t] = 0;
    return a->pData;
}
#if WHAT == 1 || WHAT == 2
static char *s_src; static size_t s_n; static xarray_data_t *s_d; static uint32_t s_key;
xarray_data_t *XArray_NewData(void *p, size_t n, uint32_t key) { CHECK(p == s_src && n == s_n && key == s_key, "a copy of the bytes given"); return s_d; }
#endif
void harness(void)
{
    xarray_t A, *a = &A; arr(a);
    xarray_data_t E; int r; size_t n0 = a->nSize; uint8_t al = a->nAlloc;
#if WHAT == 0
    r = XArray_Add(a, &E);
#else
    s_src = vf_buf(4); s_n = nondet_size_t(); s_d = nondet_bool() ? &E : 0; s_key = WHAT == 2 ? nondet_uint() : 0;
    r = WHAT == 1 ? XArray_AddData(a, s_src, s_n) : XArray_AddDataKey(a, s_src, s_n, s_key);
#endif
    CHECK(a->nAlloc == al, "ownership of the array is kept");
    if (r == XARRAY_FAILURE) {
        check(a, g_u, g_0);
#if WHAT
        CHECK(s_ncl == (s_d != 0) && (!s_ncl || s_cleared == &E), "a copy that could not be added is released");
#else
        CHECK(s_ncl == 1 && s_cleared == &E, "a copy that could not be added is released");
#endif
        CANARY("fail");
    } else {
        CHECK(r == (int)g_u && s_ncl == 0, "index of the new element");
        check(a, g_u + 1, g_t == g_u ? (void *)&E : g_0);
        CANARY("added");
    }
}
#endif
#ifdef U_checkspace
#endif
#ifdef U_remove
/* storage may be resized afterwards; elements stay (contract proved by unit realloc) */
static int s_re;
size_t XArray_Realloc(xarray_t *a) { check(a, g_u - 1, g_t < g_ix ? g_0 : g_1); s_re = 1; return a->nSize; }
static void *s_cleared; static int s_ncl;
void XArray_ClearData(xarray_t *a, xarray_data_t *d) { s_cleared = d; s_ncl++; }
void harness(void)
{
    xarray_t A, *a = &A; arr(a);
    g_ix = nondet_size_t();
    void *e = g_ix < a->nSize ? a->pData[g_ix] : 0;
    if (g_ix < a->nSize) ASSUME((e != 0) == (g_ix < a->nUsed));
#if WHAT == 0
    xarray_data_t *r = XArray_Remove(a, g_ix);
    CHECK(r == e, "the element is returned, an index out of range is an error");
    CHECK(s_ncl == 0, "a removed element is not released");
#else
    XArray_Delete(a, g_ix);
    CHECK(s_ncl == (g_ix < g_u) && (!s_ncl || s_cleared == e), "exactly the deleted element is released");
#endif
    if (g_ix < g_u) { check(a, g_u - 1, g_t < g_ix ? g_0 : g_1); CANARY("removed"); }
    else { check(a, g_u, g_0); CANARY("out of range"); }
}
#endif
#ifdef U_insert
static void *s_cleared; static int s_ncl;
void XArray_ClearData(xarray_t *a, xarray_data_t *d) { s_cleared = d; s_ncl++; }
void *XArray_Init(xarray_t *a, size_t n, uint8_t f)
{
    a->eStatus = XARRAY_STATUS_EMPTY; a->clearCb = 0; a->pData = 0; a->nSize = n; a->nFixed = f; a->nAlloc = 0; a->nUsed = 0;
    if (nondet_bool()) { a->nSize = 0; return 0; }
    a->pData = vf_buf(n * sizeof(void *));
    if (g_t < n) a->pData[g_t] = 0;
    return a->pData;
}
#if WHAT == 1
static char *s_src; static size_t s_n; static xarray_data_t *s_d;
xarray_data_t *XArray_NewData(void *p, size_t n, uint32_t key) { CHECK(p == s_src && n == s_n && key == 0, "a copy of the bytes given"); return s_d; }
#endif
void harness(void)
{
    xarray_t A, *a = &A; arr(a);
    xarray_data_t E; g_new = &E; g_ix = nondet_size_t();
    void *e = g_ix < a->nSize ? a->pData[g_ix] : 0;
    if (g_ix < a->nSize) ASSUME((e != 0) == (g_ix < a->nUsed));
    size_t n0 = a->nSize; g_old = e;
#if WHAT == 0
    xarray_data_t *r = XArray_Insert(a, g_ix, &E);
    CHECK(s_ncl == 0, "nothing is released");
#else
    s_src = vf_buf(4); s_n = nondet_size_t(); s_d = nondet_bool() ? &E : 0;
    xarray_data_t *r = XArray_InsertData(a, g_ix, s_src, s_n);
    CHECK(r || s_ncl == 0 || s_cleared == &E, "only the new element is released");
#endif
    if (r) {
        CHECK(g_ix < g_u && r == e, "the displaced element is returned");
        check(a, g_u + 1, g_t < g_ix ? g_0 : g_t == g_ix ? (void *)&E : g_m);
        CANARY("inserted");
    } else { check(a, g_u, g_0); CANARY("refused"); }
}
#endif
#ifdef U_get
void harness(void)
{
    xarray_t A, *a = &A; arr(a);
    xarray_data_t E; E.pData = nondet_ptr(); E.nSize = nondet_size_t(); E.nKey = nondet_uint();
    size_t ix = g_t;
    if (ix < a->nUsed) a->pData[ix] = &E;
    int in = ix < a->nUsed; void *def = nondet_ptr();
    CHECK(XArray_Get(a, ix) == (in ? &E : 0), "element");
    CHECK(XArray_GetData(a, ix) == (in ? E.pData : 0), "data");
    CHECK(XArray_GetDataOr(a, ix, def) == (in ? E.pData : def), "data or default");
    CHECK(XArray_GetSize(a, ix) == (in ? E.nSize : 0), "size");
    CHECK(XArray_GetKey(a, ix) == (in ? E.nKey : 0), "key");
    CHECK(XArray_Contains(a, ix) == in, "contained");
    CHECK(XArray_Used(a) == a->nUsed && XArray_Size(a) == a->nSize, "counts");
    size_t big = nondet_size_t(); ASSUME(big >= a->nSize);
    CHECK(XArray_Get(a, big) == 0 && XArray_GetData(a, big) == 0 && XArray_GetSize(a, big) == 0 && XArray_Contains(a, big) == 0 && XArray_GetKey(a, big) == 0 && XArray_GetDataOr(a, big, def) == def, "out of range");
    CANARY("end");
}
#endif
#ifdef U_swap
void harness(void)
{
    xarray_t A, *a = &A; arr(a);
    size_t j = nondet_size_t(); void *o = j < a->nSize ? a->pData[j] : 0;
    XArray_Swap(a, g_t, j);
    check(a, g_u, g_t < g_u && j < g_u ? o : g_0);
    CANARY("end");
}
#endif
#ifdef U_clear
void XArray_ClearData(xarray_t *a, xarray_data_t *d) { if (g_cleared == g_t) CHECK(d == g_0, "elements are released in place"); g_cleared++; }
void harness(void)
{
    xarray_t A, *a = &A; arr(a); size_t n0 = a->nSize;
    XArray_Clear(a);
    CHECK(a->nUsed == 0 && g_cleared == n0, "every element is released once");
    if (g_t < a->nSize) CHECK(a->pData[g_t] == 0, "no stale element");
    CANARY("end");
}
#endif
#ifdef U_destroy
static int s_clr;
void XArray_Clear(xarray_t *a) { s_clr++; a->nUsed = 0; }
void harness(void)
{
    xarray_t *a = vf_buf(sizeof *a), *q = a; arr(a); uint8_t al = a->nAlloc; void *st = a->pData;
    if (nondet_bool()) { a->nAlloc = al = 1; XArray_Free(&q); CHECK(q == 0, "handle is cleared"); CHECK(was_freed(a), "array is released"); CHECK(!st || was_freed(st), "storage is released"); CANARY("free"); }
    else { XArray_Destroy(a); CHECK(was_freed(a) == al && (!st || was_freed(st)), "storage is released"); if (!al) CHECK(a->pData == 0 && a->nSize == 0 && a->nUsed == 0, "destroyed"); CANARY("destroy"); }
    CHECK(s_clr == 1, "elements are released");
    q = 0; XArray_Free(&q); XArray_Free(0);
}
#endif
#ifdef U_cleardata
static int s_cb; static void *s_e;
static void cb(xarray_data_t *d) { CHECK(d == s_e, "callback gets the element"); s_cb++; }
void harness(void)
{
    xarray_t A; VF_FILL(A); A.clearCb = nondet_bool() ? cb : 0;
    xarray_data_t *e = nondet_bool() ? vf_buf(sizeof *e) : 0; s_e = e;
    char *p = vf_buf(4);
    if (e) { e->nSize = nondet_bool() ? 3 : 0; e->pData = p; }
    int freed = e && e->nSize && !A.clearCb;
    XArray_ClearData(nondet_bool() || A.clearCb ? &A : 0, e);
    CHECK(s_cb == (e && A.clearCb ? 1 : 0), "callback");
    CHECK(was_freed(p) == freed && (!e || was_freed(e)) && g_nfr == freed + (e != 0), "own copies are released, foreign data is not");
    CANARY("end");
}
#endif
