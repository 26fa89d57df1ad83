/* Search for a failing history: the real src/array.c against a plain list. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static void die(const char *m) { fprintf(stderr, "REFUTED: %s\n", m); abort(); }
static int cnt, failat;
static void *r_malloc(size_t n) { if (++cnt == failat) return 0; return malloc(n); }
#define malloc(n) r_malloc(n)
#include "src/array.c"
#undef malloc
static struct { char *p; size_t n; uint32_t key; } L[2000]; static int n_;
static void cmp(xarray_t *a)
{
    if ((int)XArray_Used(a) != n_) die("number of elements");
    if (XArray_Size(a) < XArray_Used(a)) die("capacity");
    for (int i = 0; i < n_ + 3; i++) {
        xarray_data_t *e = XArray_Get(a, i);
        if (i >= n_) { if (e || XArray_GetData(a, i) || XArray_Contains(a, i)) die("index out of range is reported"); continue; }
        if (!e || e->nSize != L[i].n || e->nKey != L[i].key || memcmp(e->pData, L[i].p, L[i].n) || ((char *)e->pData)[L[i].n]) die("elements are kept in order");
        if (XArray_GetData(a, i) != e->pData || XArray_GetSize(a, i) != e->nSize || XArray_GetKey(a, i) != e->nKey) die("lookup");
    }
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    if (n < 4) return 0;
    int oom = d[1] & 1; cnt = 0; failat = 0; n_ = 0;
    int fixed = d[1] & 2 && d[0] % 20;
    size_t cap = d[0] % 20;
    xarray_t *a = XArray_New(cap, fixed ? 1 : 0);
    if (!a) die("new");
    cnt = 0; failat = oom ? d[2] + 1 : 0;
    uint32_t serial = 0;
    for (size_t i = 3; i + 1 < n && n_ < 1500; i += 2) {
        char buf[300]; size_t len = d[i + 1] % 40 + 1; uint32_t key = 0;
        for (size_t k = 0; k < len; k++) buf[k] = (char)(serial * 7 + k * 3);
        serial++;
        int op = d[i] % 16, r; size_t ix = d[i + 1] % (n_ + 2);
        if (op < 8 || op == 8) {
            if (op == 8) { key = serial; r = XArray_AddDataKey(a, buf, len, key); } else r = XArray_AddData(a, buf, len);
            if (fixed && n_ == (int)cap && r >= 0) die("full array of fixed size");
            if (r < 0) { if (!failat && !(fixed && n_ == (int)cap)) die("adding fails"); }
            else { if (r != n_) die("index of the new element"); L[n_].p = malloc(len); memcpy(L[n_].p, buf, len); L[n_].n = len; L[n_].key = key; n_++; }
            memset(buf, 'Z', len);
        } else if (op < 11) {
            xarray_data_t *e = XArray_Remove(a, ix);
            if ((e != 0) != ((int)ix < n_)) die("removing");
            if (e) { if (e->nSize != L[ix].n || memcmp(e->pData, L[ix].p, e->nSize)) die("the removed element is returned"); XArray_FreeData(e); }
            if ((int)ix < n_) { free(L[ix].p); memmove(L + ix, L + ix + 1, (n_ - ix - 1) * sizeof L[0]); n_--; }
        } else if (op == 11) {
            XArray_Delete(a, ix);
            if ((int)ix < n_) { free(L[ix].p); memmove(L + ix, L + ix + 1, (n_ - ix - 1) * sizeof L[0]); n_--; }
        } else if (op < 15) {
            xarray_data_t *e = XArray_InsertData(a, ix, buf, len);
            int full = fixed && n_ == (int)cap;
            if (e && ((int)ix >= n_ || full)) die("inserting past the end");
            if (!e && (int)ix < n_ && !full && !failat) die("inserting fails");
            if (e) { memmove(L + ix + 1, L + ix, (n_ - ix) * sizeof L[0]); L[ix].p = malloc(len); memcpy(L[ix].p, buf, len); L[ix].n = len; L[ix].key = 0; n_++; }
            memset(buf, 'Z', len);
        } else { size_t j = (ix * 3 + 1) % (n_ + 2); XArray_Swap(a, ix, j); if ((int)ix < n_ && (int)j < n_) { __typeof__(L[0]) t = L[ix]; L[ix] = L[j]; L[j] = t; } }
        cmp(a);
    }
    if (d[1] & 4) { XArray_Clear(a); for (int i = 0; i < n_; i++) free(L[i].p); n_ = 0; cmp(a); if (!fixed || cap) { failat = 0; if (XArray_AddData(a, "x", 2) != 0) die("add after clear"); } }
    XArray_Free(&a); if (a) die("handle");
    while (n_) free(L[--n_].p);
    return 0;
}
