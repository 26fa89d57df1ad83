/* Contracts of src/file.c: loading files and standard input, writing files.  The C library is
   replaced by contracts that allow every outcome; one byte position g_t (arbitrary) is tracked. */
#include "verif.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <inttypes.h>
#include <limits.h>
#include <ftw.h>
#include "src/cjit.h"
#include "src/cwalk.h"
#ifdef __CPROVER
#define LEN() nondet_size_t()
#else
#define LEN() (nondet_size_t() % 3000)
#endif
VS int s_bad, s_dummy;
void _err(const char *f, ...) { (void)f; }
void _out(const char *f, ...) { (void)f; }
static char *s_strerror(int e) { return (char *)"e"; }
#undef strerror
#define strerror s_strerror
VS size_t g_t; VS char g_c; VS int s_open, s_opens; VS char s_file[sizeof(FILE)]; VS char s_name[4], s_mode;
#define FP ((FILE *)s_file)
static FILE *s_fopen(const char *n, const char *m)
{
    CHECK(n == s_name && m[0] == s_mode && !s_open, "the file named"); s_opens++;
    if (nondet_bool()) { s_bad = 1; return 0; }
    s_open = 1; return FP;
}
#define fopen s_fopen

#ifdef U_load
VS long s_size; VS int s_pos;
static int s_fseek(FILE *f, long o, int w) { CHECK(f == FP && s_open && o == 0 && w == SEEK_END, "end of the file"); s_pos = 1; return nondet_bool() ? 0 : -1; }
static long s_ftell(FILE *f) { CHECK(f == FP && s_open && s_pos, "size of the file"); if (nondet_bool()) { s_bad = 1; return -1; } return s_size; }
static int s_fclose(FILE *f) { CHECK(f == FP && s_open, "closed once"); s_open = 0; return 0; }
static size_t s_fread(void *d, size_t sz, size_t n, FILE *f)
{
    CHECK(f == FP && s_open && sz == 1 && n == (size_t)s_size && W_OK(d, n), "reads the whole file into the buffer");
    size_t r = nondet_bool() ? n : vf_range(0, n); if (r < n) s_bad = 1;
#ifdef __CPROVER
    if (r) __CPROVER_havoc_slice(d, r);
#else
    memset(d, 'f', r);
#endif
    if (g_t < r) ((char *)d)[g_t] = g_c;
    return r;
}
#define fseek s_fseek
#define ftell s_ftell
#define fclose s_fclose
#define fread s_fread
#include "src/file.c"
void harness(void)
{
    s_mode = 'r'; g_t = LEN(); g_c = nondet_char();
#ifdef __CPROVER
    s_size = (long)nondet_size_t();
#else
    s_size = (long)(nondet_size_t() % 5000) - 1;
#endif
    unsigned n = 77;
    char *r = file_load(s_name, &n);
    CHECK(!s_open, "closed");
    if (s_bad || s_size < 1) CHECK(!r, "unreadable, empty or partly read files are refused");
    if (r) {
        CHECK((long)n == s_size && R_OK(r, (size_t)s_size + 1) && r[s_size] == 0, "length, and terminated");
        if (g_t < (size_t)s_size) CHECK(r[g_t] == g_c, "exactly the bytes of the file");
        CANARY("ok");
#ifndef __CPROVER
        free(r);
#endif
    } else CANARY("fail");
}
#endif

#ifdef U_stdin
VS char *g_code, *g_line; VS size_t g_used, g_rd; VS int g_eof, s_freed, s_err; VS char g_lc;
static ssize_t s_getline(char **l, size_t *n, FILE *f)
{
    CHECK(f == stdin && !*l && !g_eof, "next line of standard input, into a new buffer");
    if (nondet_bool()) { g_eof = 1; s_err = nondet_bool(); if (nondet_bool()) *l = g_line = (char *)vf_buf(1); return -1; }
    g_rd = LEN(); ASSUME(g_rd >= 1 && g_rd < SSIZE_MAX - 1 && g_used < (1ul << 40) && g_rd < (1ul << 40));
    g_line = (char *)vf_buf(g_rd + 1); g_line[g_rd] = 0;
    *l = g_line; *n = g_rd + 1;
    if (g_t >= g_used && g_t - g_used < g_rd) g_c = g_line[g_t - g_used];
    return g_rd;
}
static void *s_realloc(void *o, size_t n)
{
    CHECK(o == (void *)g_code, "the text so far is extended");
    CHECK(n == g_used + g_rd + 1, "by the line read");
    if (nondet_bool()) { s_bad = 1; return 0; }
    char *p = (char *)vf_buf(n);
#ifdef __CPROVER
    if (g_t < g_used) p[g_t] = g_code[g_t];
#else
    if (g_used) memcpy(p, g_code, g_used);
#endif
    g_code = p;
    return p;
}
static void *s_memcpy(void *d, const void *s, size_t n)
{
    CHECK(s == g_line && n == g_rd && (char *)d == g_code + g_used && W_OK(d, n + 1), "appends exactly the bytes of the line");
#ifdef __CPROVER
    char k = g_t < g_used ? g_code[g_t] : 0;
    __CPROVER_havoc_slice(d, n);
    if (g_t >= g_used && g_t - g_used < n) g_code[g_t] = g_c;
    if (g_t < g_used) ASSUME(g_code[g_t] == k);
#else
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((char *)s)[i];
#endif
    g_used += n;
    return d;
}
static void s_free(void *p) { if (!p) return; CHECK(p == (void *)g_line || (p == (void *)g_code && !s_freed), "frees its own buffers"); if (p == (void *)g_code) s_freed = 1; else g_line = 0; }
static int s_ferror(FILE *f) { CHECK(f == stdin, "read errors of standard input"); if (s_err) s_bad = 1; return s_err; }
#define getline s_getline
#define realloc s_realloc
#define free s_free
#define ferror s_ferror
#define fflush(f) ((void)0)
#undef memcpy
#define memcpy s_memcpy
#include "src/file.c"
void harness(void)
{
    g_t = LEN(); g_c = nondet_char(); g_code = 0; g_used = 0; g_eof = 0; s_freed = 0;
    char *r = load_stdin();
    if (s_bad || s_err) { CHECK(!r, "a read error or lack of memory is reported, not partial text"); CANARY("bad"); }
    else {
        CHECK(g_eof, "reads to the end");
        if (g_used) { CHECK(r == g_code && !s_freed && r[g_used] == 0, "terminated text"); if (g_t < g_used) CHECK(r[g_t] == g_c, "exactly the bytes read"); CANARY("text"); }
        else { CHECK(!r || !r[0], "no text"); CANARY("none"); }
    }
}
#endif

#ifdef U_write
VS char *g_buf, *g_full; VS unsigned g_len; VS int s_wrote; VS char s_dir[3], s_fn[3];
size_t cwk_path_join(const char *a, const char *b, char *d, size_t n)
{
    CHECK(a == s_dir && b == s_fn && n >= 2 && W_OK(d, n), "name inside the directory");
    size_t l = nondet_bool() ? vf_range(0, n - 1) : n - 1;
#ifdef __CPROVER
    __CPROVER_havoc_slice(d, n);
#endif
    d[l] = 0; g_full = d;
    return l;
}
static FILE *s_fopenw(const char *n, const char *m)
{
    CHECK(n == g_full && m[0] == 'w' && !s_opens, "the file named"); s_opens++;
    if (nondet_bool()) { s_bad = 1; return 0; }
    s_open = 1; return FP;
}
static size_t s_fwrite(const void *b, size_t sz, size_t n, FILE *f)
{
    CHECK(f == FP && s_open && b == g_buf && sz * n == g_len && (sz == 1 || n == 1) && !s_wrote, "all bytes, once");
    s_wrote = 1;
    size_t r = nondet_bool() ? n : vf_range(0, n); if (r < n) s_bad = 1;
    return r;
}
static int s_fclose(FILE *f) { CHECK(f == FP && s_open, "closed once"); s_open = 0; if (nondet_bool()) { s_bad = 1; return EOF; } return 0; }
#undef fopen
#define fopen s_fopenw
#define fwrite s_fwrite
#define fclose s_fclose
#include "src/file.c"
void harness(void)
{
    g_len = (unsigned)LEN(); g_buf = (char *)nondet_ptr();
    bool r = write_to_file(s_dir, s_fn, g_buf, g_len);
    CHECK(!s_open, "closed");
    CHECK(r == (s_wrote && !s_bad), "true exactly when everything was written");
    if (r) CANARY("ok"); else CANARY("fail");
}
#endif
