/* Contracts of src/main.c and src/ketopt.h.  main() runs over the contracts of the option parser,
   of the argument filter and of the rest of cjit; any number of words. */
#include "verif.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include <errno.h>
#include <ctype.h>
#include <unistd.h>
#include <limits.h>
#include "src/cjit.h"
#ifdef __CPROVER
#define LEN() nondet_size_t()
#else
#define LEN() (nondet_size_t() % 40)
#endif
VS int s_bad;
void _err(const char *f, ...) { (void)f; }
static int s_eq(const char *a, const char *b, int n) { for (int i = 0; i < n; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }

#ifdef U_main
VS CJITState s_cj; VS int g_n, g_argc, g_ind, g_left, g_files, g_next, g_in, g_c, g_calls, g_pv, g_ped, g_final, g_sep, g_ran, g_ret, g_retset, g_freed, g_len, g_inv;
VS char **g_clean, **g_argv, *g_arg, *g_out, *g_ent, *g_pid, *g_mem, *g_old, s_o[1], s_e[1], s_p[1], s_w[2], s_a1[16], s_txt[2], s_tgz[4], s_tmp[2]; VS size_t g_al, g_l1, g_memsz;
static void s_exit(int r);
static size_t s_strlen(const char *s)
{
    if (s == s_a1) return g_l1;
    CHECK(s == g_arg && g_arg, "length of the option value"); return g_al;
}
static int s_strcmp(const char *a, const char *b)
{
    if (a == s_a1) return !s_eq(a, b, 16);
    CHECK(a == g_arg && g_c == 'p' && s_eq(b, "edantic", 8), "compares the option value"); return !g_ped;
}
static void *s_malloc(size_t n) { CHECK(!g_mem, "one copy"); g_mem = (char *)vf_buf(n); g_memsz = n; return g_mem; }
static void s_free(void *p) { if (!p || p == (void *)g_clean || p == (void *)s_txt) return; CHECK((p == (void *)g_out || p == (void *)g_ent || p == (void *)g_pid) && !g_old, "replaced value"); g_old = (char *)p; }
static char *s_strcpy(char *d, const char *s) { CHECK(s == g_arg && d == g_mem && g_memsz > g_al, "copies the whole option value"); CHECK(g_c == 'o' || g_c == 'e' || g_c == 'p', "option with a stored value"); g_calls++; return d; }
static char *s_strdup(const char *s) { CHECK(s == g_arg && !g_mem, "copies the whole option value"); CHECK(g_c == 'o' || g_c == 'e' || g_c == 'p', "option with a stored value"); g_mem = (char *)vf_buf(1); g_calls++; return g_mem; }
#define main cjit_main
#define exit s_exit
#define malloc s_malloc
#define free s_free
#undef strlen
#undef strcmp
#undef strcpy
#undef strdup
#define strlen s_strlen
#define strcmp s_strcmp
#define strcpy s_strcpy
#define strdup s_strdup
#define OKPTR(p, q) ((p) == 0 || (p) == (q))
#define INV (s_cj.output_filename == g_out && s_cj.entry == g_ent && s_cj.write_pid == g_pid && g_c == 0 && g_calls == 0 && !g_old && !g_mem && !s_bad && !g_ran && !g_final && !g_in && g_next == 0 && !g_left && !g_inv && !g_retset && OKPTR(g_out, s_o) && OKPTR(g_ent, s_e) && OKPTR(g_pid, s_p) \
  && (s_cj.output_obj ? s_cj.tcc_output == OBJ : s_cj.tcc_output == (g_out ? EXE : MEM)))
static void effect(void)
{
    if (!g_c) return;
    int want = g_c == 'D' || g_c == 'L' || g_c == 'l' || g_c == 'C' || g_c == 'I' || g_c == 'o' || g_c == 'e' || (g_c == 'p' && !g_ped);
    CHECK(g_calls == want, "every option value reaches its destination, once");
    CHECK(g_c != 'h' && g_c != 'a' && g_c != 'x', "help and extraction end the run");
    CHECK(s_cj.output_filename == (g_c == 'o' ? g_mem : g_out), "output file is the last -o");
    CHECK(s_cj.entry == (g_c == 'e' ? g_mem : g_ent), "entry point is the last -e");
    CHECK(s_cj.write_pid == (g_c == 'p' && !g_ped ? g_mem : g_pid), "pid file is the last -p");
    CHECK(!g_old || (g_old != s_cj.output_filename && g_old != s_cj.entry && g_old != s_cj.write_pid), "freed values are not used again");
    if (g_c == 'o') { s_cj.output_filename = g_out = s_o; }
    if (g_c == 'e') { s_cj.entry = g_ent = s_e; }
    if (g_c == 'p' && !g_ped) { s_cj.write_pid = g_pid = s_p; }
    CHECK(g_c != 'c' || s_cj.output_obj, "-c compiles to an object file");
    CHECK(g_c != 'V' || s_cj.verbose, "--verb");
    CHECK(g_c != 'v' || s_cj.print_status, "-v");
    CANARY("option");
    g_c = 0; g_calls = 0; g_mem = 0; g_old = 0;
}
void _out(const char *f, ...) { CHECK(s_eq(f, "%s", 3), "prints a fixed format"); }
#include "src/main.c"
#ifdef BOUNDED
#define FIRST ASSUME(g_files <= 2); if (g_files) g_clean[g_ind] = s_w; if (g_files > 1) g_clean[g_ind + 1] = s_w;
#else
#define FIRST if (g_files) g_clean[g_ind] = s_w;
#endif
static int takes(const char *o, int c) { for (int i = 0; i < 40 && o[i]; i++) if (o[i] == c && c != ':') return o[i + 1] == ':' ? 2 : 1; return 0; }
static int ketopt(ketopt_t *s, int argc, char *argv[], int permute, const char *ostr, const ko_longopt_t *lo)
{
    effect();
    CHECK(argc == g_n && argv == g_clean && permute, "all words are looked at");
    s->arg = 0; g_al = LEN(); ASSUME(g_al < (1ul << 40)); g_arg = 0;
    int k = (int)vf_range(0, 4);
#ifdef BOUNDED
    static int calls; if (++calls > 2) ASSUME(k < 2);
#endif
    if (k == 0) { /* all words seen: the rest are file names */
        s->ind = (int)vf_range(1, g_n); s->n_args = g_n - s->ind; s->i = g_n;
            g_ind = s->ind; g_left = g_n; g_files = g_n - g_ind; FIRST return -1;
    }
    if (k == 1) { /* separator */
        if (g_n < 2) return '?';
        s->ind = (int)vf_range(2, g_n); s->n_args = (int)vf_range(0, g_n - s->ind); s->i = s->ind + s->n_args;
        g_ind = s->ind; g_left = s->i; g_files = s->n_args; FIRST g_sep = 1; return '-';
    }
    if (k == 2) { s->opt = nondet_char(); return nondet_bool() ? '?' : ':'; }
    if (k == 3) { /* short option */
        static const char T[] = "qhvcDIlLCoepag";
        int c = T[vf_range(0, sizeof T - 2)], t = takes(ostr, c);
        if (c == 'g' || c == 'a') { if (!t) return '?'; g_c = 'g'; }
        else {
            CHECK(t == (c == 'q' || c == 'h' || c == 'v' || c == 'c' ? 1 : 2), "documented option and its value");
            g_c = c;
        }
        if (t == 2) { g_arg = (char *)vf_buf(1); s->arg = g_arg; }
        g_ped = nondet_bool();
        s->opt = c; return c;
    }
    static const char *const L[] = { "help", "verb", "xass", "xtgz" }; static const char C[] = "hVax"; static const int H[] = { 0, 0, 2, 1 };
    int w = (int)vf_range(0, 3);
    for (int j = 0; j < 8 && lo[j].name; j++)
        if (s_eq(lo[j].name, L[w], 5)) {
            CHECK(lo[j].has_arg == H[w], "documented long option and its value");
            g_c = C[w];
            if (H[w] == 1 || nondet_bool()) s->arg = g_arg = (char *)vf_buf(1);
            return lo[j].val;
        }
    CHECK(0, "documented long option");
    return '?';
}
static char **remove_args(int *argc, char **argv, const char **rm, int n)
{
    CHECK(*argc == g_argc && argv == g_argv && rm == ignored_args && n == sizeof ignored_args / sizeof *ignored_args, "drops only the ignored flags");
    if (nondet_bool()) { s_bad = 1; return 0; }
    *argc = g_n; return g_clean;
}
static int parse_value(char *s) { CHECK(g_c == 'D' && s == g_arg, "definition"); int r = nondet_int(); ASSUME(r >= -1 && r <= 1100); g_pv = r; if (r < 0) s_bad = 1; return r; }
CJITState *cjit_new(void) { if (nondet_bool()) { s_bad = 1; return 0; } return &s_cj; }
void cjit_free(CJITState *c) { CHECK(c == &s_cj && !g_freed, "released once"); g_freed = 1; }
void cjit_set_output(CJITState *c, int o) { if (o >= 1 && o <= 5) c->tcc_output = o; }
void cjit_define_symbol(CJITState *c, const char *s, const char *v) { g_calls++; CHECK(g_c == 'D' && s == g_arg && g_pv >= 0 && v == (g_pv > 0 ? g_arg + g_pv : (char *)0), "-D splits into name and value"); }
void cjit_add_library_path(CJITState *c, const char *p) { g_calls++; CHECK(g_c == 'L' && p == g_arg, "-L"); }
void cjit_add_library(CJITState *c, const char *p) { g_calls++; CHECK(g_c == 'l' && p == g_arg, "-l"); }
void cjit_set_tcc_options(CJITState *c, const char *p) { g_calls++; CHECK(g_c == 'C' && p == g_arg, "-C"); }
void cjit_add_include_path(CJITState *c, const char *p) { g_calls++; CHECK(g_c == 'I' && p == g_arg, "-I"); }
bool extract_assets(CJITState *c, const char *p) { CHECK(g_c == 'a' && p == g_arg && !g_freed, "--xass"); s_cj.tmpdir = s_tmp; if (nondet_bool()) { s_bad = 1; return false; } g_final = 1; return true; }
char *file_load(const char *p, unsigned *len) { CHECK(g_c == 'x' && p == g_arg, "--xtgz"); if (nondet_bool()) { s_bad = 1; return 0; } g_len = (int)vf_range(1, 4); *len = g_len; return s_tgz; }
int muntargz_to_path(const char *path, const uint8_t *b, const unsigned int n) { CHECK(g_c == 'x' && (char *)b == s_tgz && (int)n == g_len && s_eq(path, ".", 2), "unpacks the archive named"); int r = nondet_int(); if (r) s_bad = 1; else g_final = 1; return r; }
int cjit_ar(CJITState *c, int ac, char **av) { CHECK(ac == g_argc - 1 && av == g_argv + 1 && s_eq(s_a1, "-ar", 4) && !g_ran, "archiver gets all words"); g_ran = 1; g_ret = nondet_int(); g_retset = 1; if (!g_ret) g_final = 1; return g_ret; }
bool cjit_status(CJITState *c) { if (g_left && !g_files) g_final = 1; return true; }
char *load_stdin(void) { if (nondet_bool()) { s_bad = 1; return 0; } return s_txt; }
#define CONFTEST (g_argc > 1 && g_l1 == 10 && s_eq(s_a1, "conftest.c", 11))
bool cjit_add_buffer(CJITState *c, const char *b)
{
    CHECK(!s_bad && b == s_txt, "standard input is compiled");
    if (g_files) { CHECK(g_next < g_files && s_w[0] == '-', "file names in order"); g_next++; } else { CHECK(!g_in, "once"); g_in = 1; }
    if (nondet_bool()) { s_bad = 1; return false; }
    return true;
}
bool cjit_add_file(CJITState *c, const char *p)
{
    if (CONFTEST && p == s_a1) CHECK(!g_in && g_n == 0 , "conftest");
    else CHECK(!s_bad && g_next < g_files && p == s_w && s_w[0] != '-', "file names in order, each once");
    g_next++; g_in = 1;
    if (nondet_bool()) { s_bad = 1; return false; }
    return true;
}
bool cjit_compile_file(CJITState *c, const char *p) { CHECK(g_files == 1 && p == s_w && !s_bad && s_cj.tcc_output == OBJ, "compiles the one file named"); g_next++; if (nondet_bool()) { s_bad = 1; return false; } g_final = 1; return true; }
int cjit_link(CJITState *c)
{
    CHECK(!s_bad && !g_ran, "no link after a failure");
    if (CONFTEST) CHECK(g_in && s_eq(s_cj.output_filename, "a.out", 6) && s_cj.tcc_output == EXE, "conftest is linked to a.out");
    else CHECK(g_out && s_cj.output_filename == g_out && (g_files ? g_next == g_files : g_in), "links everything to the file named by -o");
    int r = nondet_bool() ? 0 : -1; if (r) s_bad = 1; else { g_final = 1; g_ret = 0; g_retset = 1; }
    return r;
}
int cjit_exec(CJITState *c, int ac, char **av)
{
    CHECK(!s_bad && !g_ran, "runs once, and only when every step succeeded");
    CHECK(!g_out && (g_files ? g_next == g_files : g_in), "every file named was loaded");
    CHECK(ac == g_n - g_left + 1 && av == g_clean + (g_left - 1), "the program gets all words after --");
    g_ran = 1; g_ret = nondet_int(); g_retset = 1; if (!g_ret) g_final = 1;
    if (g_sep) CANARY("runs with arguments"); 
    return g_ret;
}
static void s_exit(int r)
{
    if (g_c == 'h') { CHECK(r == 0, "help"); ASSUME(0); }
    CHECK(!s_bad || r != 0, "a failed step is a failure of cjit");
    CHECK(r != 0 || g_final, "success only when the work was done");
    if (!s_bad && g_retset) { CHECK(r == g_ret, "exit status of the program"); CANARY("status"); }
    if (s_bad) CANARY("fail"); else if (r == 0) CANARY("success");
    ASSUME(0); for (;;) ;
}
#undef main
void harness(void)
{
    g_argc = nondet_int(); 
#ifdef __CPROVER
    ASSUME(g_argc >= 1 && g_argc < (1 << 24));
#else
    g_argc = 1 + (g_argc & 15);
#endif
    g_argv = (char **)vf_buf(8 * ((size_t)g_argc + 1)); g_argv[g_argc] = 0;
    vf_bytes(s_a1, 15); s_a1[15] = 'x'; g_l1 = LEN();
    { size_t l = 15; for (int i = 14; i >= 0; i--) if (!s_a1[i]) l = i; if (l < 15) g_l1 = l; else ASSUME(g_l1 >= 15); }
    if (g_argc > 1) g_argv[1] = s_a1;
    g_n = 0;
    int cn = (int)vf_range(1, g_argc);
    g_clean = (char **)vf_buf(8 * ((size_t)cn + 1)); g_clean[cn] = 0;
#ifndef __CPROVER
    for (int i = 0; i < cn; i++) g_clean[i] = s_w;
#endif
    s_w[0] = nondet_char(); s_w[1] = 0; ASSUME(s_w[0] != 0);
    s_cj.tcc_output = MEM;
    if (!CONFTEST) g_n = cn;
    cjit_main(g_argc, g_argv);
    CHECK(0, "ends with an exit status");
}
#endif

#ifdef U_value
/* -D text: g_s of length g_l; first '=' at g_e (g_e == g_l: none) */
VS char *g_s; VS size_t g_l, g_e, g_t, g_k; VS char g_c;
#define NAMEC(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z') || ((c) >= '0' && (c) <= '9') || (c) == '_')
static int s_alnum(int c) { CHECK(c >= -128 && c < 256, "character"); return NAMEC(c) && c != '_'; }
#define main cjit_main
#undef isalnum
#define isalnum s_alnum
#define MAXN 1024
#define INST(k) ((g_s[k] != 0 || (k) >= g_l) && (g_s[k] != '=' || (k) >= g_e))
#include "src/main.c"
#undef main
void harness(void)
{
    g_l = LEN(); ASSUME(g_l < INT_MAX - 4); g_s = (char *)vf_buf(g_l + 1); g_s[g_l] = 0;
    g_e = vf_range(0, g_l); ASSUME(g_e == g_l || g_s[g_e] == '=');
    g_t = LEN(); g_k = vf_range(0, g_l); g_c = g_t < g_l ? g_s[g_t] : 0;
    ASSUME(g_t > g_l || (INST(g_t))); ASSUME((INST(g_k)));
#ifdef BOUNDED
    ASSUME(g_l <= 6);
    for (size_t i = 0; i < 6; i++) ASSUME(i >= g_l || (INST(i)));
#endif
#ifndef __CPROVER
    for (size_t i = 0; i < g_l; i++) ASSUME(INST(i));
#endif
    int okn = 1;
    int r = parse_value(g_s);
    /* g_k: any position of the name */
    if (g_k < g_e && !NAMEC(g_s[g_k])) { CHECK(r < 0, "a character that cannot be in a name is refused"); CANARY("bad"); }
    if (r >= 0) {
        CHECK(r == (g_e < g_l ? (int)g_e + 1 : 0), "splits at the first equals sign");
        CHECK(g_e >= g_l || g_s[g_e] == 0, "name ends at the equals sign");
        CANARY("ok");
    } else { (void)okn; }
    if (g_t < g_l && g_t != g_e) CHECK(g_s[g_t] == g_c, "name and value unchanged");
#ifndef __CPROVER
    size_t bad = 0; for (size_t i = 0; i < g_e && i < MAXN; i++) bad |= !NAMEC(g_s[i]);
    CHECK((r >= 0) == (!bad && g_e <= MAXN), "valid definitions are accepted");
#endif
}
#endif

#ifdef U_remove
/* words 0..g_n-1.  Documented treatment of word i, as uninterpreted functions fixed by SPEC:
   DD(i): is "--"; MC(i): 0 ordinary, 1 ignored flag, 2 ignored flag taking the next word;
   ST(i): 0 reading options, 1 word i is such a value, 2 after --; KF(i): words kept before i */
VS char **g_argv, **g_new; VS int g_n, g_t; VS char s_w[18], s_nx[4];
static int s_alnum(int c) { CHECK(c >= -128 && c < 256, "character"); return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static int dd(const char *w) { return w[0] == '-' && w[1] == '-' && w[2] == 0; }
static int cls(const char *w)
{
    if (s_eq(w, "-s", 3) || s_eq(w, "-static-libgcc", 15) || s_eq(w, "-shared", 8) || s_eq(w, "-O", 3) || s_eq(w, "-g", 3)) return 1;
    if (w[0] == '-' && (w[1] == 'O' || w[1] == 'f' || w[1] == 'W' || w[1] == 'M' || w[1] == 'g')) {
        if (w[2] == 0) return 2;
        if (s_alnum(w[2]) || (w[2] == ':' && w[3] == 0)) return 1;
    }
    return 0;
}
#ifdef __CPROVER
_Bool __CPROVER_uninterpreted_dd(int); int __CPROVER_uninterpreted_mc(int); int __CPROVER_uninterpreted_st(int); int __CPROVER_uninterpreted_kf(int);
#define DD(i) __CPROVER_uninterpreted_dd(i)
#define MC(i) __CPROVER_uninterpreted_mc(i)
#define ST(i) __CPROVER_uninterpreted_st(i)
#define KF(i) __CPROVER_uninterpreted_kf(i)
#else
VS int a_dd[24], a_mc[24], a_st[24], a_kf[24]; VS char a_w[24][18];
#define DD(i) a_dd[i]
#define MC(i) a_mc[i]
#define ST(i) a_st[i]
#define KF(i) a_kf[i]
#endif
#define KEEP(i) (ST(i) == 2 || (ST(i) == 0 && (DD(i) || !(MC(i) == 1 || (MC(i) == 2 && (i) + 1 < g_n)))))
#define NEXT(i) (ST(i) == 2 ? 2 : ST(i) == 1 ? 0 : DD(i) ? 2 : MC(i) == 2 && (i) + 1 < g_n && !DD((i) + 1) ? 1 : 0)
#define SPEC(i) (ST(i) >= 0 && ST(i) <= 2 && ST((i) + 1) == NEXT(i) && KF((i) + 1) == KF(i) + (KEEP(i) ? 1 : 0))
/* the words at hand */
#define WORD(i) if ((i) < g_n) { g_argv[i] = s_w; ASSUME(DD(i) == dd(s_w) && MC(i) == cls(s_w)); if ((i) + 1 < g_n) { g_argv[(i) + 1] = s_nx; ASSUME(DD((i) + 1) == dd(s_nx)); } }
static int s_strcmp(const char *a, const char *b) { for (int i = 0; i < 17; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 1; }
static int s_strncmp(const char *a, const char *b, size_t n) { for (int i = 0; i < 17; i++) { if ((size_t)i >= n) return 0; if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 1; }
static size_t s_strlen(const char *a) { size_t n = 0; while (n < 17 && a[n]) n++; return n; }
static void *s_calloc(size_t n, size_t m) { CHECK(n == (size_t)g_n && m == sizeof(bool), "one mark for each word"); if (nondet_bool()) { s_bad = 1; return 0; } bool *p = (bool *)vf_buf(n); return p; }
static void *s_malloc(size_t n) { if (nondet_bool()) { s_bad = 1; return 0; } g_new = (char **)vf_buf(n); return g_new; }
#define main cjit_main
#define calloc s_calloc
#define malloc s_malloc
#define free(p) ((void)0)
#undef strcmp
#undef strncmp
#undef strlen
#define strcmp s_strcmp
#define strncmp s_strncmp
#define strlen s_strlen
#undef isalnum
#define isalnum s_alnum
#include "src/main.c"
#undef main
void harness(void)
{
#ifdef __CPROVER
#ifdef BOUNDED
    g_n = 2; static char *av2[3]; g_argv = av2;
#else
    g_n = nondet_int(); ASSUME(g_n >= 1 && g_n < (1 << 24));
    g_argv = (char **)vf_buf(8 * ((size_t)g_n + 1)); g_argv[g_n] = 0;
#endif
    ASSUME(ST(0) == 0 && KF(0) == 0 && KF(g_n) >= 0 && KF(g_n) <= g_n);
#ifdef BOUNDED
    static char ws[3][18]; for (int i = 0; i < 2; i++) { vf_bytes(ws[i], 4); ws[i][4] = 0; if (i < g_n) { g_argv[i] = ws[i]; ASSUME(DD(i) == dd(ws[i]) && MC(i) == cls(ws[i])); } }
    for (int i = 0; i < 2; i++) ASSUME(SPEC(i));
#endif
#else
    static const char *const P[] = { "-s", "-static-libgcc", "-shared", "-O", "-O2", "-g", "-g3", "-f", "-fPIC", "-W", "-Wall", "-M", "-MF", "--", "a.c", "-o", "-O:", "-W-", "-staticx" };
    g_n = (int)vf_range(1, 20);
    g_argv = (char **)vf_buf(8 * ((size_t)g_n + 1)); g_argv[g_n] = 0;
    for (int i = 0; i < g_n; i++) {
        if (nondet_uchar() % 8) strncpy(a_w[i], P[nondet_uchar() % (sizeof P / sizeof *P)], 17); else { vf_get(a_w[i], 6); a_w[i][0] = '-'; }
        g_argv[i] = a_w[i]; a_dd[i] = dd(a_w[i]); a_mc[i] = cls(a_w[i]);
    }
    for (int i = 0; i < g_n; i++) { a_st[i + 1] = NEXT(i); a_kf[i + 1] = a_kf[i] + (KEEP(i) ? 1 : 0); }
#endif
    g_t = (int)vf_range(0, g_n - 1);
    /* prefix counts: 0 <= KF(t) <= t, monotone */
    ASSUME(KF(g_t) >= 0 && KF(g_t) <= g_t); ASSUME(KF(g_t) + (KEEP(g_t) ? 1 : 0) <= KF(g_n));
    int n = g_n;
    char **r = remove_args(&n, g_argv, ignored_args, sizeof ignored_args / sizeof *ignored_args);
    if (s_bad) { CHECK(!r, "lack of memory is reported"); CANARY("fail"); return; }
    CHECK(r == g_new && n == KF(g_n) && r[n] == 0, "exactly the words that are not ignored flags");
    if (KEEP(g_t)) { CHECK(r[KF(g_t)] == g_argv[g_t], "every other word is kept, in order"); CANARY("kept"); } else CANARY("dropped");
}
#endif

#ifdef U_permute
VS char **g_v; VS int g_n, g_j, g_t; VS char *g_old, *g_prev, *g_p;
#include "src/ketopt.h"
/* moves argv[j] to argv[j - n] and what was between one to the right */
#define WANT(t) ((t) == g_j - g_n ? g_p : (t) > g_j - g_n && (t) <= g_j ? g_prev : g_old)
void harness(void)
{
    int all = nondet_int();
#ifdef __CPROVER
    ASSUME(all >= 1 && all < (1 << 24));
#ifdef BOUNDED
    ASSUME(all < 5);
#endif
#else
    all = 1 + (all & 31);
#endif
    g_v = (char **)vf_buf(8 * (size_t)all); g_j = (int)vf_range(0, all - 1); g_n = (int)vf_range(0, g_j); g_t = (int)vf_range(0, all - 1);
    g_old = g_v[g_t]; g_prev = g_t > 0 ? g_v[g_t - 1] : 0; g_p = g_v[g_j];
    ketopt_permute(g_v, g_j, g_n);
    CHECK(g_v[g_t] == WANT(g_t), "the option moves in front of the file names, whose order is kept");
    CANARY("end");
}
#endif

#ifdef U_ketopt
VS char *s_w, *s_nx, **g_v; VS int g_n, g_i0, g_a0, g_p0, g_pc, g_pok, g_next; VS size_t g_wl, g_L; VS char s_nxb[2];
#define FILEWORD(w) ((w)[0] != '-' || (w)[1] == 0)
static void ketopt_permute(char *argv[], int j, int n);
static int s_strncmp(const char *a, const char *b, size_t n) { for (int i = 0; i < 6; i++) { if ((size_t)i >= n) return 0; if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 1; }
static char *s_strchr(const char *s, int c) { for (int i = 0; i < 6; i++) { if (s[i] == (char)c) return (char *)s + i; if (!s[i]) return 0; } return 0; }
#undef strncmp
#undef strchr
#define strncmp s_strncmp
#define strchr s_strchr
#define NOEND(k) (s_w[k] != 0 && s_w[k] != '=')
#include "src/ketopt.h"
static ketopt_t S;
/* the option parser moves consumed words only after everything else was decided */
static void ketopt_permute(char *argv[], int j, int n)
{
    CHECK(argv == g_v, "permutes the argument list");
    if (n == 0) return;
    CHECK(n == S.n_args, "moves over all file names seen");
    CHECK(g_pc == 0 ? 1 : j == g_next, "consumed words in order");
    if (!g_pc) g_pok = j; g_pc++; g_next = j + 1;
}
static void word(void)
{
    g_wl = LEN(); ASSUME(g_wl < (1ul << 30)); s_w = (char *)vf_buf(g_wl + 1); s_w[g_wl] = 0;
    if (g_wl > 0) ASSUME(s_w[0] != 0);
    if (g_wl > 1) ASSUME(s_w[1] != 0);
    if (g_wl > 2) ASSUME(s_w[2] != 0);
    if (g_wl > 3) ASSUME(s_w[3] != 0);
    if (g_wl > 4) ASSUME(s_w[4] != 0);
    if (g_wl > 5) ASSUME(s_w[5] != 0);
    if (g_wl > 6) ASSUME(s_w[6] != 0);
    g_L = g_wl >= 2 ? vf_range(2, g_wl) : 2; 
    if (g_wl >= 2) ASSUME(!NOEND(g_L));
    for (size_t k = 2; k < 8; k++) if (k < g_L) ASSUME(NOEND(k));
#ifndef __CPROVER
    for (size_t k = 0; k < g_wl; k++) ASSUME(s_w[k] != 0);
    for (size_t k = 2; k < g_L; k++) ASSUME(NOEND(k));
#endif
}
static void bind(void) { if (S.i < g_n) { g_v[S.i] = s_w; if (S.i + 1 < g_n) g_v[S.i + 1] = s_nx; } }
void harness(void)
{
    static const ko_longopt_t L[] = { { "help", ko_no_argument, 300 }, { "hex", ko_no_argument, 301 }, { "xass", ko_optional_argument, 401 }, { "xtgz", ko_required_argument, 501 }, { 0, 0, 0 } };
    char os[4] = { 0 }; os[0] = nondet_char(); os[1] = nondet_char(); os[2] = ':'; 
    ASSUME(os[0] != 0 && os[1] != 0 && os[0] != ':' && os[1] != ':' && os[0] != os[1] && os[0] != '-' && os[1] != '-');
    s_nx = s_nxb; s_nxb[0] = nondet_char();
    g_n = nondet_int();
#ifdef __CPROVER
    ASSUME(g_n >= 1 && g_n < (1 << 24));
#ifdef BOUNDED
    ASSUME(g_n < 5);
#endif
#else
    g_n = 1 + (g_n & 15);
#endif
    g_v = (char **)vf_buf(8 * ((size_t)g_n + 1)); g_v[g_n] = 0;
    S.i = g_i0 = (int)vf_range(1, g_n); S.n_args = g_a0 = (int)vf_range(0, g_i0 - 1); S.pos = 0; S.arg = (char *)1; S.opt = 0; S.ind = 1;
    word();
    if (nondet_bool()) { /* inside a group of short options */
        S.pos = (int)vf_range(2, 1000); ASSUME(g_i0 < g_n && g_wl > (size_t)S.pos && s_w[0] == '-' && s_w[1] != '-' && s_w[S.pos] != 0);
    }
    g_p0 = S.pos;
#if !defined(__CPROVER) || defined(BOUNDED)
    static char fw[2] = "f"; int skip = S.pos ? 0 : (int)vf_range(0, g_n - g_i0);
    for (int i = g_i0; i < g_i0 + skip; i++) g_v[i] = fw;
    if (g_i0 + skip < g_n) { if (FILEWORD(s_w)) ASSUME(0); g_v[g_i0 + skip] = s_w; if (g_i0 + skip + 1 < g_n) g_v[g_i0 + skip + 1] = s_nx; }
#else
    bind();
#endif
    int r = ketopt(&S, g_n, g_v, 1, os, L);
    int sk = S.n_args - g_a0, i1 = g_i0 + sk, m = S.i - i1;
    CHECK(sk >= 0 && i1 <= g_n && S.i <= g_n && S.ind == S.i - S.n_args, "file names are counted, the next word is known");
    CHECK(g_pc == (S.n_args ? m : 0) && (!g_pc || g_pok == i1), "exactly the consumed words are moved in front of the file names");
#if !defined(__CPROVER) || defined(BOUNDED)
    CHECK(sk == skip, "stops at the first option");
#endif
    if (i1 == g_n) { CHECK(r == -1 && m == 0 && !S.arg, "no more options"); CANARY("end"); return; }
    if (s_w[1] == '-') {
        if (s_w[2] == 0) { CHECK(r == '-' && m == 1 && !S.arg, "separator"); CANARY("--"); return; }
        int ex = 0, pa = 0, e = 0, p = 0; size_t nl = g_L - 2;
        for (int k = 0; k < 4; k++) {
            int same = 1, len = k == 1 ? 3 : 4;
            for (int c = 0; c < 5; c++) if ((size_t)c < nl && (c >= len || L[k].name[c] != s_w[2 + c])) same = 0;
            if (nl > 5) same = 0;
            if (same && nl == (size_t)len) { ex++; e = k; } else if (same) { pa++; p = k; }
        }
        int o = ex == 1 ? e : ex == 0 && pa == 1 ? p : -1;
        if (o < 0) { CHECK(r == '?' && m == 1 && !S.arg, "unknown or ambiguous long option"); CANARY("longunknown"); return; }
        if (s_w[g_L] == '=') { CHECK(r == L[o].val && S.arg == s_w + g_L + 1 && m == 1, "--option=value"); CANARY("longeq"); return; }
        if (L[o].has_arg == 1) {
            if (i1 + 1 < g_n) CHECK(r == L[o].val && S.arg == s_nx && m == 2, "--option value");
            else CHECK(r == ':' && !S.arg && m == 1, "missing value");
            CANARY("longarg"); return;
        }
        CHECK(r == L[o].val && !S.arg && m == 1, "long option"); CANARY("long"); return;
    }
    size_t p = g_p0 ? g_p0 : 1; char c = s_w[p];
    if (c == ':') return;
    if (c == os[1]) {
        if (s_w[p + 1]) CHECK(r == c && S.arg == s_w + p + 1 && m == 1 && S.pos == 0, "-ovalue");
        else if (i1 + 1 < g_n) CHECK(r == c && S.arg == s_nx && m == 2 && S.pos == 0, "-o value");
        else CHECK(r == ':' && !S.arg && m == 1 && S.pos == 0, "missing value");
        CANARY("shortarg"); return;
    }
    CHECK(r == (c == os[0] ? c : '?') && !S.arg, "short option");
    if (s_w[p + 1]) CHECK(m == 0 && S.pos == (int)p + 1, "next letter of the group"); else CHECK(m == 1 && S.pos == 0, "word consumed");
    CANARY("short");
}
#endif
