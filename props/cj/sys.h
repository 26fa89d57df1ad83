/* Contracts of the system calls and tinyCC functions used by cjit: every allowed outcome. */
#ifndef __CPROVER
#undef FOUND_MAX
#define FOUND_MAX 3
#endif
VS int s_tcc, s_bad, s_nerr;
static int s_fails(void) { errno = (int)vf_range(1, 133); s_bad = 1; return 1; }
#define FAILED(c) ((c) ? s_fails() : 0)
#ifndef U_msg
void _err(const char *f, ...) { (void)f; s_nerr++; }
void _out(const char *f, ...) { (void)f; }
#endif
static char *s_strerror(int e) { return "e"; }
#undef strerror
#define strerror s_strerror

/* ---- formatter and write (C11) ---- */
#if defined(U_msg)
VS int s_len, s_nfmt, s_nwr, s_wantfd; VS char s_c; VS size_t s_m;
static int s_vsnprintf(char *d, size_t n, const char *f, va_list a)
{
    s_nfmt++;
    CHECK(n >= 1 && W_OK(d, n), "formatter gets the size of the buffer");
    s_len = nondet_int();
#ifndef __CPROVER
    if (s_len > 0) s_len %= 5000;
#endif
    if (s_len < 0) { d[0] = 'Q'; return s_len; }
    s_m = (size_t)s_len < n ? (size_t)s_len : n - 1;
    CHECK((size_t)s_len < n || n >= 1024, "only long messages are cut");
    s_c = nondet_char();
#ifdef __CPROVER
    __CPROVER_havoc_slice(d, s_m + 1);
    if (g_t < s_m) d[g_t] = s_c;
#else
    for (size_t i = 0; i < s_m; i++) d[i] = s_c;
#endif
    d[s_m] = 0;
    return s_len;
}
static ssize_t s_write(int fd, const void *b, size_t n)
{
    s_nwr++;
    CHECK(fd == s_wantfd, "right stream");
    CHECK(R_OK(b, n), "writes only from the buffer");
    CHECK(n == (s_len < 0 ? 1 : s_m + 1) && ((const char *)b)[n - 1] == '\n', "the text followed by one newline");
    if (s_len >= 0 && g_t < s_m) CHECK(((const char *)b)[g_t] == s_c, "the text as formatted");
    CANARY("line");
    return nondet_bool() ? (ssize_t)n : -1;
}
#define vsnprintf s_vsnprintf
#define write s_write
VS char s_f1[sizeof(FILE)], s_f2[sizeof(FILE)];
#undef stdout
#undef stderr
#define stdout ((FILE *)s_f1)
#define stderr ((FILE *)s_f2)
#undef fileno
#define fileno(f) ((f) == stdout ? 1 : (f) == stderr ? 2 : -1)
#if WHAT == 0
void _err(const char *f, ...) { (void)f; }
#endif
#endif

/* ---- program execution (C12) ---- */
#if defined(U_exec) || defined(U_link)
VS int s_found, s_adds; VS char s_lib[2];
int resolve_libs(CJITState *c) { return s_found; }
void *XArray_GetData(xarray_t *a, size_t i) { CHECK(i < (size_t)s_found, "library index"); return nondet_bool() ? (char *)s_lib : (char *)0; }
size_t XArray_Used(xarray_t *a) { return nondet_size_t(); }
int tcc_add_file(TCCState *s, const char *f) { int r = nondet_int(); CHECK((void *)s == &s_tcc && f == s_lib, "library file"); FAILED(r < 0); return r; }
#endif
#ifdef U_exec
VS int s_ep, s_forks, s_waits, s_exited, s_argc, s_ret, s_status, s_pidok, s_child, s_verb, s_reloc; VS pid_t s_pid, s_self; VS void *s_argv; VS const char *s_sym, *s_pidfile; VS FILE *s_fp; VS char s_file[sizeof(FILE)];
static int s_main(int ac, char **av)
{
    CHECK(ac == s_argc && (void *)av == s_argv, "entry point gets exactly the arguments");
    CHECK(s_child && s_forks == 1 && s_ep == 0 && !s_bad, "entry point runs once, in the child process");
    s_ep++; s_ret = nondet_int();
    return s_ret;
}
int tcc_relocate(TCCState *s) { CHECK(!s_bad, "no step after a failure"); int r = nondet_int(); FAILED(r < 0); s_reloc = 1; return r; }
static int streq(const char *a, const char *b) { for (int i = 0; i < 6; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
void *tcc_get_symbol(TCCState *s, const char *n) { CHECK(s_reloc && !s_bad, "symbols after linking"); CHECK(streq(n, s_sym), "the entry point asked for"); if (nondet_bool()) { s_fails(); return 0; } return (void *)s_main; }
static pid_t s_fork(void) { CHECK(!s_bad && s_forks == 0, "no process after a failure, and only one"); s_forks++; if (nondet_bool()) { s_fails(); return -1; } if (nondet_bool()) { s_child = 1; return 0; } s_pid = nondet_int(); ASSUME(s_pid > 0); return s_pid; }
static void s_exit(int r) { CHECK(s_child && s_ep == 1 && r == s_ret, "the child ends with the value of the program"); CANARY("child"); ASSUME(0); for (;;) ; }
static pid_t s_waitpid(pid_t p, int *st, int o)
{
    CHECK(!s_child && p == s_pid, "waits for the program");
    CHECK(!(o & WNOHANG), "waits until it ends");
    s_waits++;
    if (nondet_bool()) { s_fails(); return -1; }
    if (s_waits < 3 && (o & WUNTRACED) && nondet_bool()) { *st = 0x7f | vf_range(1, 64) << 8; s_status = nondet_int(); s_fails(); return p; }
    if (s_waits < 3 && (o & WCONTINUED) && nondet_bool()) { *st = 0xffff; s_fails(); return p; }
    s_status = nondet_bool() ? vf_range(0, 255) << 8 : vf_range(1, 64) | (nondet_bool() ? 0x80 : 0);
    *st = s_status;
    s_bad = 0;
    return p;
}
static FILE *s_fopen(const char *n, const char *m) { CHECK(n == s_pidfile && m[0] == 'w', "pid file"); CHECK(!s_fp, "opened once"); if (nondet_bool()) { s_fails(); return 0; } s_fp = (FILE *)s_file; return s_fp; }
static int s_fprintf(FILE *f, const char *fmt, ...)
{
    va_list a; va_start(a, fmt); int v = va_arg(a, int); va_end(a);
    CHECK(f == s_fp && fmt[0] == '%' && (fmt[1] == 'd' || fmt[1] == 'i') && v == s_pid, "pid file holds the process id");
    int r = nondet_int(); FAILED(r < 0); s_pidok = r >= 0;
    return r;
}
static int s_fclose(FILE *f) { CHECK(f == s_fp, "pid file is closed"); int r = nondet_bool() ? 0 : EOF; FAILED(r != 0); if (r) s_pidok = 0; return r; }
static pid_t s_getpid(void) { return s_self; }
#define fork s_fork
#define exit s_exit
#define waitpid s_waitpid
#define fopen s_fopen
#define fprintf s_fprintf
#define fclose s_fclose
#define getpid s_getpid
#endif

/* ---- linking to a file (C13) ---- */
#ifdef U_link
VS char s_out[4]; VS int s_outs;
int tcc_output_file(TCCState *s, const char *f) { CHECK(!s_bad, "no output after a failure"); CHECK(f == s_out && s_outs == 0, "output written once, to the named file"); s_outs++; int r = nondet_bool() ? 0 : -1; FAILED(r); return r; }
#endif

/* ---- adding sources (C13, C14) ---- */
#if defined(U_addfile) || defined(U_compile) || defined(U_buffer) || defined(U_source)
VS int s_done;
#define SETUP_STUB
static bool cjit_setup(CJITState *c) { if (nondet_bool()) { s_fails(); return false; } c->done_setup = true; return true; }
#endif
#ifdef U_addfile
VS char s_path[4]; VS int s_kind;
static int has_source_extension(const char *p) { CHECK(p == s_path, "the file named"); s_kind = (int)vf_range(0, 2) - 1; return s_kind; }
bool cjit_add_source(CJITState *c, const char *p) { CHECK(p == s_path && !s_bad && !s_done, "the file is added once"); CHECK(s_kind > 0, "source"); s_done++; if (nondet_bool()) { s_fails(); return false; } return true; }
int tcc_add_file(TCCState *s, const char *p) { CHECK(p == s_path && (void *)s == &s_tcc && !s_bad && !s_done, "the file is added once"); CHECK(s_kind <= 0, "object or library"); s_done++; int r = nondet_int(); FAILED(r < 0); return r; }
#endif
#ifdef U_buffer
VS char s_text[4];
int tcc_compile_string(TCCState *s, const char *b) { CHECK(b == s_text && !s_bad && !s_done, "the text is compiled once"); s_done++; int r = nondet_int(); FAILED(r < 0); return r; }
#endif
#ifdef U_compile
/* path: g_path, last component at g_b, length g_l, its last dot at g_e */
VS char *g_path, *g_tmp, *s_out; VS size_t g_pl, g_b, g_l, g_e; VS int s_kind, s_outs; VS char g_c;
static int has_source_extension(const char *p) { CHECK(p == g_path, "the file named"); s_kind = (int)vf_range(0, 2) - 1; FAILED(s_kind <= 0); return s_kind; }
int tcc_add_file(TCCState *s, const char *p) { CHECK(p == g_path && !s_bad && !s_done, "the file is compiled once"); s_done++; int r = nondet_int(); FAILED(r < 0); return r; }
void cwk_path_get_basename(const char *p, const char **b, size_t *l) { CHECK(p == g_path, "name of the file"); *b = p + g_b; *l = g_l; }
static char *s_strncpy(char *d, const char *s, size_t n)
{
    CHECK(W_OK(d, n) && s == g_path + g_b && n <= g_l, "copies the file name");
    g_tmp = d;
#ifdef __CPROVER
    if (n) __CPROVER_havoc_slice(d, n);
    if (g_t < n) d[g_t] = g_c;
    if (g_e < n) d[g_e] = '.';
#else
    for (size_t i = 0; i < n; i++) d[i] = s[i];
#endif
    return d;
}
bool cwk_path_get_extension(const char *p, const char **e, size_t *l)
{
    CHECK(p == g_tmp && p[g_l] == 0 && p[g_e] == '.', "extension of the terminated file name");
    *e = p + g_e; *l = g_l - g_e; return true;
}
int tcc_output_file(TCCState *s, const char *f)
{
    CHECK(!s_bad && s_done && !s_outs, "one output, after successful compilation");
    s_outs++;
    if (s_out) CHECK(f == s_out, "output file as given");
    else {
        CHECK(f == g_tmp, "default output file");
        CHECK(f[g_e] == '.' && f[g_e + 1] == 'o' && f[g_e + 2] == 0, "file name with extension .o");
        if (g_t < g_e) CHECK(f[g_t] == g_c, "file name with extension .o");
    }
    int r = nondet_int(); FAILED(r < 0); return r;
}
#define strncpy s_strncpy
#endif

#if defined(U_source) || defined(U_bom)
VS unsigned char s_b[3]; VS int s_r, s_open, s_isbom; VS size_t s_size;
static int s_openf(const char *p, int fl, ...);
static int s_fstat(int fd, struct stat *st) { CHECK(fd == 5 && s_open, "open file"); if (nondet_bool()) { s_fails(); return -1; } st->st_size = s_size; return 0; }
static ssize_t s_read(int fd, void *b, size_t n)
{
    CHECK(fd == 5 && s_open && W_OK(b, n) && n >= 2 && n <= 3, "first bytes");
    s_r = (int)vf_range(0, n + 1) - 1;
    FAILED(s_r < (int)n);
    for (int i = 0; i < 3; i++) if (i < s_r) ((unsigned char *)b)[i] = s_b[i];
    return s_r;
}
static int s_close(int fd) { CHECK(fd == 5 && s_open, "closed once"); s_open = 0; return 0; }
#define open s_openf
#define fstat s_fstat
#define read s_read
#define close s_close
#endif
#ifdef U_source
/* path of length g_l; directive: #line 1 "path" and newline, g_l + 11 bytes; then the bytes of the file */
VS char *g_path, *g_sp, *g_buf; VS size_t g_l, g_d; VS char g_pc, g_fc; VS FILE *s_fp; VS char s_file[sizeof(FILE)]; VS int s_compiled, s_inc;
#define P (g_l + 11)
static char dir_at(size_t i) { static const char h[] = "#line 1 \""; return i < 9 ? h[i] : i < 9 + g_l ? g_pc : i == 9 + g_l ? '"' : '\n'; }
static int s_openf(const char *p, int fl, ...) { CHECK(p == g_path && !s_open, "the file named"); if (nondet_bool()) { s_fails(); return -1; } s_open = 1; return 5; }
static FILE *s_fopen(const char *p, const char *m) { CHECK(p == g_path && m[0] == 'r' && !s_fp, "the file named"); if (nondet_bool()) { s_fails(); return 0; } s_fp = (FILE *)s_file; return s_fp; }
static int s_fclose(FILE *f) { CHECK(f == s_fp, "closed"); return 0; }
static size_t s_fread(void *d, size_t sz, size_t n, FILE *f)
{
    CHECK(f == s_fp && sz == 1 && W_OK(d, n), "reads into the buffer");
    CHECK(n == s_size, "reads the whole file");
    size_t r = nondet_bool() ? n : vf_range(0, n); FAILED(r < n);
#ifdef __CPROVER
    if (r) __CPROVER_havoc_slice(d, r);
#else
    memset(d, 'f', r);
#endif
    if (g_t >= P && g_t - P < r) ((char *)d)[g_t - P] = g_fc;
    return r;
}
static int s_sprintf(char *d, const char *fmt, const char *p)
{
    static const char F[] = "#line 1 \"%s\"\n";
    for (int i = 0; i < sizeof F; i++) CHECK(fmt[i] == F[i], "line directive");
    CHECK(p == g_path && W_OK(d, P + 1), "directive fits");
    g_sp = d;
#ifdef __CPROVER
    __CPROVER_havoc_slice(d, P);
#else
    memset(d, 'd', P);
#endif
    if (g_t < P) d[g_t] = dir_at(g_t);
    d[P] = 0;
    return P;
}
static int s_snprintf(char *d, size_t n, const char *fmt, const char *p) { CHECK(n > P, "directive fits"); return s_sprintf(d, fmt, p); }
static size_t s_strlen(const char *s) { if (s == g_path) return g_l; CHECK(s == g_sp && g_sp[P] == 0, "length of a known string"); return P; }
static char *s_strcpy(char *d, const char *s)
{
    CHECK(s == g_sp && W_OK(d, P + 1), "directive fits");
#ifdef __CPROVER
    __CPROVER_havoc_slice(d, P);
#else
    memset(d, 'd', P);
#endif
    if (g_t < P) d[g_t] = dir_at(g_t);
    d[P] = 0; return d;
}
static char *s_strncpy(char *d, const char *s, size_t n) { CHECK(s == g_path && n <= g_l && W_OK(d, n), "directory of the file");
#ifdef __CPROVER
    if (n) __CPROVER_havoc_slice(d, n);
#else
    memset(d, 'i', n);
#endif
    return d; }
static void *s_memcpy(void *d, const void *s, size_t n)
{
    if (s == g_path) { s_strncpy((char *)d, s, n); return d; }
    CHECK(s == g_sp && (n == P || n == P + 1), "directive is copied whole");
    char k = ((char *)d)[n - 1]; (void)k;
#ifdef __CPROVER
    __CPROVER_havoc_slice(d, n);
#else
    memset(d, 'd', n);
#endif
    if (g_t < P) ((char *)d)[g_t] = dir_at(g_t);
    if (n > P) ((char *)d)[P] = 0;
    return d;
}
void cwk_path_get_dirname(const char *p, size_t *l) { CHECK(p == g_path, "directory of the file"); *l = g_d; }
int tcc_add_include_path(TCCState *s, const char *p) { CHECK(p[g_d] == 0, "directory of the file"); s_inc++; return 0; }
int tcc_compile_string(TCCState *s, const char *b)
{
    CHECK(!s_bad && !s_compiled, "compiled once, only after everything was read");
    CHECK(!s_isbom, "byte-order marks are refused");
    s_compiled = 1;
    CHECK(R_OK(b, P + s_size + 1) && b[P + s_size] == 0, "text is terminated");
    if (g_t < P) CHECK(b[g_t] == dir_at(g_t), "line directive names the file");
    else if (g_t - P < s_size) CHECK(b[g_t] == g_fc, "exactly the bytes of the file");
    CANARY("compiled");
    int r = nondet_int(); FAILED(r < 0); return r;
}
#define fopen s_fopen
#define fclose s_fclose
#define fread s_fread
#define sprintf s_sprintf
#define snprintf s_snprintf
#undef memcpy
#define memcpy s_memcpy
#define strlen s_strlen
#define strcpy s_strcpy
#define strncpy s_strncpy
#endif
#ifdef U_bom
VS char s_name[3];
static int s_openf(const char *p, int fl, ...) { CHECK(p == s_name && !s_open, "the file named"); if (nondet_bool()) { s_fails(); return -1; } s_open = 1; return 5; }
#endif
#ifdef U_ext
VS char s_e[8]; VS size_t s_el; VS int s_has; VS char s_path[4];
bool cwk_path_get_extension(const char *p, const char **e, size_t *l) { CHECK(p == s_path, "the file named"); if (!s_has) return false; *e = s_e; *l = s_el; return true; }
#endif
