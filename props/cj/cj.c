/* Contracts of src/cjit.c.  System calls, tinyCC's public functions and the other parts of
   cjit are replaced by their contracts (s_ functions below); every outcome of theirs is covered. */
#include "verif.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/poll.h>
#include <dirent.h>
#include <inttypes.h>
#include "src/cjit.h"
#include "src/cwalk.h"
#include "src/array.h"
#include "src/elflinker.h"
#include "lib/tinycc/libtcc.h"
static size_t g_t, g_i, g_n;
#include "cj/sys.h"
#include "src/cjit.c"
#ifdef __CPROVER
#define LEN() nondet_size_t()
#else
#define LEN() (nondet_size_t() % 3000)
#endif
static void state(CJITState *c)
{
    VF_FILL(*c);
    c->done_setup = nondet_bool(); c->done_exec = nondet_bool(); c->verbose = nondet_bool(); c->quiet = nondet_bool(); c->fresh = 0; c->live = 0;
    c->print_status = c->call_ar = c->output_obj = 0;
    c->TCC = &s_tcc; c->sources = c->libs = c->libpaths = c->reallibs = 0; c->tmpdir = c->entry = c->output_filename = c->write_pid = 0;
}

#ifdef U_msg
void harness(void)
{
    g_t = LEN();
#if WHAT == 0
    s_wantfd = 1; _out("%s", "x");
#else
    s_wantfd = 2; _err("%s", "x");
#endif
    CHECK(s_nfmt == 1 && s_nwr == 1, "one message, one line");
    CANARY("end");
}
#endif

#ifdef U_exec
void harness(void)
{
    CJITState C, *c = &C; state(c);
    static char ent[] = "go", pf[] = "pid";
    if (nondet_bool()) c->entry = ent;
    if (nondet_bool()) c->write_pid = pf;
    s_sym = c->entry ? c->entry : "main"; s_pidfile = c->write_pid; s_argc = nondet_int(); s_argv = nondet_ptr(); s_verb = c->verbose;
    int setup0 = c->done_setup, exec0 = c->done_exec;
    s_found = nondet_int(); ASSUME(s_found >= 0 && s_found <= FOUND_MAX);
    s_exited = 0;
    int res = cjit_exec(c, s_argc, s_argv);
    /* only the parent comes back */
    CHECK(s_ep == 0, "the program does not run in cjit's own process");
    if (!setup0 || exec0) { CHECK(res != 0 && s_forks == 0, "nothing to run, or run before: failure"); CANARY("nothing"); return; }
    CHECK(s_forks <= 1, "one process");
    if (s_bad) { CHECK(res != 0, "failed link, entry point, process creation, pid file or wait is a failure"); CANARY("fail"); }
    else {
        CHECK(s_forks == 1 && s_waits >= 1, "created and waited for");
        CHECK(!(s_status & 0x7f) ? res == ((s_status >> 8) & 0xff) : res == (s_status & 0x7f), "exit status or signal number of the program");
        CHECK(c->done_exec, "recorded as executed");
        CHECK(!c->write_pid || s_pidok, "pid file holds the process id");
        CANARY("ran");
    }
}
#endif

#ifdef U_link
void harness(void)
{
    CJITState C, *c = &C; state(c);
    if (nondet_bool()) c->output_filename = s_out;
    int setup0 = c->done_setup;
    s_found = nondet_int(); ASSUME(s_found >= 0 && s_found <= FOUND_MAX);
    int r = cjit_link(c);
    CHECK((r == 0) == (setup0 && c->output_filename && s_outs == 1 && !s_bad), "success exactly when everything was linked and written");
    if (r == 0) CANARY("ok"); else CANARY("fail");
}
#endif
#ifdef U_addfile
void harness(void)
{
    CJITState C, *c = &C; state(c);
    bool r = cjit_add_file(c, s_path);
    CHECK(r == (s_done == 1 && !s_bad), "true exactly when the file was added");
    if (r) CANARY("ok"); else CANARY("fail");
}
#endif
#ifdef U_buffer
void harness(void)
{
    CJITState C, *c = &C; state(c);
    bool r = cjit_add_buffer(c, s_text);
    CHECK(r == (s_done == 1 && !s_bad), "true exactly when the text was compiled");
    if (r) CANARY("ok"); else CANARY("fail");
}
#endif
#ifdef U_compile
void harness(void)
{
    CJITState C, *c = &C; state(c);
    g_pl = LEN(); ASSUME(g_pl < (1ul << 40)); g_path = vf_buf(g_pl + 1); g_path[g_pl] = 0;
    g_b = vf_range(0, g_pl); g_l = vf_range(0, g_pl - g_b); ASSUME(g_l >= 1); g_e = vf_range(0, g_l - 1); g_path[g_b + g_e] = '.';
    g_t = LEN(); g_c = g_t < g_l ? g_path[g_b + g_t] : 0;
    static char o[] = "out"; s_out = nondet_bool() ? (char *)o : (char *)0; c->output_filename = s_out;
    bool r = cjit_compile_file(c, g_path);
    CHECK(r == (s_done == 1 && s_outs == 1 && !s_bad), "true exactly when the object file was written");
    if (r) CANARY("ok"); else CANARY("fail");
}
#endif
#ifdef U_source
void harness(void)
{
    CJITState C, *c = &C; state(c);
    g_l = LEN(); ASSUME(g_l < (1ul << 40)); g_path = vf_buf(g_l + 1); g_path[g_l] = 0;
    s_size = LEN(); ASSUME(s_size < (1ul << 40)); g_d = vf_range(0, g_l);
    g_t = LEN(); g_pc = nondet_char(); if (g_t >= 9 && g_t < 9 + g_l) g_pc = g_path[g_t - 9];
    g_fc = nondet_char();
    vf_bytes(s_b, 3); s_isbom = (s_b[0] == 0xff && s_b[1] == 0xfe) || (s_b[0] == 0xfe && s_b[1] == 0xff) || (s_b[0] == 0xef && s_b[1] == 0xbb && s_b[2] == 0xbf);
    bool r = cjit_add_source(c, g_path);
    CHECK(r == (s_compiled && !s_bad), "true exactly when the file was compiled");
    CHECK(!s_open, "closed");
    if (r) CANARY("ok"); else CANARY("fail");
}
#endif
#ifdef U_bom
void harness(void)
{
    size_t sz = 0; s_size = nondet_size_t(); ASSUME(s_size <= SSIZE_MAX);
    vf_bytes(s_b, 3);
    int r = detect_bom(s_name, &sz);
    int k = s_b[0] == 0xff && s_b[1] == 0xfe ? 1 : s_b[0] == 0xfe && s_b[1] == 0xff ? 2 : s_b[0] == 0xef && s_b[1] == 0xbb && s_b[2] == 0xbf ? 3 : 0;
    if (s_bad) { CHECK(r < 0, "failing to open, stat or read is reported"); CANARY("fail"); }
    else { CHECK(k ? r > 0 : r == 0, "byte-order mark"); CHECK(sz == s_size, "size of the file"); CANARY("ok"); }
    CHECK(!s_open, "closed");
}
#endif
#ifdef U_ext
void harness(void)
{
    s_has = nondet_bool(); vf_bytes(s_e, 8); s_e[0] = '.'; s_el = vf_range(1, 7);
    int r = has_source_extension(s_path), is = 1;
    for (size_t i = 1; i < 8; i++) if (i < s_el) { if (i > 3) { is = 0; break; } char w = "ccxx"[i]; char x = s_e[i] | 32; if (s_el == 3) w = 'c'; if (s_el == 2) w = 'c'; if (s_el > 4 || x != w) is = 0; }
    if (s_el == 4 && !((s_e[1] | 32) == 'c' && (s_e[2] | 32) == 'x' && (s_e[3] | 32) == 'x')) is = 0;
    if (s_el < 2) is = 0;
    CHECK(s_has ? (is ? r > 0 : r < 0) : r == 0, "c, cc and cxx files are sources");
    CANARY("end");
}
#endif
