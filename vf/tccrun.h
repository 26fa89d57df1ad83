/* the real compiler as a library, for refuters */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define ONE_SOURCE 1
#define CONFIG_TCC_SEMLOCK 0
#include "lib/tinycc/libtcc.c"
#undef free
#undef malloc
#undef realloc
#undef strdup
static char tr_msg[2000];
static void tr_err(void *o, const char *m) { snprintf(tr_msg, sizeof tr_msg, "%s", m); }
/* compile text in memory; NULL if the compiler rejects it (message in tr_msg) */
static TCCState *tr_compile(const char *text)
{
    TCCState *s = tcc_new();
    tr_msg[0] = 0;
    tcc_set_error_func(s, 0, tr_err);
    tcc_set_options(s, "-nostdlib -nostdinc");
    tcc_set_output_type(s, TCC_OUTPUT_MEMORY);
    if (tcc_compile_string(s, text) < 0 || tcc_relocate(s) < 0) { tcc_delete(s); return 0; }
    return s;
}
