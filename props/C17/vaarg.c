/* Contract for lib/tinycc/lib/va_list.c __va_arg (System V x86-64 register save area). */
#include "verif.h"
#include <string.h>
typedef struct {
    unsigned int gp_offset;
    unsigned int fp_offset;
    union {
        unsigned int overflow_offset;
        char *overflow_arg_area;
    };
    char *reg_save_area;
} tcc_va_list[1];
#define __builtin_va_list tcc_va_list
#include "lib/tinycc/lib/va_list.c"

static char regs[176], stack[4096];

void harness(void)
{
    tcc_va_list ap, old;
    char regs0[176];
    int size = nondet_int(), align = nondet_int(), type = nondet_int();
    unsigned so = nondet_uint();
    __CPROVER_havoc_object(regs);
    __CPROVER_havoc_object(stack);
    ASSUME(size > 0 && size <= 1024 && align >= 1 && align <= 16 && (align & (align - 1)) == 0 && size % align == 0);
    ap->gp_offset = nondet_uint();
    ap->fp_offset = nondet_uint();
    /* representation invariant of the save area */
    ASSUME(ap->gp_offset <= 48 && ap->gp_offset % 8 == 0);
    ASSUME(ap->fp_offset >= 48 && ap->fp_offset <= 176 && ap->fp_offset % 16 == 0);
    ASSUME(so <= 2048 && so % 8 == 0);
    ASSUME(((unsigned long)stack & 15) == 0);
    ap->reg_save_area = regs;
    ap->overflow_arg_area = stack + so;
    ASSUME(type >= 0 && type <= 2);
    ASSUME(type != 0 || size <= 16);
    ASSUME(type != 1 || size <= 16);
    memcpy(regs0, regs, 176);
    *old = *ap;
    unsigned k = nondet_uint(), k2 = nondet_uint();
    ASSUME(k < 176 && k2 < 4096);
    char sk = stack[k2];

    int sz = (size + 7) / 8 * 8, al = align < 8 ? 8 : align;
    char *r = __va_arg(ap, type, size, align);

    int in_gp = type == 0 && old->gp_offset + sz <= 48;
    int in_fp = type == 1 && old->fp_offset + (sz == 8 ? 16 : 32) <= 176;
    CHECK(stack[k2] == sk, "argument memory is not written");
    CHECK(ap->reg_save_area == regs, "save area pointer kept");
    if (in_gp) {
        CHECK(r == regs + old->gp_offset, "general register slot");
        CHECK(ap->gp_offset == old->gp_offset + sz && ap->fp_offset == old->fp_offset && ap->overflow_arg_area == old->overflow_arg_area, "general register slot consumed");
        CHECK(regs[k] == regs0[k], "registers unchanged");
        CANARY("gp");
    } else if (in_fp) {
        CHECK(r == regs + old->fp_offset, "float register slot");
        CHECK(ap->gp_offset == old->gp_offset && ap->fp_offset == old->fp_offset + (sz == 8 ? 16 : 32) && ap->overflow_arg_area == old->overflow_arg_area, "float register slots consumed");
        if (sz == 8)
            CHECK(regs[k] == regs0[k], "registers unchanged");
        else {
            unsigned i = k - old->fp_offset;
            if (k >= old->fp_offset && i < 8) CHECK(regs[k] == regs0[k], "first eightbyte in place");
            if (k >= old->fp_offset && i >= 8 && i < 16) CHECK(regs[k] == regs0[k + 8], "second eightbyte joined");
            if (k < old->fp_offset || k >= old->fp_offset + 32) CHECK(regs[k] == regs0[k], "other registers unchanged");
        }
        CANARY("fp");
    } else {
        unsigned at = (so + al - 1) / al * al;
        CHECK(r == stack + at, "stack slot is the next aligned one");
        CHECK(ap->overflow_arg_area == stack + at + sz, "stack slot consumed");
        CHECK(ap->gp_offset == old->gp_offset, "general registers kept for later arguments");
        CHECK(regs[k] == regs0[k], "registers unchanged");
        CANARY("stack");
    }
}
