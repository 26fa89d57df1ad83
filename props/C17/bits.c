/* Contracts for lib/tinycc/lib/builtin.c: every helper equals the mathematical
   definition written below, for every argument.  Loop-free real code; the spec
   loops run over the operand width and are unwound completely. */
#include "verif.h"
#include "lib/tinycc/lib/builtin.c"

static int spec_pop(unsigned long long x, int w) { int n = 0; for (int i = 0; i < w; i++) n += (x >> i) & 1; return n; }
/* the same number, summed as a balanced tree (spec_pop's sequential sum is much harder for SAT) */
static int spec_pop64(unsigned long long x)
{
    int c[64];
    for (int i = 0; i < 64; i++) c[i] = (x >> i) & 1;
    for (int w = 1; w < 64; w *= 2)
        for (int i = 0; i < 64; i += 2 * w) c[i] += c[i + w];
    return c[0];
}
static int spec_ctz(unsigned long long x, int w) { int n = w; for (int i = w - 1; i >= 0; i--) if ((x >> i) & 1) n = i; return n; }
static int spec_clz(unsigned long long x, int w) { int n = w; for (int i = 0; i < w; i++) if ((x >> i) & 1) n = w - 1 - i; return n; }
/* number of bits below the sign bit that equal it, counted from the top */
static int spec_clrsb(unsigned long long x, int w)
{
    int n = 0, run = 1;
    for (int i = w - 2; i >= 0; i--) {
        if (((x >> i) & 1) != ((x >> (w - 1)) & 1)) run = 0;
        n += run;
    }
    return n;
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define FN CAT(__tcc_builtin_, NAME)

/* precondition PRE, postcondition result == SPEC; the helpers have no frame (pure) */
void harness(void)
{
    ARG x = NONDET(ARG);
    ASSUME(PRE);
    int r = FN(x);
    CHECK(r == (SPEC), "result is the mathematically defined one");
    CANARY("end");
}
