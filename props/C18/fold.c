/* Contracts for constant folding in lib/tinycc/tccgen.c (gen_opic, gen_op, gen_cast).
   Specification: C11 6.3.1, 6.5.5-6.5.14 on two's-complement integers, written
   below with explicit widths; undefined operations are excluded by precondition. */
#include "verif.h"
#define USING_GLOBALS
#include "tcc.h"
#undef VSTACK_SIZE /* operand stack of 15 slots instead of 512 (solver cost only) */
#define VSTACK_SIZE 15
#include "lib/tinycc/tccgen.c"

/* ---- stubs with contracts for what lies outside the verified functions ---- */
static int diagnosed;
void _tcc_error(const char *fmt, ...) { diagnosed = 1; ASSUME(0); }
/* materialising a value in a register never happens on the verified paths */
int gv(int rc) { CHECK(0, "no code is generated for the operands"); return 0; }
static void cast_error(CType *st, CType *dt) { CHECK(0, "integer types convert"); ASSUME(0); }
static int low_op, low_calls;
static SValue low_a, low_b;
/* code generation of a run-time operation: records the operation and its operands,
   leaves a fresh register holding its result (contract of the back end) */
static void low(int op)
{
    low_calls++; low_op = op; low_a = vtop[-1]; low_b = vtop[0];
    vtop--;
    vtop->r = 2; vtop->c.i = 0;
}
void gen_opi(int op) { low(op); }
void gen_opl(int op) { low(op); }

/* ---- specification ---- */
static int is64(int t) { return (t & VT_BTYPE) == VT_LLONG || (t & VT_BTYPE) == VT_PTR; }
/* value of a 64-bit cell c seen as type t: sign- or zero-extended to 64 bits */
static uint64_t val(int t, uint64_t c)
{
    int w;
    switch (t & VT_BTYPE) {
    case VT_BYTE: w = 8; break;
    case VT_SHORT: w = 16; break;
    case VT_BOOL: return (c & 0xff) != 0;
    case VT_INT: return (uint32_t)c | (t & VT_UNSIGNED ? 0 : -(c & 0x80000000)); /* zero- or sign-extended */
    default: return c;
    }
    uint64_t m = ((uint64_t)1 << w) - 1, v = c & m;
    if (!(t & VT_UNSIGNED) && (v >> (w - 1) & 1))
        v |= ~m;
    return v;
}
static int comparison(int op)
{
    return op == TOK_ULT || op == TOK_UGE || op == TOK_EQ || op == TOK_NE || op == TOK_ULE || op == TOK_UGT
        || op == TOK_LT || op == TOK_GE || op == TOK_LE || op == TOK_GT || op == TOK_LAND || op == TOK_LOR;
}
/* is the operation one that the generic front end issues for operands of type t? */
static int legal(int op, int t)
{
    int u = (t & VT_UNSIGNED) != 0;
    switch (op) {
    case '+': case '-': case '&': case '^': case '|': case '*': case TOK_SHL: case TOK_EQ: case TOK_NE: return 1;
    case TOK_LAND: case TOK_LOR: return 1;
    case '/': case '%': case TOK_SAR: case TOK_LT: case TOK_GE: case TOK_LE: case TOK_GT: return !u;
    case TOK_PDIV: return !u;
    case TOK_UDIV: case TOK_UMOD: case TOK_SHR: case TOK_ULT: case TOK_UGE: case TOK_ULE: case TOK_UGT: return u;
    }
    return 0;
}
/* is op defined (no undefined behaviour, no trap) on values a, b of type t? */
static int defined(int op, int t, uint64_t a, uint64_t b)
{
    unsigned w = is64(t) ? 64 : 32;
    if (op == TOK_SHL || op == TOK_SHR || op == TOK_SAR) return b < w;
    if (op == '/' || op == '%' || op == TOK_PDIV || op == TOK_UDIV || op == TOK_UMOD) {
        if (b == 0) return 0;
        if (!(t & VT_UNSIGNED) && b == (uint64_t)-1 && a == (w == 64 ? (uint64_t)1 << 63 : (uint64_t)(int64_t)INT_MIN)) return 0;
    }
    return 1;
}
/* truncating division, 6.5.5: the quotient of the magnitudes with the sign of the operands */
static uint64_t mag(uint64_t x) { return x >> 63 ? -x : x; }
static uint64_t tdiv(uint64_t a, uint64_t b)
{
    uint64_t q = mag(a) / mag(b);
    return (a ^ b) >> 63 ? -q : q;
}
/* q is the truncated quotient of a by b: its defining property, free of division */
static int is_udiv(uint64_t q, uint64_t a, uint64_t b)
{
    uint64_t p;
    return !__builtin_mul_overflow(q, b, &p) && p <= a && a - p < b;
}
static int is_sdiv(uint64_t q, uint64_t a, uint64_t b)
{
    return is_udiv(mag(q), mag(a), mag(b)) && (q == 0 || q >> 63 == ((a ^ b) >> 63) || q == (uint64_t)1 << 63);
}
#ifdef SDIV_STUB
/* gen_opic_sdiv replaced by its contract, discharged by unit sdiv */
static uint64_t sdiv_a, sdiv_b, sdiv_q; static int sdiv_n;
static uint64_t gen_opic_sdiv(uint64_t a, uint64_t b)
{
    CHECK(b != 0, "precondition of the signed division");
    sdiv_a = a; sdiv_b = b; sdiv_n++;
    return sdiv_q = nondet_ullong();
}
#endif
/* result of op at run time on values a, b of type t (of width 32 or 64), as a cell */
static uint64_t run(int op, int t, uint64_t a, uint64_t b)
{
    int64_t sa = a, sb = b;
    uint64_t r;
    switch (op) {
    case '+': r = a + b; break;
    case '-': r = a - b; break;
    case '*': r = a * b; break;
    case '&': r = a & b; break;
    case '|': r = a | b; break;
    case '^': r = a ^ b; break;
    case '/': case TOK_PDIV: r = tdiv(a, b); break;
    case '%': r = a - b * tdiv(a, b); break;
    case TOK_UDIV: r = a / b; break;
    case TOK_UMOD: r = a % b; break;
    case TOK_SHL: r = a << b; break;
    case TOK_SHR: r = a >> b; break;
    case TOK_SAR: r = sa >> b; break;
    case TOK_EQ: return a == b;
    case TOK_NE: return a != b;
    case TOK_ULT: return a < b;
    case TOK_UGE: return a >= b;
    case TOK_ULE: return a <= b;
    case TOK_UGT: return a > b;
    case TOK_LT: return sa < sb;
    case TOK_GE: return sa >= sb;
    case TOK_LE: return sa <= sb;
    case TOK_GT: return sa > sb;
    case TOK_LAND: return a && b;
    case TOK_LOR: return a || b;
    default: r = 0;
    }
    return val(t, r);
}
static int pick_t(void)
{
#ifdef TYPE
    return TYPE;
#endif
    int t = nondet_int();
    ASSUME(t == VT_INT || t == (VT_INT | VT_UNSIGNED) || t == VT_LLONG || t == (VT_LLONG | VT_UNSIGNED)
           || t == (VT_LLONG | VT_LONG) || t == (VT_LLONG | VT_LONG | VT_UNSIGNED));
    return t;
}
static int pick_r(void) /* constness flag on a constant */
{
#ifdef FIXR
    return FIXR;
#endif
    return nondet_bool() ? VT_CONST : VT_CONST | VT_NONCONST;
}

#ifdef U_const
/* both operands constant: the folded constant is the run-time value */
void harness(void)
{
    int op = OP, t = pick_t();
    ASSUME(legal(op, t));
    int shift = op == TOK_SHL || op == TOK_SHR || op == TOK_SAR;
    int t2 = shift ? VT_INT : t;
    vtop = vstack + 2;
    vtop[-1].type.t = t; vtop[0].type.t = t2;
    vtop[-1].r = pick_r(); vtop[0].r = pick_r();
    uint64_t x1 = nondet_ullong(), x2 = nondet_ullong(), below = nondet_ullong();
    vtop[-1].c.i = x1; vtop[0].c.i = x2;
    vtop[-2].r = VT_CONST; vtop[-2].c.i = below;
    uint64_t a = val(t, x1), b = val(t2, x2);
    int nc = (vtop[-1].r | vtop[0].r) & VT_NONCONST;
    nocode_wanted = nondet_int();
    int zero = b == 0 && (op == '/' || op == '%' || op == TOK_PDIV || op == TOK_UDIV || op == TOK_UMOD);
    ASSUME(zero || defined(op, t, a, b));

    gen_opic(op);

    CHECK(vtop == vstack + 1, "exactly one operand is consumed");
    CHECK(vstack[0].c.i == below, "values below the operands are untouched");
    if (zero) {
        CHECK(!(nocode_wanted & CONST_WANTED_MASK) || (nocode_wanted & NOEVAL_MASK), "division by constant zero in a constant expression is diagnosed");
        CHECK(low_calls == 1 && low_op == op, "division by zero stays a run-time division");
    } else {
        CHECK(low_calls == 0, "no code generated for two constants");
        CHECK((vtop->r & (VT_VALMASK | VT_LVAL | VT_SYM)) == VT_CONST, "result is a constant");
        CHECK((vtop->r & VT_NONCONST) == nc, "constness of the operands is inherited");
#ifdef SDIV_STUB
        uint64_t q = sdiv_q;
        CHECK(sdiv_n == 1 && sdiv_a == a && sdiv_b == b, "the operands are divided, in this order");
        uint64_t want = val(t, op == '%' ? a - b * q : q);
#elif defined(UDIV)
        CHECK(vtop->c.i == val(t, vtop->c.i), "quotient extended to its type");
        uint64_t want = vtop->c.i;
        CHECK(is_udiv(want, a, b), "quotient satisfies q*b <= a < q*b + b");
#else
        uint64_t want = run(op, t, a, b);
#endif
        if (comparison(op))
            CHECK(vtop->c.i == want, "comparison folds to its run-time truth value");
        else
            CHECK(vtop->c.i == want, "operation folds to its run-time value, extended to its type");
    }
    CANARY("end");
}
#endif

#ifdef U_sdiv
void harness(void)
{
    uint64_t a = nondet_ullong(), b = nondet_ullong();
#ifdef NARROW /* operands of 32-bit types arrive sign-extended */
    ASSUME((int64_t)a == (int)a && (int64_t)b == (int)b);
#endif
    ASSUME(b != 0);
    uint64_t q = gen_opic_sdiv(a, b);
#ifdef UFORM
    CHECK(q == tdiv(a, b), "quotient of the magnitudes with the sign of the operands");
#else
    CHECK(is_sdiv(q, a, b), "|q|*|b| <= |a| < |q|*|b| + |b| and the sign is right");
#endif
    CANARY("end");
}
#endif

#ifdef U_simp
/* one operand constant: whatever is left on the stack denotes the run-time value */
static uint64_t xval; static SValue xsv; /* the run-time operand: its value and its stack image */
static int tt, tt2;
static uint64_t denote(SValue *v, int t)
{
    int k = v->r & (VT_VALMASK | VT_LVAL | VT_SYM);
    if (k == VT_CONST) return val(t, v->c.i);
    if (k == (xsv.r & (VT_VALMASK | VT_LVAL | VT_SYM))) {
        /* an lvalue or register denotes the operand only if nothing moved it;
           an address (symbol or frame slot) may have moved by a constant offset */
        if (k == (VT_CONST | VT_SYM) || k == VT_LOCAL)
            return val(t, xval + (v->c.i - xsv.c.i));
        CHECK(v->c.i == xsv.c.i, "run-time operand is left as it was");
        return val(t, xval);
    }
    CHECK(0, "unexpected value kind");
    return 0;
}
void harness(void)
{
    enum { left = LEFT };
    int op = OP, t = pick_t();
    if (nondet_bool() && (op == '+' || op == '-')) t = VT_PTR;
    ASSUME(op != TOK_LAND && op != TOK_LOR);
    ASSUME(legal(op, t));
    int shift = op == TOK_SHL || op == TOK_SHR || op == TOK_SAR;
    int t2 = shift ? VT_INT : t;
    if (t == VT_PTR) { t2 = VT_LLONG; ASSUME(!left); }
    tt = t; tt2 = t2;
    vtop = vstack + 2;
    vtop[-1].type.t = t; vtop[0].type.t = t2;
    vtop[-1].c.i = nondet_ullong(); vtop[0].c.i = nondet_ullong();
    #define KC (&vstack[LEFT ? 1 : 2])
#define KX (&vstack[LEFT ? 2 : 1])
    KC->r = pick_r();
    int kind = nondet_int();
    ASSUME(kind == 0 || kind == VT_LOCAL || kind == (VT_LOCAL | VT_LVAL) || kind == (VT_CONST | VT_SYM) || kind == (VT_CONST | VT_SYM | VT_LVAL) || kind == (5 | VT_LVAL));
    if (kind == VT_LOCAL || kind == (VT_CONST | VT_SYM)) {
        /* an address: pointer-sized */
        ASSUME(is64(t) && is64(t2) && !shift);
        ASSUME((int64_t)KX->c.i == (int)KX->c.i);
    }
    KX->r = kind;
    xval = val(left ? t2 : t, nondet_ullong());
    xsv = *KX;
    uint64_t cv = val(left ? t : t2, KC->c.i);
    uint64_t a = left ? cv : xval, b = left ? xval : cv;
    ASSUME(defined(op, t, a, b));
    /* a pointer difference is an exact multiple of the element size */
    if (op == TOK_PDIV) ASSUME(!left && (int64_t)b > 0);
    nocode_wanted = nondet_int();

    gen_opic(op);

    CHECK(vtop == vstack + 1, "exactly one operand is consumed");
    int commut = op == '+' || op == '*' || op == '&' || op == '|' || op == '^' || op == TOK_EQ || op == TOK_NE;
    unsigned w = is64(t) ? 64 : 32;
    if (low_calls == 0) {
        CHECK(!comparison(op), "comparisons with a run-time operand are not folded away");
        CHECK(denote(vtop, t) == run(op, t, a, b), "simplified expression has the value of the original one");
        CHECK((vtop->r & (VT_VALMASK | VT_LVAL | VT_SYM | VT_NONCONST)) != VT_CONST, "not an integer constant expression by simplification alone");
#ifdef FOLDS
        CANARY("folded");
#endif
    } else {
        CHECK(low_calls == 1, "one run-time operation");
        int t2l = (low_op == TOK_SHL || low_op == TOK_SHR || low_op == TOK_SAR) ? VT_INT : t2;
        uint64_t la = denote(&low_a, t), lb = denote(&low_b, t2l);
        if (low_op == op)
            CHECK((la == a && lb == b) || (commut && la == b && lb == a), "the run-time operation gets the original operands");
        else if (op == '*' && low_op == TOK_SHL) /* lemma mulshl */
            CHECK(lb < w && ((la == a && b == val(t, (uint64_t)1 << lb)) || (la == b && a == val(t, (uint64_t)1 << lb))), "multiplication by 2^n becomes a left shift by n");
        else if (op == TOK_UDIV && low_op == TOK_SHR) /* lemma divshr */
            CHECK(lb < w && la == a && b == (uint64_t)1 << lb, "unsigned division by 2^n becomes a logical right shift by n");
        else if (op == TOK_PDIV && low_op == TOK_SAR) /* lemma divsar: exact division */
            CHECK(lb < w - 1 && la == a && b == (uint64_t)1 << lb, "exact division by 2^n becomes an arithmetic right shift by n");
        else {
            int lt = low_op == TOK_SAR || low_op == TOK_PDIV || low_op == '/' ? t & ~VT_UNSIGNED : low_op == TOK_SHR || low_op == TOK_UDIV ? t | VT_UNSIGNED : t;
            CHECK(defined(low_op, lt, la, lb), "run-time operation is defined");
            CHECK(run(low_op, lt, la, lb) == run(op, t, a, b), "run-time operation has the value of the original one");
        }
        CANARY("run-time operation");
    }
}
#endif

#ifdef U_lemma
/* arithmetic facts used by the contracts above */
void harness(void)
{
    int t = pick_t();
    uint64_t a = val(t, nondet_ullong()), n = nondet_ullong();
    unsigned w = is64(t) ? 64 : 32;
    ASSUME(n < w);
#if U_lemma == 1
    CHECK(val(t, a * val(t, (uint64_t)1 << n)) == val(t, a << n), "a * 2^n == a << n");
#elif U_lemma == 2
    ASSUME(t & VT_UNSIGNED);
    CHECK(is_udiv(a >> n, a, (uint64_t)1 << n), "a / 2^n == a >> n");
#else
    ASSUME(n < w - 1 && !(t & VT_UNSIGNED) && (a & (((uint64_t)1 << n) - 1)) == 0);
    uint64_t q = (int64_t)a >> n;
    CHECK(q << n == a && is_sdiv(q, a, (uint64_t)1 << n), "a / 2^n == a >>arith n when 2^n divides a");
#endif
    CANARY("end");
}
#endif

/* the integer types of x86-64: char short int long-long _Bool, signed and unsigned, long */
static const int all_types[] = { VT_BYTE, VT_BYTE | VT_UNSIGNED, VT_SHORT, VT_SHORT | VT_UNSIGNED, VT_INT, VT_INT | VT_UNSIGNED,
    VT_LLONG, VT_LLONG | VT_UNSIGNED, VT_LLONG | VT_LONG, VT_LLONG | VT_LONG | VT_UNSIGNED, VT_BOOL };
enum { NTYPES = sizeof all_types / sizeof all_types[0] };

#ifdef U_castint
/* integer constant cast: conversion of 6.3.1.3 / 6.3.1.2, canonical representation */
static void one(int st, int dt, int nc)
{
    int su = st & VT_UNSIGNED, sb = st & VT_BTYPE, db = dt & VT_BTYPE;
    vtop = vstack + 1;
    vtop->type.t = st; vtop->type.ref = 0;
    vtop->r = nc;
    uint64_t c = nondet_ullong();
    /* narrow constants are kept extended to at least 32 bits; the upper half of an int cell is arbitrary */
    if (sb == VT_BYTE || sb == VT_SHORT || sb == VT_BOOL) ASSUME((uint32_t)c == (uint32_t)val(st, c));
    if (sb == VT_INT && db == VT_BOOL) ASSUME(c == val(st, c));
    vtop->c.i = c;
    uint64_t v = val(st, c);
    CType ty; ty.t = dt; ty.ref = 0;
    gen_cast(&ty);
    CHECK(vtop == vstack + 1, "stack depth kept");
    CHECK(vtop->type.t == dt, "type of the result is the target type");
    CHECK(vtop->r == nc, "still a constant of the same kind");
    uint64_t want = db == VT_BOOL ? v != 0 : val(dt, v);
    CHECK(val(dt, vtop->c.i) == want, "value is converted modulo 2^width, to _Bool by comparison with zero");
    CHECK(is64(st) == is64(dt) && (!is64(st) || 1) && sb == db || vtop->c.i == want || (uint32_t)vtop->c.i == (uint32_t)want && !is64(dt), "result is kept extended");
}
void harness(void)
{
    for (int i = 0; i < NTYPES; i++)
        for (int k = 0; k < 2; k++)
            one(SRC, all_types[i], k ? VT_CONST | VT_NONCONST : VT_CONST);
    CANARY("end");
}
#endif

#ifdef U_genop
/* the whole operator on two integer constants of any integer types: integer promotions and
   usual arithmetic conversions (6.3.1.8), then the operation at the common type */
static int prom(int t)
{
    int b = t & VT_BTYPE;
    if (b == VT_BYTE || b == VT_SHORT || b == VT_BOOL) return VT_INT;
    return t & (VT_BTYPE | VT_UNSIGNED);
}
static int common(int a, int b)
{
    a = prom(a); b = prom(b);
    int wa = is64(a), wb = is64(b);
    int r = (wa || wb) ? VT_LLONG : VT_INT;
    int u = (wa == wb) ? ((a | b) & VT_UNSIGNED) : ((wa ? a : b) & VT_UNSIGNED);
    return r | u;
}
static int unsign(int op)
{
    switch (op) {
    case TOK_SAR: return TOK_SHR; case '/': return TOK_UDIV; case '%': return TOK_UMOD;
    case TOK_LT: return TOK_ULT; case TOK_GT: return TOK_UGT; case TOK_LE: return TOK_ULE; case TOK_GE: return TOK_UGE;
    }
    return op;
}
/* gen_opic replaced by its contract (units const.*): consumes two operands, leaves one */
static int oc_n, oc_op, oc_t1, oc_t2; static uint64_t oc_a, oc_b, oc_r;
static void gen_opic(int op)
{
    oc_n++; oc_op = op; oc_t1 = vtop[-1].type.t; oc_t2 = vtop[0].type.t;
    oc_a = val(oc_t1, vtop[-1].c.i); oc_b = val(oc_t2, vtop[0].c.i);
    vtop--;
    vtop->r = VT_CONST; vtop->c.i = oc_r = nondet_ullong();
}
static void one(int op, int t1, int t2)
{
    int shift = op == TOK_SHL || op == TOK_SAR;
    vtop = vstack + 2;
    vtop[-1].type.t = t1; vtop[0].type.t = t2;
    vtop[-1].type.ref = vtop[0].type.ref = 0;
    vtop[-1].r = VT_CONST; vtop[0].r = VT_CONST;
    uint64_t c1 = val(t1, nondet_ullong()), c2 = val(t2, nondet_ullong());
    vtop[-1].c.i = c1; vtop[0].c.i = c2;
    nocode_wanted = nondet_int();
    oc_n = 0;
    int ct = shift ? prom(t1) : common(t1, t2);
    uint64_t a = val(ct, c1), b = shift ? c2 : val(ct, c2);
    int rop = (ct & VT_UNSIGNED) ? unsign(op) : op;
    gen_op(op);
    CHECK(vtop == vstack + 1 && low_calls == 0 && oc_n == 1, "one operation on the two constants");
    CHECK(oc_op == rop, "signed or unsigned form of the operator according to the common type");
    CHECK((oc_t1 & (VT_BTYPE | VT_UNSIGNED)) == ct, "left operand is converted to the common type");
    CHECK(shift || (oc_t2 & (VT_BTYPE | VT_UNSIGNED)) == ct, "right operand is converted to the common type");
    CHECK(oc_a == a, "left operand value at the common type");
    if (shift) CHECK((uint32_t)oc_b == (uint32_t)b, "shift count");
    else CHECK(oc_b == b, "right operand value at the common type");
    CHECK((vtop->r & (VT_VALMASK | VT_LVAL | VT_SYM)) == VT_CONST, "result is a constant");
    int rt = comparison(op) ? VT_INT : ct;
    CHECK((vtop->type.t & (VT_BTYPE | VT_UNSIGNED)) == rt, "result has the type of the usual arithmetic conversions");
    CHECK(val(rt, vtop->c.i) == val(rt, oc_r), "result value is that of the operation");
}
void harness(void)
{
    for (int i = LO; i < HI; i++)
        for (int j = 0; j < NTYPES; j++)
            one(OP, all_types[i], all_types[j]);
    CANARY("end");
}
#endif
