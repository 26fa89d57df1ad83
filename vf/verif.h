/* Common declarations of the proof harnesses.  The same harness text is read by CBMC
   (nondet values, unbounded) and, to replay a counterexample on the real code, compiled
   natively: then nondet values come from an input file, ASSUME skips the input and CHECK
   aborts. */
#ifndef VERIF_H
#define VERIF_H
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#ifdef __CPROVER
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), msg)
/* must FAIL on every run: shows the point is reachable under the preconditions */
#ifdef NOCANARY
#define CANARY(msg) ((void)0)
#else
#define CANARY(msg) __CPROVER_assert(0, "CANARY " msg)
#endif
#define NONDET(T) ({ T nondet_v__; nondet_v__; })
_Bool nondet_bool(void);
int nondet_int(void);
unsigned nondet_uint(void);
char nondet_char(void);
unsigned char nondet_uchar(void);
unsigned short nondet_ushort(void);
short nondet_short(void);
long nondet_long(void);
unsigned long nondet_ulong(void);
size_t nondet_size_t(void);
long long nondet_llong(void);
unsigned long long nondet_ullong(void);
void *nondet_ptr(void);
/* buffer of exactly n arbitrary bytes (n = 0: still a valid pointer) */
void *malloc(size_t);
static inline void *vf_buf(size_t n) { void *p = (malloc)(n); __CPROVER_assume(p != 0); return p; }
/* value in lo..hi */
static inline size_t vf_range(size_t lo, size_t hi) { size_t v = nondet_size_t(); __CPROVER_assume(v >= lo && v <= hi); return v; }
static inline void vf_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = nondet_uchar(); }
#define VF_FILL(obj) __CPROVER_havoc_object(&(obj))
#define VS static
#include <unistd.h>
#include <fcntl.h>
#undef R_OK
#undef W_OK
#define R_OK(p, n) __CPROVER_r_ok(p, n)
#define W_OK(p, n) __CPROVER_w_ok(p, n)
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
static const unsigned char *vf_d, *vf_e; static jmp_buf vf_skip; static int vf_hits;
static void vf_fail(const char *m) { fprintf(stderr, "REFUTED: %s\n", m); abort(); }
static void vf_get(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = vf_d < vf_e ? *vf_d++ : 0; }
#define ASSUME(c) ((c) ? (void)0 : longjmp(vf_skip, 1))
#define CHECK(c, msg) ((c) ? (void)0 : vf_fail(msg))
#define CANARY(msg) ((void)vf_hits++)
#define NONDET(T) ({ T nondet_v__; vf_get(&nondet_v__, sizeof nondet_v__); nondet_v__; })
#define VF_ND(n, T) static inline T nondet_##n(void) { T v; vf_get(&v, sizeof v); return v; }
static inline _Bool nondet_bool(void) { unsigned char v; vf_get(&v, 1); return v & 1; }
VF_ND(int, int) VF_ND(uint, unsigned) VF_ND(char, char) VF_ND(uchar, unsigned char) VF_ND(ushort, unsigned short) VF_ND(short, short)
VF_ND(long, long) VF_ND(ulong, unsigned long) VF_ND(size_t, size_t) VF_ND(llong, long long) VF_ND(ullong, unsigned long long)
static inline void *nondet_ptr(void) { void *v; vf_get(&v, sizeof v); return v; }
static void *vf_blk[256]; static int vf_nblk;
static inline void *vf_buf(size_t n) {
    if (n > 1 << 20 || vf_nblk > 250) longjmp(vf_skip, 1);
    unsigned char *p = (malloc)(n);
    vf_blk[vf_nblk++] = p;
    for (size_t i = 0; i < n; i++) p[i] = vf_d < vf_e ? *vf_d++ : i < 4096 ? 0 : p[i - 1];
    return p;
}
static inline size_t vf_range(size_t lo, size_t hi) { size_t v = nondet_size_t(); return hi - lo == SIZE_MAX || (v >= lo && v <= hi) ? v : lo + v % (hi - lo + 1); }
#define vf_bytes(p, n) vf_get(p, n)
#define VF_FILL(obj) vf_get(&(obj), sizeof(obj))
static volatile unsigned char vf_sink;
#include <unistd.h>
#include <fcntl.h>
#undef R_OK
#undef W_OK
static inline int R_OK(const void *p, size_t n) { for (size_t i = 0; i < n; i++) vf_sink += ((const unsigned char *)p)[i]; return 1; }
static inline int W_OK(void *p, size_t n) { for (size_t i = 0; i < n; i++) { volatile unsigned char *q = (volatile unsigned char *)p + i; *q = *q; } return 1; }
/* harness state (VS) starts afresh for every input */
#define VS static __attribute__((section("vfstate"), used))
VS char vf_state_dummy;
extern char __start_vfstate[], __stop_vfstate[]; static char *vf_init;
void harness(void);
int LLVMFuzzerTestOneInput(const unsigned char *d, size_t n)
{
    size_t vs = __stop_vfstate - __start_vfstate;
    if (!vf_init) { vf_init = (malloc)(vs); memcpy(vf_init, __start_vfstate, vs); } else memcpy(__start_vfstate, vf_init, vs);
    vf_d = d; vf_e = d + n; vf_nblk = 0;
    if (!setjmp(vf_skip)) harness();
    while (vf_nblk) (free)(vf_blk[--vf_nblk]);
    return 0;
}
#endif
#define IMPLIES(a, b) (!(a) || (b))
#endif
