/* Contracts of src/tinflate.c, function by function.  -DU_<unit> selects the function whose
   body is checked; the functions it calls are replaced by stubs stating their contracts
   (their bodies are dropped mechanically from the copy, see Unit.removes). */
#include "verif.h"
#include <assert.h>
#ifdef NATIVE
#include <string.h>
#endif
#ifdef ONLY_SAFETY
#define FCHECK(c, m) ((void)0)
#else
#define FCHECK(c, m) CHECK(c, m)
#endif
struct tinf_data; struct tinf_tree;
#define EACH(F) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15)
/* cntN(i): number of codes of length N among the first i symbols */
#if defined(BOUNDED) || defined(NATIVE)
static const unsigned char *g_len;
static unsigned cnt(unsigned l, unsigned i) { unsigned r = 0; for (unsigned j = 0; j < i; j++) r += g_len[j] == l; return r; }
#define cntC(l, i) cnt(l, i)
#else
#define D(l) unsigned __CPROVER_uninterpreted_cnt##l(unsigned i);
EACH(D)
#undef D
#define cntC(l, i) __CPROVER_uninterpreted_cnt##l(i)
static unsigned cnt(unsigned l, unsigned i)
{
    switch (l) {
#define D(n) case n: return cntC(n, i);
    EACH(D)
#undef D
    }
    return 0;
}
#endif
/* ghosts */
static unsigned g_k, g_l, g_num; static unsigned g_pos; static unsigned char *g_buf; static size_t g_n;
static unsigned char *g_src; static unsigned char g_old;
static unsigned s_hlit, s_hdist, s_hclen, s_call, s_cl[19], s_ncl, s_tree, s_rep, g_num0, g_v0, s_fin, s_type; static int s_sym, s_ph, s_r; static size_t m_n; static unsigned char *m_src, *m_dst, *g_lengths;
static int A[17], S[17], O[17], WANT; static unsigned char bits[17]; static int nbits; static unsigned g_start;
#ifdef U_trees
static void ITER_END(unsigned num, unsigned char *lengths);
#endif
#ifdef U_block
static void ITER_END(void);
#endif
#include "src/tinflate.c"

#ifdef U_fixed
VS struct tinf_tree lt, dt;
void harness(void)
{
    VF_FILL(lt); VF_FILL(dt);
    tinf_build_fixed_trees(&lt, &dt);
    /* RFC 1951 3.2.6: lengths 8 (0-143), 9 (144-255), 7 (256-279), 8 (280-287); 5 bits for 32 distances */
    static const unsigned short c[16] = { 0, 0, 0, 0, 0, 0, 0, 24, 152, 112 };
    for (int i = 0; i < 16; i++) { FCHECK(lt.counts[i] == c[i], "literal code counts"); FCHECK(dt.counts[i] == (i == 5 ? 32 : 0), "distance code counts"); }
    unsigned p = 0;
    for (int l = 7; l <= 9; l++)
        for (int s = 0; s < 288; s++) {
            int sl = s < 144 ? 8 : s < 256 ? 9 : s < 280 ? 7 : 8;
            if (sl == l) { FCHECK(lt.symbols[p] == s, "symbols sorted by code"); p++; }
        }
    for (int s = 0; s < 32; s++) FCHECK(dt.symbols[s] == s, "distance symbols");
    FCHECK(lt.max_sym == 285 && dt.max_sym == 29, "largest legal symbols");
    CANARY("end");
}
#endif

#ifdef U_tree
VS struct tinf_tree tr; VS unsigned char arr[320];
#ifndef NUM
#define NUM 288
#endif
void harness(void)
{
    g_num = nondet_uint() ; ASSUME(g_num <= NUM);
#ifdef NATIVE
    unsigned char *len = vf_buf(g_num);
#else
    unsigned char *len = arr + 320 - g_num;   /* nothing readable behind the last length */
    for (int i = 0; i < 320; i++) arr[i] = nondet_uchar();
#endif
#if defined(BOUNDED) || defined(NATIVE)
    g_len = len;
    for (unsigned i = 0; i < g_num; i++) ASSUME(len[i] <= 15);
#endif
    g_k = nondet_uint(); ASSUME(g_k < g_num || g_num == 0);
    g_l = g_num ? len[g_k] : 0;
    VF_FILL(tr);
    ASSUME(g_l <= 15);
#ifdef GL
    ASSUME(g_l == GL); g_l = GL;
#endif
#if !defined(BOUNDED) && !defined(NATIVE)
#define D(l) ASSUME(cntC(l, 0) == 0);
    EACH(D) /* definition of cnt */
#undef D
    g_pos = cnt(g_l, g_k);
    ASSUME(g_l == 0 || (g_pos <= g_k && cnt(g_l, g_k + 1) == g_pos + 1 && cnt(g_l, g_num) >= g_pos + 1));
#else
    g_pos = cnt(g_l, g_k);
#endif
    int res = tinf_build_tree(&tr, len, g_num);
    /* code space left after each length (the usual Kraft bookkeeping): never negative, zero at the end */
    unsigned n = 0, start = 0, over = 0, left = 1;
#define D(l) { unsigned c = cntC(l, g_num); left *= 2; if (!over && c > left) over = 1; left -= c; n += c; if (l < g_l) start += c; }
    EACH(D)
#undef D
    unsigned only1 = n == 1 && cntC(1, g_num) == 1;
    int good = !over && (n == 0 || only1 || (n > 1 && left == 0));
    FCHECK((res == TINF_OK) == good, "accepted exactly when the code is complete, empty or a single one-bit code");
    FCHECK(res == TINF_OK || res == TINF_DATA_ERROR, "result");
    if (res == TINF_OK) {
#define D(l) FCHECK(tr.counts[l] == (only1 && l == 1 ? 2 : cntC(l, g_num)), "number of codes of each length");
        EACH(D)
#undef D
        FCHECK(tr.counts[0] == 0, "no code of length zero");
        if (g_num && g_l) {
#ifdef PLACE
            FCHECK(tr.symbols[start + g_pos] == g_k, "every symbol stands at the place of its canonical code");
#endif
            FCHECK(tr.max_sym >= (int)g_k, "largest symbol");
        }
        FCHECK(tr.max_sym >= -1 && tr.max_sym < (int)g_num && (n == 0) == (tr.max_sym == -1), "largest symbol in range");
        if (tr.max_sym >= 0) FCHECK(len[tr.max_sym] != 0, "largest symbol is used");
        if (only1) FCHECK(tr.symbols[1] == tr.max_sym + 1, "second code of a one-code tree is invalid");
        CANARY("ok");
    } else CANARY("rejected");
}
#endif

#ifdef U_bits
/* stream bit p = bit (p % 8) of byte p / 8; bytes behind the end read as zero and set overflow */
VS unsigned char win[8];
static unsigned sbit(const unsigned char *w, int have, unsigned p) { return p / 8 < have ? (w[p / 8] >> (p % 8)) & 1 : 0; }
void harness(void)
{
    VS struct tinf_data d;
    vf_bytes(win, 8);
    int have = vf_range(0, 8), used = vf_range(0, 8); /* bytes of the window before the end; bytes consumed */
    ASSUME(used <= have);
    d.source = win + 8 - have + used; d.source_end = win + 8;
    const unsigned char *w = win + 8 - have;
    d.bitcount = vf_range(0, 7); d.overflow = nondet_bool();
    int of0 = d.overflow, extra = 0;
    /* invariant of the reader: tag holds exactly the bitcount bits before the next byte */
    ASSUME(d.bitcount == 0 || used > 0 || of0);
    unsigned pos = 8 * used - d.bitcount, exp = 0, tg = 0;
    for (int i = 0; i < 7; i++) if (i < d.bitcount) tg |= (of0 ? nondet_bool() : sbit(w, have, pos + i)) << i;
    d.tag = tg;
    int num = vf_range(0, 13), base = vf_range(0, 24577), bc0 = d.bitcount;
    for (int i = 0; i < 13; i++) if (i < num) exp |= (i < bc0 ? (tg >> i) & 1 : sbit(w, have, 8 * used + i - bc0)) << i;
    unsigned r = tinf_getbits_base(&d, num, base);
    FCHECK(r == base + exp, "value of the next bits, least significant first");
    int need = num > bc0 ? (num - bc0 + 7) / 8 : 0, avail = have - used;
    FCHECK(d.source == win + 8 - have + used + (need < avail ? need : avail), "whole bytes consumed");
    FCHECK(d.bitcount == bc0 + 8 * need - num && d.bitcount >= 0 && d.bitcount < 8, "left over bits");
    FCHECK(d.overflow == (of0 || need > avail), "running out of input is recorded");
    FCHECK(d.source_end == win + 8, "end kept");
    for (int i = 0; i < 7; i++) if (i < d.bitcount) FCHECK(((d.tag >> i) & 1) == (num + i < bc0 ? (tg >> (num + i)) & 1 : sbit(w, have, 8 * used + num + i - bc0)), "left over bits are the next ones");
    FCHECK((d.tag >> d.bitcount) == 0, "no stale bits");
    CANARY("end");
}
#endif

#ifdef U_symbol
/* canonical decoding (RFC 1951 3.2.2); tree: any counts that build_tree accepts */
VS struct tinf_tree tr; VS struct tinf_data d;
static unsigned int tinf_getbits(struct tinf_data *dd, int num) { CHECK(dd == &d && num == 1, "reads single bits"); CHECK(nbits < 15, "at most 15 bits"); return bits[++nbits]; }
void harness(void)
{
    nbits = 0;
    /* A[l]: code space left below length l; O[l]: code of the first l bits relative to the end of the codes of length l;
       S[l]: symbols with codes of at most l bits; WANT: length of the code the bits start with */
    A[0] = 1; S[0] = O[0] = 0; WANT = 0;
    int total = 0;
    for (int l = 0; l < 16; l++) { tr.counts[l] = l ? nondet_ushort() : 0; bits[l] = nondet_bool(); ASSUME(tr.counts[l] <= 288); }
    for (int l = 1; l < 16; l++) {
        A[l] = 2 * A[l - 1] - tr.counts[l]; S[l] = S[l - 1] + tr.counts[l];
        ASSUME(A[l] >= 0 && S[l] <= 288);      /* the tree is not over-subscribed */
        O[l] = 2 * O[l - 1] + bits[l] - tr.counts[l];
        if (!WANT && O[l] < 0) WANT = l;
        if (!WANT) { CHECK(O[l] >= 0 && O[l] < A[l], "lemma: an unfinished code stays inside the remaining code space"); ASSUME(O[l] >= 0 && O[l] < A[l]); }
    }
    ASSUME(A[15] == 0);                        /* and complete */
    for (int i = 0; i < 288; i++) tr.symbols[i] = nondet_ushort();
    int r = tinf_decode_symbol(&d, &tr);
    FCHECK(WANT != 0, "every bit string starts with a code");
    FCHECK(r == tr.symbols[S[WANT] + O[WANT]], "symbol of the canonical code");
    FCHECK(nbits == WANT, "exactly the bits of the code are consumed");
    CANARY("end");
}
#endif

#ifdef U_stored
VS struct tinf_data d; 
void harness(void)
{
    size_t n = nondet_size_t(), m = nondet_size_t(), k, dn, sn;
#if defined(BOUNDED) || defined(NATIVE)
    ASSUME(n <= 12 && m <= 12);
#else
    ASSUME(n <= 0x20000 && m <= 0x20000);
#endif
    g_src = vf_buf(n); g_buf = vf_buf(m); g_n = m;
    dn = nondet_size_t(); ASSUME(dn <= m); sn = nondet_size_t(); ASSUME(sn <= n);
    d.source = g_src + sn; d.source_end = g_src + n; d.dest_start = g_buf; d.dest = g_buf + dn; d.dest_end = g_buf + m;
    d.tag = nondet_uint(); d.bitcount = vf_range(0, 7); d.overflow = nondet_bool(); int of = d.overflow;
    k = nondet_size_t(); ASSUME(k < m); g_k = k; g_old = g_buf[k];
    unsigned len = 0, il = 0; int hdr = n - sn >= 4;
    if (hdr) { len = g_src[sn] | g_src[sn + 1] << 8; il = g_src[sn + 2] | g_src[sn + 3] << 8; }
    g_num = len; g_pos = dn; g_l = sn + 4;
    int res = tinf_inflate_uncompressed_block(&d);
    int bad = !hdr || (len ^ il) != 0xffff || n - sn - 4 < len;
    if (bad) { FCHECK(res == TINF_DATA_ERROR, "truncated or inconsistent stored block is rejected"); }
    else if (m - dn < len) { FCHECK(res == TINF_BUF_ERROR, "output too small"); }
    else {
        FCHECK(res == TINF_OK, "accepted");
        FCHECK(d.dest == g_buf + dn + len && d.source == g_src + sn + 4 + len, "both cursors move by the length");
        FCHECK(d.bitcount == 0 && d.tag == 0, "next block starts on a byte boundary");
        FCHECK(g_buf[k] == (k >= dn && k < dn + len ? g_src[sn + 4 + k - dn] : g_old), "bytes copied verbatim, the rest kept");
        CANARY("ok");
    }
    FCHECK(d.source_end == g_src + n && d.dest_end == g_buf + m && d.dest_start == g_buf && d.overflow == of, "bounds kept");
}
#endif

#ifdef U_block
/* one iteration of the block loop is arbitrary (cut): literal, end of block or match */
VS struct tinf_data d; VS struct tinf_tree lt, dt;
static int s_dist, s_nsym, s_ext, s_bits1, s_bits2; static unsigned s_v1, s_v2; static int s_of;
static const unsigned short LB[29] = { 3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258 };
static const unsigned char LX[29] = { 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0 };
static const unsigned short DB[30] = { 1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577 };
static const unsigned char DX[30] = { 0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13 };
static size_t b_dn;  /* output position at the loop head */
static void stub_of(struct tinf_data *p) { if (nondet_bool()) p->overflow = 1; s_of = p->overflow; }
static int tinf_decode_symbol(struct tinf_data *p, const struct tinf_tree *t)
{
    stub_of(p);
    int v = vf_range(0, 287);
    if (t == &lt) { FCHECK(s_ph == 0, "literal/length code first"); s_ph = 1; s_sym = v; b_dn = p->dest - g_buf; }
    else { FCHECK(t == &dt && s_ph == 2, "then the distance code"); s_ph = 3; s_dist = v; }
    return v;
}
static unsigned int tinf_getbits_base(struct tinf_data *p, int num, int base)
{
    CHECK(num >= 0 && num <= 13, "no more bits than the reader supports");
    stub_of(p);
    unsigned v = nondet_uint(); ASSUME(v < (1u << num));
    if (s_ph == 1) { s_ph = 2; FCHECK(s_sym >= 257 && s_sym <= 285 && num == LX[s_sym - 257] && base == LB[s_sym - 257], "length base and extra bits"); s_v1 = base + v; }
    else { FCHECK(s_ph == 3 && s_dist < 30 && num == DX[s_dist] && base == DB[s_dist], "distance base and extra bits"); s_ph = 4; s_v2 = base + v; }
    return base + v;
}
/* checked when an iteration ends (back at the loop head) */
static void ITER_END(void)
{
    size_t now = d.dest - g_buf;
    if (s_sym < 256) { FCHECK(s_ph == 1 && now == b_dn + 1 && g_buf[b_dn] == s_sym, "a literal is appended"); CANARY("literal"); }
    else {
        FCHECK(s_sym > 256 && s_sym <= 285 && s_ph == 4 && s_dist < 30 && s_sym <= lt.max_sym && s_dist <= dt.max_sym, "only legal codes");
        FCHECK(now == b_dn + s_v1 && s_v2 <= b_dn && s_v2 > 0, "a match of the coded length, inside the output");
        if (g_k < s_v1) FCHECK(g_buf[b_dn + g_k] == g_buf[b_dn + g_k - s_v2], "the match repeats the output at the coded distance");
        CANARY("match");
    }
    FCHECK(g_l >= b_dn || g_buf[g_l] == g_old, "earlier output is kept");
    FCHECK(!s_of || s_sym >= 257, "no literal from beyond the end of the input");
}
void harness(void)
{
    size_t m = nondet_size_t(), dn = nondet_size_t();
#if defined(BOUNDED) || defined(NATIVE)
    ASSUME(m <= 600);
#else
    ASSUME(m <= 0x20000);
#endif
    ASSUME(dn <= m);
    g_buf = vf_buf(m); g_n = m; g_pos = dn;
    d.dest_start = g_buf; d.dest = g_buf + dn; d.dest_end = g_buf + m;
    d.overflow = nondet_bool();
    lt.max_sym = nondet_int(); dt.max_sym = nondet_int();
    g_k = nondet_uint(); ASSUME(g_k < 258);                   /* any byte of a match */
    g_l = nondet_uint(); ASSUME(g_l < dn); g_old = m ? g_buf[g_l] : 0; /* any byte of the earlier output */
    s_ph = 0;
    int res = tinf_inflate_block_data(&d, &lt, &dt);
    size_t now = d.dest - g_buf;
    FCHECK(now == b_dn, "nothing is appended when the block ends");
    if (res == TINF_OK) { FCHECK(s_ph == 1 && s_sym == 256 && !s_of, "success only at end of block, inside the input"); CANARY("ok"); }
    else if (res == TINF_BUF_ERROR) { FCHECK(s_sym < 256 ? s_ph == 1 && now == m : s_ph == 4 && m - now < s_v1 && s_v2 <= now, "output too small"); CANARY("buf"); }
    else {
        FCHECK(res == TINF_DATA_ERROR && ((s_ph == 1 && (s_of || s_sym > lt.max_sym || s_sym > 285 || (s_sym > 256 && dt.max_sym == -1))) ||
               (s_ph == 3 && (s_dist > dt.max_sym || s_dist > 29)) || (s_ph == 4 && s_v2 > now)), "rejected for a reason of the format");
        CANARY("data");
    }
    FCHECK(g_l >= b_dn || g_buf[g_l] == g_old, "earlier output is kept");
    FCHECK(d.dest_start == g_buf && d.dest_end == g_buf + m, "bounds kept");
}
#endif

#ifdef U_trees
/* code length sequences: an arbitrary iteration of the expansion loop */
VS struct tinf_data d; VS struct tinf_tree lt, dt;
static const unsigned char ORD[19] = { 16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15 };
static int s_res[3];
static unsigned int tinf_getbits_base(struct tinf_data *p, int num, int base)
{
    CHECK(num >= 0 && num <= 13, "no more bits than the reader supports");
    unsigned v = nondet_uint(); ASSUME(v < (1u << num)); v += base;
    if (s_call == 0) { FCHECK(num == 5 && base == 257, "HLIT"); s_hlit = v; }
    else if (s_call == 1) { FCHECK(num == 5 && base == 1, "HDIST"); s_hdist = v; }
    else if (s_call == 2) { FCHECK(num == 4 && base == 4, "HCLEN"); s_hclen = v; }
    else { FCHECK(s_ph == 1 && (s_sym == 16 ? num == 2 && base == 3 : s_sym == 17 ? num == 3 && base == 3 : s_sym == 18 && num == 7 && base == 11), "repeat counts"); s_rep = v; s_ph = 2; }
    if (s_call < 4) s_call++;
    return v;
}
static unsigned int tinf_getbits(struct tinf_data *p, int num)
{
    FCHECK(s_call == 3 && num == 3, "code length code lengths have 3 bits");
    unsigned v = nondet_uint(); ASSUME(v < 8);
    if (s_ncl < 19) s_cl[s_ncl] = v;
    s_ncl++;
    return v;
}
static int tinf_build_tree(struct tinf_tree *t, const unsigned char *lengths, unsigned int num)
{
    if (s_tree == 0) {
        FCHECK(t == &lt && num == 19 && s_ncl == s_hclen && s_hlit <= 286 && s_hdist <= 30, "code length tree from HCLEN lengths");
        for (int i = 0; i < 19; i++) FCHECK(lengths[ORD[i]] == (i < s_hclen ? s_cl[i] : 0), "in the order of RFC 1951");
        g_lengths = (unsigned char *)lengths;
    } else if (s_tree == 1) {
        FCHECK(t == &lt && lengths == g_lengths && num == s_hlit, "literal tree from the first HLIT lengths");
        FCHECK(lengths[256] != 0, "end-of-block code present");
    } else FCHECK(s_tree == 2 && t == &dt && lengths == g_lengths + s_hlit && num == s_hdist, "distance tree from the next HDIST lengths");
    CHECK(R_OK(lengths, num), "lengths readable");
    FCHECK(s_tree == 0 || (s_tree == 1 ? g_k >= num : g_k < s_hlit || g_k >= s_hlit + num) || g_lengths[g_k] <= 15, "lengths at most 15");
    t->max_sym = nondet_int(); ASSUME(t->max_sym >= -1 && t->max_sym < (int)num);
    s_res[s_tree] = nondet_bool() ? TINF_OK : TINF_DATA_ERROR;
    return s_res[s_tree++];
}
static int tinf_decode_symbol(struct tinf_data *p, const struct tinf_tree *t)
{
    FCHECK(t == &lt && s_tree == 1 && s_ph == 0, "code length code");
    FCHECK(lt.max_sym != -1, "a non-empty tree");
    s_sym = vf_range(0, 19); s_ph = 1; s_rep = 1;
    return s_sym;
}
static void ITER_END(unsigned num, unsigned char *lengths)
{
    FCHECK(num == g_num0 + s_rep && num <= s_hlit + s_hdist, "as many lengths as coded");
    FCHECK(s_sym <= 15 ? s_ph == 1 : s_sym <= 18 && s_ph == 2, "repeat codes 16 to 18");
    FCHECK(s_sym != 16 || g_num0 > 0, "no repeat before the first length");
    if (g_k >= g_num0 && g_k < num) FCHECK(lengths[g_k] == (s_sym == 16 ? g_v0 : s_sym > 16 ? 0 : s_sym), "value of each length");
    else FCHECK(g_k >= g_num0 || lengths[g_k] == g_old, "earlier lengths are kept");
    s_ph = 0;
    CANARY("iteration");
}
void harness(void)
{
    s_call = s_ncl = s_tree = 0; s_ph = 0;
    g_k = nondet_uint(); ASSUME(g_k < 320);
    int res = tinf_decode_trees(&d, &lt, &dt);
    if (res == TINF_OK) { FCHECK(s_tree == 3 && s_res[0] == TINF_OK && s_res[1] == TINF_OK && s_res[2] == TINF_OK, "success needs all three trees"); CANARY("ok"); }
    else FCHECK(res == TINF_DATA_ERROR && (s_tree == 0 ? s_hlit > 286 || s_hdist > 30 : (s_res[s_tree - 1] != TINF_OK || (s_tree == 1 && (
        s_ph == 0 ? lt.max_sym == -1 || (g_num0 == s_hlit + s_hdist && (g_k != 256 || g_old == 0))
        : s_ph == 1 ? s_sym > lt.max_sym || s_sym > 18 || (s_sym == 16 && g_num0 == 0)
        : s_rep > s_hlit + s_hdist - g_num0)))), "rejected for a reason of the format");
    if (s_tree == 3) FCHECK(res == s_res[2], "result");
}
#endif

#ifdef U_main
static void ok(struct tinf_data *d) { CHECK(d->source >= m_src && d->source <= d->source_end && d->dest >= m_dst && d->dest <= d->dest_end && d->dest_end == m_dst + m_n && d->dest_start == m_dst && d->source_end == m_src + g_n, "cursors in range"); }
static unsigned int tinf_getbits(struct tinf_data *d, int num)
{
    ok(d);
    unsigned v = nondet_uint(); ASSUME(v < (1u << num));
    if (s_ph == 0) { FCHECK(num == 1, "final flag first"); s_fin = v; s_ph = 1; }
    else { FCHECK(s_ph == 1 && num == 2, "then the block type"); s_type = v; s_ph = 2; }
    if (nondet_bool()) d->overflow = 1;
    return v;
}
static int blk(struct tinf_data *d, unsigned t)
{
    ok(d);
    FCHECK(s_ph == 2 && s_type == t, "block decoder of the coded type"); s_ph = 3;
    d->dest += vf_range(0, d->dest_end - d->dest); d->source += vf_range(0, d->source_end - d->source);
    g_pos = d->dest - m_dst;
    if (nondet_bool()) d->overflow = 1;
    g_k = d->overflow;
    int c = vf_range(0, 2); s_r = c == 0 ? TINF_OK : c == 1 ? TINF_DATA_ERROR : TINF_BUF_ERROR;
    return s_r;
}
static int tinf_inflate_uncompressed_block(struct tinf_data *d) { return blk(d, 0); }
static int tinf_inflate_fixed_block(struct tinf_data *d) { return blk(d, 1); }
static int tinf_inflate_dynamic_block(struct tinf_data *d) { return blk(d, 2); }
void harness(void)
{
    unsigned n = nondet_uint(), m = nondet_uint(), m0 = m;
    ASSUME(n < 0x10000 && m < 0x10000);
    m_src = vf_buf(n); m_dst = vf_buf(m); g_n = n; m_n = m; s_ph = 0;
    int res = tinf_uncompress(m_dst, &m, m_src, n);
    if (s_ph == 2) FCHECK(s_type == 3 && res == TINF_DATA_ERROR, "reserved block type is rejected");
    else {
        FCHECK(s_ph == 3, "block decoded");
        if (s_r != TINF_OK) FCHECK(res == s_r, "errors are passed on");
        else FCHECK(s_fin && res == (g_k ? TINF_DATA_ERROR : TINF_OK), "ends after the final block, unless input ran out");
    }
    FCHECK(m == (res == TINF_OK ? g_pos : m0), "output length is what was produced");
    CANARY("end");
}
#endif
