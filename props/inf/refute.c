/* Differential search for a failing input: the real decompressor against an independent
   inflater written from RFC 1951/1952 (canonical codes walked bit by bit). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define read_le16 t_le16
#include "src/tinflate.c"
#undef read_le16
#define read_le16 g_le16
#include "src/tinfgzip.c"
/* PROP 1: memory and arithmetic only (sanitizers); 2: gzip container; 3: deflate */
#if PROP == 1
#define FAIL(m) ((void)0)
#else
#define FAIL(m) (fprintf(stderr, "REFUTED: %s\n", m), abort())
#endif
/* ---- reference ---- */
static const uint8_t *rs; static size_t rn, rp; static int rover;
static int rbit(void) { if (rp / 8 >= rn) { rover = 1; rp++; return 0; } int b = rs[rp / 8] >> (rp % 8) & 1; rp++; return b; }
static unsigned rbits(int n) { unsigned v = 0; for (int i = 0; i < n; i++) v |= rbit() << i; return v; }
struct rc { unsigned code[320]; int len[320], n, used, max; };
static int rbuild(struct rc *c, const uint8_t *l, int n)
{
    unsigned next = 0; int used = 0; long space = 0;
    c->n = n; c->max = -1;
    for (int i = 0; i < n; i++) { c->len[i] = l[i]; if (l[i]) { used++; c->max = i; space += 1L << (15 - l[i]); } }
    c->used = used;
    for (int b = 1; b <= 15; b++) { next <<= 1; for (int i = 0; i < n; i++) if (l[i] == b) c->code[i] = next++; }
    if (used > 1 && space != 1L << 15) return -1;
    if (used == 1 && space != 1L << 14) return -1;
    return 0;
}
static int rsym(struct rc *c)
{
    unsigned code = 0;
    if (!c->used) return -1;
    for (int b = 1; b <= 15; b++) {
        code = code << 1 | rbit();
        for (int i = 0; i < c->n; i++) if (c->len[i] == b && c->code[i] == code) return i;
        if (c->used == 1) return -1;
    }
    return -1;
}
/* 0 ok, -3 bad, -5 output too small */
static int rinflate(uint8_t *out, size_t cap, size_t *outn, const uint8_t *src, size_t n)
{
    static const uint8_t ord[19] = { 16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15 };
    size_t o = 0;
    rs = src; rn = n; rp = 0; rover = 0;
    for (int fin = 0; !fin; ) {
        fin = rbit(); int ty = rbits(2);
        if (rover) return -3;
        static struct rc lc, dc, cc;
        if (ty == 3) return -3;
        if (ty == 0) {
            rp = (rp + 7) / 8 * 8; size_t p = rp / 8;
            if (n - p < 4 || p > n) return -3;
            unsigned l = src[p] | src[p + 1] << 8, il = src[p + 2] | src[p + 3] << 8;
            if ((l ^ il) != 0xffff) return -3;
            if (n - p - 4 < l) return -3;
            if (cap - o < l) return -5;
            memcpy(out + o, src + p + 4, l); o += l; rp = (p + 4 + l) * 8;
            continue;
        }
        uint8_t len[400] = { 0 };
        if (ty == 1) {
            for (int i = 0; i < 288; i++) len[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
            rbuild(&lc, len, 288);
            for (int i = 0; i < 32; i++) len[i] = 5;
            rbuild(&dc, len, 32);
        } else {
            int hl = rbits(5) + 257, hd = rbits(5) + 1, hc = rbits(4) + 4;
            if (hl > 286 || hd > 30) return -3;
            uint8_t cl[19] = { 0 };
            for (int i = 0; i < hc; i++) cl[ord[i]] = rbits(3);
            if (rover) return -3;
            if (rbuild(&cc, cl, 19)) return -3;
            int k = 0;
            while (k < hl + hd) {
                int s = rsym(&cc);
                if (s < 0 || rover) return -3;
                if (s < 16) { len[k++] = s; continue; }
                int v = 0, r;
                if (s == 16) { if (!k) return -3; v = len[k - 1]; r = 3 + rbits(2); } else r = s == 17 ? 3 + rbits(3) : 11 + rbits(7);
                if (k + r > hl + hd) return -3;
                while (r--) len[k++] = v;
            }
            if (rover || !len[256]) return -3;
            if (rbuild(&lc, len, hl) || rbuild(&dc, len + hl, hd)) return -3;
        }
        for (;;) {
            int s = rsym(&lc);
            if (rover || s < 0) return -3;
            if (s == 256) break;
            if (s < 256) { if (o == cap) return -5; out[o++] = s; continue; }
            if (s > 285) return -3;
            static const uint16_t LB[] = { 3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258 };
            static const uint8_t LX[] = { 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0 };
            int L = LB[s - 257] + rbits(LX[s - 257]);
            int ds = rsym(&dc);
            if (ds < 0 || ds > 29) return -3;
            unsigned db = 1; for (int i = 0; i < ds; i++) db += 1u << (i < 2 ? 0 : i / 2 - 1);
            unsigned D = db + rbits(ds < 4 ? 0 : ds / 2 - 1);
            if (rover) return -3;
            if (D > o) return -3;
            if (cap - o < L) return -5;
            while (L--) { out[o] = out[o - D]; o++; }
        }
    }
    if (rover) return -3;
    *outn = o;
    return 0;
}
static uint32_t rcrc(const uint8_t *b, size_t n) { uint32_t c = ~0u; for (size_t i = 0; i < n; i++) { c ^= b[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return ~c; }
enum { CAP = 70000 };
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    if (n < 4) return 0;
    unsigned mode = d[0]; size_t cap = d[1] == 255 ? CAP : (d[1] << 8 | d[2]);
    if (cap > CAP) cap = CAP;
    d += 3; n -= 3;
    static uint8_t ref[CAP]; size_t rl = 0;
#if PROP == 2
    mode |= 1;
#elif PROP == 3
    mode &= ~1u;
#endif
    if ((mode & 1) == 0) {
        uint8_t *in = malloc(n), *out = malloc(cap); unsigned ol = cap;
        memcpy(in, d, n);
        int a = tinf_uncompress(out, &ol, in, n);
        int b = rinflate(ref, cap, &rl, d, n);
        /* beyond the end of the input the two may differ in which error they see first */
        if ((a == 0) != (b == 0)) FAIL(a == 0 ? "deflate stream accepted that RFC 1951 does not allow" : "valid deflate stream rejected");
        if (a == 0 && (ol != rl || memcmp(out, ref, rl))) FAIL("wrong decompressed bytes");
        free(in); free(out);
        return 0;
    }
    /* gzip: header built from the input, payload = deflate bytes, trailer true or perturbed */
    unsigned flg = mode >> 1 & 0x1f; int pert = mode >> 6;
    static uint8_t g[1 << 17]; size_t k = 0;
    if (n < 8 || n > 60000) return 0;
    uint8_t hx = d[0], nl = d[1], cl = d[2], what = d[3], bit = d[4]; d += 5; n -= 5;
    memcpy(g, "\x1f\x8b\x08\0\x11\x22\x33\x44\x02\x03", 10); g[3] = flg; k = 10;
    if (flg & 4) { g[k++] = hx; g[k++] = hx > 250; size_t x = hx | (hx > 250) << 8; for (size_t i = 0; i < x; i++) g[k++] = i * 7 & 0xff; }
    if (flg & 8) { for (int i = 0; i < nl; i++) g[k++] = 'a' + i % 26; g[k++] = 0; }
    if (flg & 16) { for (int i = 0; i < cl; i++) g[k++] = '0' + i % 10; g[k++] = 0; }
    size_t hc = k; int okhdr = 1;
    if (flg & 2) { uint32_t c = rcrc(g, k) & 0xffff; if (pert == 3) { c ^= 1u << (bit & 15); okhdr = 0; } g[k++] = c; g[k++] = c >> 8; }
    memcpy(g + k, d, n); k += n;
#if PROP == 2
    unsigned rl0 = CAP; int b = tinf_uncompress(ref, &rl0, d, n); rl = rl0;
#else
    int b = rinflate(ref, CAP, &rl, d, n);
#endif
    uint32_t c = rcrc(ref, b ? 0 : rl), l = b ? 0 : rl;
    if (pert == 1) c ^= 1u << (bit & 31);
    if (pert == 2) { unsigned dl = 1u << (bit & 31); l ^= dl; }
    for (int i = 0; i < 4; i++) g[k++] = c >> (8 * i);
    for (int i = 0; i < 4; i++) g[k++] = l >> (8 * i);
    size_t cut = what & 1 ? (what >> 1) % (k < 40 ? k : 40) : 0; k -= cut;
    uint8_t *in = malloc(k), *out = malloc(cap); unsigned ol = cap;
    memcpy(in, g, k);
    int a = tinf_gzip_uncompress(out, &ol, in, k);
    if (!cut) {
        int good = b == 0 && okhdr && (pert == 0 || pert == 3) && rl <= cap;
        if ((a == 0) != good) FAIL(good ? "valid gzip file rejected" : "invalid gzip file accepted");
    }
    if (a == 0) {
        uint32_t tc = in[k - 8] | in[k - 7] << 8 | in[k - 6] << 16 | (uint32_t)in[k - 5] << 24, tl = in[k - 4] | in[k - 3] << 8 | in[k - 2] << 16 | (uint32_t)in[k - 1] << 24;
        if (ol != tl || rcrc(out, ol) != tc) FAIL("gzip accepted although length or checksum differ");
        if (!cut && (ol != rl || memcmp(out, ref, rl))) FAIL("wrong decompressed bytes");
    }
    (void)hc;
    free(in); free(out);
    return 0;
}
