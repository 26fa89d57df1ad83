/* Contracts of src/tinfgzip.c (RFC 1952) */
#include "verif.h"
#ifdef ONLY_SAFETY
#define FCHECK(c, m) ((void)0)
#else
#define FCHECK(c, m) CHECK(c, m)
#endif
static unsigned g_crc, g_k, g_n; static unsigned char *g_src, *g_dst; static size_t g_e1, g_p1, g_e2, g_p2;
/* one byte of the reflected CRC-32 (polynomial 0xEDB88320), bit by bit */
static unsigned spec_crc(unsigned c, unsigned char b)
{
    c ^= b;
    for (int i = 0; i < 8; i++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1;
    return c;
}
#ifdef U_gzip
#include <string.h>
static unsigned s_ncrc, s_clen[2], s_cret[2], s_unc, s_ulen; static const void *s_cbuf[2]; static int s_ures; static const unsigned char *s_usrc;
static unsigned int tinf_crc32(const void *data, unsigned int length);
#ifndef CRC_NAME
#define CRC_NAME tinf_crc32
#endif
static unsigned int CRC_NAME(const void *data, unsigned int length)
{
    CHECK(data == g_dst ? length <= g_n : R_OK(data, length), "checksummed bytes exist");
    if (s_ncrc < 2) { s_cbuf[s_ncrc] = data; s_clen[s_ncrc] = length; s_cret[s_ncrc] = nondet_uint(); }
    return s_cret[s_ncrc++ & 1];
}
int tinf_uncompress(void *dest, unsigned int *destLen, const void *source, unsigned int sourceLen)
{
    CHECK(dest == g_dst && *destLen <= g_n && R_OK(source, sourceLen), "decompressor gets the whole output and existing input");
    s_unc++; s_usrc = source; s_ulen = sourceLen;
    s_ures = nondet_bool() ? 0 : nondet_bool() ? -3 : -5;
    if (s_ures == 0) { unsigned k = nondet_uint(); ASSUME(k <= *destLen); *destLen = k; }
    return s_ures;
}
#endif
#ifndef U_gzip
int tinf_uncompress(void *dest, unsigned int *destLen, const void *source, unsigned int sourceLen) { return -3; }
#endif
#include "src/tinfgzip.c"

#ifdef U_crc
void harness(void)
{
    unsigned n = nondet_uint();
#if defined(BOUNDED) || defined(NATIVE)
    ASSUME(n <= 8);
#else
    ASSUME(n < 0x40000000);
#endif
    unsigned char *b = vf_buf(n);
    g_crc = 0xffffffff; g_src = b;
    unsigned r = tinf_crc32(b, n);
#if defined(BOUNDED) || defined(NATIVE)
    for (unsigned i = 0; i < n; i++) g_crc = spec_crc(g_crc, b[i]);
#endif
    FCHECK(r == (n ? ~g_crc : 0), "CRC-32 of the bytes");
    CANARY("end");
}
#endif

#ifdef U_gzip
void harness(void)
{
    unsigned n = nondet_uint(), m = nondet_uint(), m0;
    s_ncrc = s_unc = 0;
#if defined(BOUNDED) || defined(NATIVE)
    ASSUME(n <= 26 && m <= 0x40000000);
#else
    ASSUME(n <= 0x40000000 && m <= 0x40000000);
#endif
    unsigned char *s = g_src = vf_buf(n); g_dst = vf_buf(1); g_n = m0 = m;
    g_k = nondet_uint(); ASSUME(g_k < n || n == 0);
    int res = tinf_gzip_uncompress(g_dst, &m, s, n);
    unsigned char f = n >= 18 ? s[3] : 0;
    FCHECK(res == 0 || res == -3 || res == -5, "result");
    if (n < 18 || s[0] != 0x1f || s[1] != 0x8b || s[2] != 8 || (f & 0xe0)) { FCHECK(res == -3 && !s_unc, "bad header is rejected"); CANARY("magic"); return; }
    size_t p = 10;
    if (f & 4) {
        size_t xl = s[10] | s[11] << 8;
        if (p + 2 + xl > n) { FCHECK(res == -3 && !s_unc, "extra field longer than the file"); return; }
        p += 2 + xl;
    }
#if defined(BOUNDED) || defined(NATIVE)
#define SCAN(e, q) e = p; for (q = p; q < n && s[q]; q++);
#else
#define SCAN(e, q) FCHECK(g_k < p || g_k >= q || s[g_k] != 0, "no terminator skipped");
#endif
    if (f & 8) {
        SCAN(g_e1, g_p1)
        FCHECK(g_e1 == p, "name follows the extra field");
        if (g_p1 >= n) { FCHECK(res == -3 && !s_unc && g_p1 == n, "unterminated name"); CANARY("name"); return; }
        FCHECK(s[g_p1] == 0, "name ends at its terminator");
        p = g_p1 + 1;
    }
    if (f & 16) {
        SCAN(g_e2, g_p2)
        FCHECK(g_e2 == p, "comment follows the name");
        if (g_p2 >= n) { FCHECK(res == -3 && !s_unc && g_p2 == n, "unterminated comment"); return; }
        FCHECK(s[g_p2] == 0, "comment ends at its terminator");
        p = g_p2 + 1;
    }
    int c = 0;
    if (f & 2) {
        if (p + 2 > n) { FCHECK(res == -3 && !s_unc, "header checksum missing"); return; }
        FCHECK(s_ncrc > 0 && s_cbuf[0] == s && s_clen[0] == p, "header checksum covers the header"); c = 1;
        if ((s[p] | s[p + 1] << 8) != (s_cret[0] & 0xffff)) { FCHECK(res == -3 && !s_unc, "wrong header checksum"); CANARY("hcrc"); return; }
        p += 2;
    }
    unsigned dl = s[n - 4] | s[n - 3] << 8 | s[n - 2] << 16 | (unsigned)s[n - 1] << 24;
    unsigned cr = s[n - 8] | s[n - 7] << 8 | s[n - 6] << 16 | (unsigned)s[n - 5] << 24;
    if (dl > m0) { FCHECK(res == -5 && !s_unc, "stored length exceeds the output"); CANARY("big"); return; }
    if (p + 8 > n) { FCHECK(res == -3 && !s_unc, "no room for the trailer"); return; }
    FCHECK(s_unc == 1 && s_usrc == s + p && s_ulen == n - p - 8, "exactly the compressed bytes are decompressed");
    if (s_ures != 0) { FCHECK(res != 0, "decompression error is an error"); CANARY("unc"); return; }
    if (m != dl) { FCHECK(res == -3, "length mismatch is rejected"); CANARY("len"); return; }
    FCHECK(s_ncrc == c + 1 && s_cbuf[c] == g_dst && s_clen[c] == dl, "checksum covers the output");
    FCHECK(res == (s_cret[c] == cr ? 0 : -3), "accepted exactly when the checksum matches");
    if (res == 0) CANARY("accepted");
}
#endif
