/* Search for a failing input: the real src/muntar.c (file system calls replaced by recorders)
   against an independent ustar reader. PROP 4 header decoding, 5 walk and contents, 6 paths. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <setjmp.h>
#include <sys/stat.h>
static void die(const char *m) { fprintf(stderr, "REFUTED: %s\n", m); abort(); }
#define C4(c, m) do { if (PROP == 4 && !(c)) die(m); } while (0)
#define C5(c, m) do { if (PROP == 5 && !(c)) die(m); } while (0)
#define C6(c, m) do { if (PROP == 6 && !(c)) die(m); } while (0)
struct ev { int kind; char path[600]; const uint8_t *d; size_t n; };   /* 1 dir 2 file */
static struct ev ev[400], xv[400]; static int nev, nx, calls, failat, failed, openf; static jmp_buf out; static int guard;
static int inj(void) { if (++calls == failat) { failed = 1; return 1; } return 0; }
static int r_mkdir(const char *p, mode_t m)
{
    if (guard++ > 3000) die("unpacking does not finish");
    if (nev < 400) { ev[nev].kind = 1; snprintf(ev[nev].path, 600, "%s", p); ev[nev].n = 0; nev++; }
    if (inj()) { errno = ENOSPC; return -1; }
    if (calls % 3 == 0) { errno = EEXIST; return -1; }
    return 0;
}
static FILE *r_fopen(const char *p, const char *m)
{
    if (guard++ > 3000) die("unpacking does not finish");
    if (nev < 400) { ev[nev].kind = 2; snprintf(ev[nev].path, 600, "%s", p); ev[nev].n = 0; ev[nev].d = 0; nev++; }
    if (inj()) { errno = EACCES; return 0; }
    openf++;
    return (FILE *)&openf;
}
static unsigned char sum;
static size_t r_fwrite(const void *d, size_t s, size_t n, FILE *f)
{
    size_t t = s * n;
    for (size_t i = 0; i < t; i++) sum += ((const unsigned char *)d)[i];
    C5(f == (FILE *)&openf && openf == 1, "write without open file");
    if (nev) { if (!ev[nev - 1].n) ev[nev - 1].d = d; else C5(ev[nev - 1].d + ev[nev - 1].n == d, "pieces in order"); ev[nev - 1].n += t; }
    if (t && inj()) return t / 2 / (s ? s : 1);
    return n;
}
static int r_fclose(FILE *f) { openf--; return inj() ? EOF : 0; }
#define mkdir r_mkdir
#define fopen r_fopen
#define fwrite r_fwrite
#define fclose r_fclose
#define perror(x) ((void)0)
#define fprintf(...) ((void)0)
#define NOGUNZIP
#include "src/muntar.c"
#undef fprintf
#undef fopen
#undef fwrite
#undef fclose
/* ---- reference ---- */
static int wf; /* field well formed */
static uint64_t roct(const uint8_t *f, int n)
{
    int i = 0; uint64_t v = 0; int dig = 0;
    while (i < n && f[i] == ' ') i++;
    while (i < n && f[i] >= '0' && f[i] <= '7') v = v << 3 | (f[i++] - '0'), dig = 1;
    if (!dig || (i < n && f[i] != 0 && f[i] != ' ')) wf = 0;
    return v;
}
static unsigned rsum(const uint8_t *b) { unsigned s = 0; for (int i = 0; i < 512; i++) s += i >= 148 && i < 156 ? 32 : b[i]; return s; }
static void field(char *d, const uint8_t *s, int n) { memcpy(d, s, n); d[n] = 0; }
/* 1 good, 0 end, -1 bad, -2 outside the spec (malformed octal) */
static int rhead(const uint8_t *b)
{
    if (!b[148]) return 0;
    wf = 1;
    unsigned c = roct(b + 148, 8);
    if (!wf) return -2;
    if (c != rsum(b)) return -1;
    if (memcmp(b + 257, "ustar", 6)) return 0;
    roct(b + 124, 12);
    return wf ? 1 : -2;
}
static int bad(const char *n)
{
    for (const char *p = n; ; ) {
        size_t l = strcspn(p, "/");
        if (l == 2 && p[0] == '.' && p[1] == '.') return 1;
        if (!p[l]) return 0;
        p += l + 1;
    }
}
static const uint8_t *in, *ine;
static int g(void) { return in < ine ? *in++ : 0; }
static void put(uint8_t *h, int style, int n, uint64_t v)
{
    char t[40];
    switch (style & 3) {
    case 0: snprintf(t, 40, "%0*llo", n - 1, (unsigned long long)v); memcpy(h, t, n); break;
    case 1: snprintf(t, 40, "%*llo ", n - 1, (unsigned long long)v); memcpy(h, t, n); break;
    case 2: memset(h, 0, n); snprintf(t, 40, "%llo", (unsigned long long)v); memcpy(h, t, strlen(t) < (size_t)n ? strlen(t) : n); break;
    case 3: snprintf(t, 40, "%0*llo", n, (unsigned long long)v); memcpy(h, t, n); break;
    }
}
static void fix(uint8_t *h, int style) { char t[16]; unsigned s = rsum(h); if (style & 1) { snprintf(t, 16, "%6o", s); memcpy(h + 148, t, 6); h[154] = ' '; h[155] = 0; } else { snprintf(t, 16, "%06o", s); memcpy(h + 148, t, 7); h[155] = ' '; } }
int LLVMFuzzerTestOneInput(const unsigned char *d, size_t n)
{
    static uint8_t a[1 << 17]; size_t al = 0;
    in = d; ine = d + n;
    int mode = g(); failat = g() & 0x40 ? g() : 0;
    static const char alpha[] = "a./b.\\c../";
    if (mode & 1) {
        while (in < ine && al + 512 <= sizeof a) {
            size_t k = ine - in < 512 ? ine - in : 512;
            memset(a + al, 0, 512); memcpy(a + al, in, k); in += k;
            if (a[al + 148] & 1 || al == 0) { memcpy(a + al + 257, "ustar", 6); fix(a + al, a[al + 148] >> 1); }
            al += 512;
        }
    } else {
        int m = 1 + g() % 5;
        while (m-- && al + 20000 < sizeof a) {
            uint8_t *h = a + al;
            memset(h, 0, 512);
            int ty = g(), nl = g() % 101, pl = g() & 1 ? g() % 156 : 0, st = g(), sz = g();
            if (ty & 8) nl = 100 - (ty & 1); if (ty & 16 && pl) pl = 155 - (ty & 1);
            int seedb = g();
            for (int i = 0; i < nl; i++) h[i] = i < 12 ? alpha[g() % 10] : "abcdefgh/"[(seedb + i * 7) % 9];
            for (int i = 0; i < pl; i++) h[345 + i] = i < 6 ? alpha[g() % 10] : "mnopqrst/"[(seedb + i * 5) % 9];
            put(h + 100, st, 8, g() * 7); put(h + 108, st >> 1, 8, g() << 8); put(h + 116, st >> 2, 8, g()); put(h + 136, st, 12, g() * 99991u);
            uint64_t size = sz < 100 ? sz : sz < 200 ? 500 + (sz - 100) / 4 : sz < 240 ? 1024 + sz * 3 : (uint64_t)g() << (g() % 33);
            put(h + 124, st >> 4, 12, size); put(h + 329, st, 8, g()); put(h + 337, st, 8, g());
            h[156] = "00500051223\0x05LgK"[ty % 18];
            for (int i = 0; i < 100 && (st & 64); i++) h[157 + i] = 'l';
            memcpy(h + 257, "ustar", 6); h[263] = h[264] = '0';
            fix(h, st >> 6);
            if (g() == 255) h[g()] ^= 1;
            if (g() == 254) memcpy(h + 257, "ustar  ", 6);
            al += 512;
            size_t bl = size < 9000 ? (size + 511) / 512 * 512 : 512;
            for (size_t i = 0; i < bl; i++) a[al + i] = i * 31 + seedb;
            al += bl;
        }
        int z = g();
        size_t e = z % 8 == 0 ? 0 : z % 8 == 1 ? 512 : 1024;
        memset(a + al, 0, e); al += e;
        if (z % 8 == 2) al -= al > (size_t)g() * 3 ? g() : 0;
    }
    uint8_t *b = malloc(al);
    memcpy(b, a, al);
    nev = nx = calls = failed = openf = guard = 0;
    /* header */
    if (al >= 512) {
        static mtar_t t; static mtar_header_t h; memset(&h, 0xAA, sizeof h);
        int x = rhead(b);
        uint8_t *one = malloc(512); memcpy(one, b, 512);
        int r = raw_to_header(&h, (mtar_raw_header_t *)one);
        if (x == 1) {
            C4(r == 0, "genuine header refused");
            char nm[160];
            wf = 1; uint64_t v; 
            C4(h.size == roct(b + 124, 12), "size");
#define NUMF(f, o, l) wf = 1; v = roct(b + o, l); if (wf) C4(h.f == (uint32_t)v, "field " #f)
            NUMF(mode, 100, 8); NUMF(uid, 108, 8); NUMF(gid, 116, 8); NUMF(mtime, 136, 12); NUMF(devmajor, 329, 8); NUMF(devminor, 337, 8);
            C4((h.type & 255) == b[156], "type");
            field(nm, b, 100); C4(!strcmp(nm, h.name), "name"); field(nm, b + 157, 100); C4(!strcmp(nm, h.linkname), "link name"); field(nm, b + 345, 155); C4(!strcmp(nm, h.path), "prefix");
        } else if (x == -1) C4(r == MTAR_EBADCHKSUM, "bad checksum not reported");
        else if (x == 0) C4(r != 0, "header without magic or checksum accepted");
        free(one);
    }
    if (PROP != 4) {
        /* expected events */
        int ok = 1, res = 0, spec = 1; size_t endoff = 0;
        static char dirs[120]; int dl = mode & 2 ? 1 : mode & 4 ? 100 : mode & 8 ? 101 : 7;
        memset(dirs, 'T', dl); dirs[dl] = 0;
        int reach = 0; /* event count that must have happened on failure */
        for (int pass = 1; pass <= 2 && ok; pass++) {
            size_t o = 0;
            if (pass == 1) {
                if (dl > 100) { ok = 0; break; }
                if (al < 512) { ok = 0; break; }
                int x = rhead(b);
                if (x == -2) { spec = 0; break; }
                if (x != 1) { ok = 0; break; }
                xv[nx].kind = 1; strcpy(xv[nx++].path, dirs);
            }
            for (;;) {
                if (o + 512 > al) { ok = 0; break; }
                int x = rhead(b + o);
                if (x == -2) { spec = 0; ok = 0; break; }
                if (x == 0) break;
                if (x < 0) { ok = 0; break; }
                char nm[102], px[160]; field(nm, b + o, 100); field(px, b + o + 345, 155);
                wf = 1; uint64_t sz = roct(b + o + 124, 12); int ty = b[o + 156];
                if ((pass == 1 && ty == '5') || (pass == 2 && ty == '0')) {
                    if (bad(nm) || bad(px)) { ok = 0; break; }
                    if (strstr(nm, "..") || strstr(px, "..")) { if (strchr(nm, '\\') || strchr(px, '\\')) { spec = 0; ok = 0; break; } }
                    if (nx >= 399) { spec = 0; ok = 0; break; }
                    if (ty == '0' && sz > al - o - 512) { ok = 0; break; }
                    xv[nx].kind = ty == '5' ? 1 : 2;
                    snprintf(xv[nx].path, 600, "%s/%s%s%s", dirs, px, *px ? "/" : "", nm);
                    xv[nx].d = b + o + 512; xv[nx].n = ty == '0' ? sz : 0; nx++;
                }
                if (sz > al - o - 512) { ok = 0; break; }
                o += 512 + (sz + 511) / 512 * 512;
            }
        }
        int r = muntar_to_path(dirs, b, al);
        if (spec) {
            int cnt = nev < nx ? nev : nx;
            for (int i = 0; i < nev; i++) {
                int hit = 0;
                for (int j = 0; j < nx; j++) hit |= xv[j].kind == ev[i].kind && !strcmp(xv[j].path, ev[i].path);
                C6(hit, "creates a path that is no member of the directory");
                C6(strlen(ev[i].path) >= (size_t)dl && !memcmp(ev[i].path, dirs, dl), "creates a path outside the directory");
            }
            if (r == 0) C6(nev == nx, "creates every member and nothing else");
            for (int i = 0; i < cnt; i++) {
                C5(ev[i].kind == xv[i].kind && (i < nev - 1 || r == 0 || ev[i].kind == 1 || failed ? 1 : 1), "kind");
                if (r == 0 && ev[i].kind == 2) C5(ev[i].n == xv[i].n && (!ev[i].n || !memcmp(ev[i].d, xv[i].d, ev[i].n)), "member content");
            }
            if (ok && !failed) C5(r == 0, "good archive reported as failure");
            if (!ok || failed) C5(r != 0, "failure reported as success");
            if (r == 0) C5(nev == nx, "every member is unpacked");
            C5(openf == 0, "file left open");
        }
    }
    free(b);
    return 0;
}
