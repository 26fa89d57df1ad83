/* Contracts of src/muntar.c.  -DU_<unit> selects the function whose body is checked; the
   functions it calls are replaced by stubs stating their contracts. */
#include "verif.h"
#ifdef NATIVE
#include <string.h>
#endif
#ifdef ONLY_SAFETY
#define FCHECK(c, m) ((void)0)
#else
#define FCHECK(c, m) CHECK(c, m)
#endif
static unsigned g_i, g_sum; static unsigned char *g_raw;
/* walk ghosts */
static int s_type, s_mk, s_op, s_wr, s_cl, s_fail, s_ref, s_pass, s_end, s_root, s_loaded; static size_t g_k, g_pl, g_sl, g_nl; static const char *g_path;
static unsigned long g_size, g_off, g_max; static const unsigned char *g_buf;
static int s_haspar_p, s_haspar_n; static char g_dir[102]; static size_t g_dl; static unsigned long s_cur; static size_t s_sl, s_nl; static unsigned s_id;
char __CPROVER_uninterpreted_ch(int what, unsigned member, unsigned long k); static const void *s_h_;
static void ITER_END(int pass);
#ifdef NATIVE
int tinf_gzip_uncompress(void *d, unsigned *dl, const void *s, unsigned sl) { return -3; }
#endif
#include "src/muntar.c"
static void ITER_END(int pass) { (void)pass;
    FCHECK(s_mk == (pass == 1 && s_type == MTAR_TDIR), "each directory member is created in the first pass, nothing else");
    FCHECK(s_op == (pass == 2 && s_type == MTAR_TREG) && s_wr == s_op && s_cl == s_op, "each regular member is written and closed in the second pass, nothing else");
    FCHECK(!((s_haspar_p || s_haspar_n) && (pass == 1 ? s_type == MTAR_TDIR : s_type == MTAR_TREG)), "a refused member is an error");
    s_mk = s_op = s_wr = s_cl = 0;
}

#ifdef U_octal
void harness(void)
{
    size_t n = nondet_bool() ? 8 : 12;
    unsigned char *f = vf_buf(n);
    uint64_t r = decodeTarOctal((char *)f, n);
    /* ustar: optional leading blanks, octal digits, ended by NUL, blank or the field's end */
    size_t i = 0; uint64_t v = 0; int dig = 0;
    for (int s = 0; s < 12; s++) if (i < n && f[i] == ' ') i++;
    for (int s = 0; s < 12; s++) if (i < n && f[i] >= '0' && f[i] <= '7') { v = v * 8 + (f[i] - '0'); i++; dig = 1; }
    if (dig && (i == n || f[i] == 0 || f[i] == ' ')) FCHECK(r == v, "value of a well-formed octal field");
    CANARY("end");
}
#endif

#ifdef U_checksum
void harness(void)
{
    unsigned char *p = vf_buf(512);
    g_raw = p; g_i = 0; g_sum = 0;
    unsigned r = checksum((mtar_raw_header_t *)p);
#if defined(NATIVE) || defined(BOUNDED)
    unsigned s = 0;
    for (int i = 0; i < 512; i++) s += i >= 148 && i < 156 ? ' ' : p[i];
    FCHECK(r == s, "sum of all bytes, checksum field as blanks");
#else
    FCHECK(g_i == 512 && r == 8 * ' ' + g_sum, "sum of all bytes, checksum field as blanks");
#endif
    CANARY("end");
}
#endif

#ifdef U_header
VS mtar_header_t h, h0; static unsigned s_sum; static uint64_t s_v[8]; static const char *s_p[8]; static size_t s_l[8]; static int s_n;
static unsigned checksum(const mtar_raw_header_t *rh) { CHECK(R_OK(rh, 512), "checksum input readable"); FCHECK((const void *)rh == (void *)g_raw, "checksum of this header"); return s_sum; }
static uint64_t decodeTarOctal(const char *d, size_t n)
{
    CHECK(n <= 12 && R_OK(d, n), "octal field readable");
    static const short off[8] = { 148, 100, 108, 116, 124, 136, 329, 337 }; static const char len[8] = { 8, 8, 8, 8, 12, 12, 8, 8 };
    for (int i = 0; i < 8; i++) if ((unsigned char *)d == g_raw + off[i]) { FCHECK(n == (size_t)len[i], "whole field decoded"); return s_v[i]; }
    FCHECK(0, "decodes a ustar field");
    return nondet_ullong();
}
static int seq(const char *a, const unsigned char *b, int cap)
{
    for (int i = 0; i <= cap; i++) {
        unsigned char want = i < cap ? b[i] : 0;
        if ((unsigned char)a[i] != want) return 0;
        if (!want) return 1;
    }
    return 1;
}
void harness(void)
{
    unsigned char *p = vf_buf(512);
    g_raw = p; VF_FILL(h); VF_FILL(s_sum); VF_FILL(s_v);
    if (nondet_bool()) { s_v[0] = s_sum; if (nondet_bool()) { p[257] = 'u'; p[258] = 's'; p[259] = 't'; p[260] = 'a'; p[261] = 'r'; p[262] = 0; } }
    if (nondet_bool()) p[148] = 0;
    int r = raw_to_header(&h, (mtar_raw_header_t *)p);
    int magic = p[257] == 'u' && p[258] == 's' && p[259] == 't' && p[260] == 'a' && p[261] == 'r' && p[262] == 0;
    FCHECK((r == MTAR_ESUCCESS) == (p[148] != 0 && (uint32_t)s_v[0] == s_sum && magic), "accepted exactly when checksum and magic are right");
    if (p[148] == 0) FCHECK(r == MTAR_ENULLRECORD, "empty record ends the archive");
    else if ((uint32_t)s_v[0] != s_sum) FCHECK(r == MTAR_EBADCHKSUM, "checksum mismatch is reported");
    else if (!magic) FCHECK(r < 0, "wrong magic is refused");
    if (r == MTAR_ESUCCESS) {
        FCHECK(h.mode == (uint32_t)s_v[1] && h.uid == (uint32_t)s_v[2] && h.gid == (uint32_t)s_v[3] && h.size == s_v[4] && h.mtime == (uint32_t)s_v[5]
               && h.devmajor == (uint32_t)s_v[6] && h.devminor == (uint32_t)s_v[7], "numeric fields");
        FCHECK(h.type == (uint32_t)(int)(signed char)p[156], "type");
        FCHECK(seq(h.name, p, 100), "name"); FCHECK(seq(h.linkname, p + 157, 100), "link name"); FCHECK(seq(h.path, p + 345, 155), "path prefix");
        CHECK(h.name[100] == 0 && h.linkname[100] == 0 && h.path[155] == 0, "names are terminated");
        CANARY("accepted");
    }
    CANARY("end");
}
#endif

#ifdef U_walk1
/* the archive walk on one in-memory archive; header contents are arbitrary */
#if !defined(NATIVE)
/* contract of memcpy, with one tracked byte (arbitrary index g_t) */
static size_t g_t;
void *memcpy(void *d, const void *s, size_t n)
{
    CHECK(R_OK(s, n) && W_OK(d, n), "copy stays inside both objects");
    unsigned char c = g_t < n ? ((const unsigned char *)s)[g_t] : 0;
    __CPROVER_havoc_slice(d, n);
    if (g_t < n) ((unsigned char *)d)[g_t] = c;
    return d;
}
#endif
VS mtar_t tr; static int s_raw;
#if !defined(NATIVE)
static int raw_to_header(mtar_header_t *h, const mtar_raw_header_t *rh)
{
    CHECK(R_OK(rh, 512) && W_OK(h, sizeof *h), "header blocks readable");
    FCHECK(((unsigned char *)rh)[g_k & 511] == g_buf[g_off + (g_k & 511)], "the header block at the member's position is used");
    int r = s_raw;
    if (r == 0) { __CPROVER_havoc_slice(h, sizeof *h); ASSUME(h->name[100] == 0 && h->path[155] == 0 && h->linkname[100] == 0); }
    return r;
}
#endif
#define INV(t) ((t).position <= (t).max && ((t).iterator.offset == UINT64_MAX ? (t).iterator.cursor == UINT64_MAX : \
      (t).max >= 512 && (t).iterator.offset <= (t).max - 512 && ((t).iterator.offset & 511) == 0))
void harness(void)
{
    size_t n = vf_range(0, 1ul << 20);
    unsigned char *b = vf_buf(n);
    g_buf = b; g_k = nondet_size_t();
#if !defined(NATIVE)
    g_t = WHAT == 4 ? g_k : g_k & 511;
#endif
    s_raw = nondet_bool() ? 0 : nondet_bool() ? MTAR_ENULLRECORD : MTAR_EBADCHKSUM;
    int what = WHAT;
    if (what == 0) {
        g_off = 0;
        int r = mtar_load(&tr, "x", b, n);
        CHECK(tr.buffer == b && tr.max == n && INV(tr), "loaded state is valid");
#if !defined(NATIVE)
        FCHECK((r == 0) == (n >= 512 && s_raw == 0), "loads exactly when the first header is good");
#endif
        FCHECK(r != 0 || (tr.iterator.offset == 0 && tr.iterator.cursor == 512), "starts at the first member");
        FCHECK(r == 0 || tr.iterator.offset == UINT64_MAX, "failed load is at the end");
        CANARY("load");
        return;
    }
    VF_FILL(tr);
    tr.buffer = b; tr.max = n; tr.name = "x";
    ASSUME(INV(tr));
    tr.iterator.header.name[100] = tr.iterator.header.path[155] = 0;
    mtar_t o = tr;
    const mtar_header_t *hp = 0;
    if (what == 1) {
        uint64_t sz = tr.iterator.header.size, off = tr.iterator.offset;
        int fits = off != UINT64_MAX && sz <= n - off - 512;
        uint64_t nx = fits ? off + 512 + ((sz + 511) & ~511ul) : 0;
        g_off = nx;
        int ok = fits && n >= 512 && nx <= n - 512;
        int r = mtar_next(&tr);
        CHECK(tr.buffer == b && tr.max == n && INV(tr), "state stays valid");
        FCHECK(r != 0 || tr.iterator.offset > off, "always moves forward");
        FCHECK(r != 0 || (ok && tr.iterator.offset == nx && tr.iterator.cursor == nx + 512), "moves by the size rounded up to whole blocks");
#if !defined(NATIVE)
        FCHECK((r == 0) == (ok && s_raw == 0), "next member found exactly when it is inside the archive");
        FCHECK(!(ok && s_raw) || r == s_raw, "the reason for stopping is reported");
        FCHECK(ok || r != MTAR_ENULLRECORD || off == UINT64_MAX, "a cut archive is no regular end");
#endif
        FCHECK(r == 0 || tr.iterator.offset == UINT64_MAX, "failure ends the walk");
        CANARY("next");
    } else if (what == 2) {
        g_off = 0;
        int r = mtar_rewind(&tr);
        CHECK(tr.buffer == b && tr.max == n && INV(tr), "state stays valid");
#if !defined(NATIVE)
        FCHECK((r == 0) == (n >= 512 && s_raw == 0), "rewinds exactly when the first header is good");
#endif
        FCHECK(r != 0 || (tr.iterator.offset == 0 && tr.iterator.cursor == 512 && tr.position == 512), "back at the first member");
        CANARY("rewind");
    } else if (what == 3) {
        FCHECK(mtar_eof(&tr) == (tr.iterator.offset == UINT64_MAX), "end of archive");
        int r = mtar_header(&tr, &hp);
        FCHECK(r == 0 ? hp == &tr.iterator.header && tr.iterator.offset != UINT64_MAX : hp == 0 && tr.iterator.offset == UINT64_MAX, "header of the current member");
        CANARY("header");
    } else if (what == 4) {
        /* entry_read keeps cursor and position together, as load/next/rewind leave them */
        ASSUME(tr.iterator.offset == UINT64_MAX || (tr.iterator.cursor >= tr.iterator.offset + 512 && tr.iterator.cursor <= n && tr.position == tr.iterator.cursor));
        ASSUME(tr.iterator.header.size <= 1ul << 40);
        int want = nondet_int();
        size_t cap = want < 0 ? 0 : want;
        ASSUME(cap <= 1 << 20);
        unsigned char *d = vf_buf(cap);
        int r = mtar_entry_read(&tr, d, want);
        uint64_t end = o.iterator.offset + 512 + o.iterator.header.size;
        if (o.iterator.offset == UINT64_MAX || want < 0 || o.iterator.cursor >= end) FCHECK(r < 0, "nothing to read is an error");
        else {
            uint64_t m = end - o.iterator.cursor; if (m > (uint64_t)want) m = want;
            if (m <= n - o.iterator.cursor) {
                FCHECK(r == (int)m, "reads what is left of the member, at most what was asked");
                size_t k = g_k;
                if (k < m) FCHECK(d[k] == b[o.iterator.cursor + k], "the member's bytes");
                FCHECK(tr.iterator.cursor == o.iterator.cursor + m, "cursor advances");
                CANARY("entry");
            } else FCHECK(r < 0, "data that is cut short is an error");
        }
        CHECK(INV(tr), "state stays valid");
    } else {
        uint64_t end = o.iterator.offset + 512 + o.iterator.header.size;
        ASSUME(o.iterator.offset != UINT64_MAX && o.iterator.header.size <= 1ul << 40);
        FCHECK(mtar_entry_eof(&tr) == (o.iterator.cursor >= end), "end of member data");
        CANARY("entry_eof");
    }
}
#endif

#ifdef U_parent
void harness(void)
{
    static char s[157];
    vf_bytes(s, 156); s[156] = 0;
#ifdef NATIVE
    for (int i = 0; i < 156; i++) if (s[i] & 0x40) s[i] = "./.a\\\0../"[s[i] & 7];
#endif
    int r = has_parent_segment(s);
    int slash = 0, any = 0, end = 0;
#define SEP(c) ((c) == '/' || (c) == 0)
#define ANY(c) (SEP(c) || (c) == '\\')
    for (int i = 0; i < 155; i++) {
        if (s[i] == 0) end = 1;
        if (!end && s[i] == '.' && s[i + 1] == '.') {
            slash |= (i == 0 || SEP(s[i - 1])) && SEP(s[i + 2]);
            any |= (i == 0 || ANY(s[i - 1])) && ANY(s[i + 2]);
        }
    }
    FCHECK(!slash || r, "a parent-directory segment is found");
    FCHECK(!r || any, "found only when there is one");
    CANARY("end");
}
#endif

#ifdef U_unpack
/* byte k of the directory name, the member's prefix, the member's name (NUL at the end) */
char __CPROVER_uninterpreted_ch(int what, unsigned member, unsigned long k);
#define CH(w, k) ((k) < (w == 0 ? g_dl : w == 1 ? s_sl : s_nl) ? __CPROVER_uninterpreted_ch(w, (w) ? s_id : 0, k) : 0)
/* one whole unpacking: members, names, sizes and failures are arbitrary */
static FILE *s_fp; static char s_file;
#define s_h ((const mtar_header_t *)s_h_)
static void member(mtar_t *t)
{
    __CPROVER_havoc_slice(&t->iterator.header, sizeof(mtar_header_t));
    t->iterator.header.name[100] = 0; t->iterator.header.path[155] = 0;
    s_h_ = &t->iterator.header;
    s_type = t->iterator.header.type;
    s_haspar_p = nondet_bool(); s_haspar_n = nondet_bool();
    t->iterator.offset = nondet_ullong();
    ASSUME(t->iterator.offset <= g_max - 512 && (t->iterator.offset & 511) == 0);
    t->iterator.cursor = t->iterator.offset + 512;
    s_cur = t->position = t->iterator.cursor;
    mtar_header_t *h = &t->iterator.header;
    g_size = h->size; s_id = nondet_uint();
    s_sl = vf_range(0, 155); s_nl = vf_range(0, 100);
    ASSUME(h->path[s_sl] == 0 && (h->path[0] == 0) == (s_sl == 0) && h->name[s_nl] == 0 && (h->name[0] == 0) == (s_nl == 0));
}
size_t strlen(const char *s)
{
    if (s == g_dir) return g_dl;
    CHECK(s == s_h->path || s == s_h->name, "length of a terminated string");
    return s == s_h->path ? s_sl : s_nl;
}
/* contract: copies the string; every byte of the target object other than the tracked one becomes arbitrary */
char *strcpy(char *d, const char *s)
{
    size_t n = strlen(s), o = __CPROVER_POINTER_OFFSET(d), z = __CPROVER_OBJECT_SIZE(d);
    CHECK(W_OK(d, n + 1), "copy fits the buffer");
    char *b = d - o, old = g_k < z ? b[g_k] : 0;
    if (g_k >= o && g_k <= o + n) old = s == g_dir ? CH(0, g_k - o) : s == s_h->path ? CH(1, g_k - o) : CH(2, g_k - o);
    __CPROVER_havoc_object(b);
    if (g_k < z) b[g_k] = old;
    return d;
}
static void finish(mtar_t *t) { t->iterator.offset = UINT64_MAX; t->iterator.cursor = UINT64_MAX; }
int mtar_load(mtar_t *t, const char *name, const uint8_t *buf, size_t size)
{
    CHECK(!s_loaded && buf == g_buf && size == g_max, "whole archive is walked");
    s_loaded = 1;
    t->buffer = buf; t->max = size; t->name = name;
    if (g_max >= 512 && nondet_bool()) { member(t); s_pass = 1; s_end = 0; return 0; }
    finish(t); s_end = -1;
    s_fail = 1;
    return nondet_bool() ? -1 : MTAR_ENULLRECORD;
}
int mtar_next(mtar_t *t)
{
    CHECK(t->iterator.offset != UINT64_MAX, "advances from a member");
    uint64_t o = t->iterator.offset;
    ITER_END(s_pass);
    if (nondet_bool()) { member(t); ASSUME(t->iterator.offset > o); return 0; }
    finish(t);
    int r = nondet_int(); ASSUME(r < 0);
    s_end = r;
    if (r != MTAR_ENULLRECORD) s_fail = 1;
    return r;
}
static int mtar_rewind(mtar_t *t)
{
    CHECK(s_pass == 1, "second pass follows the first"); FCHECK(s_end == MTAR_ENULLRECORD, "second pass only after a clean first one");
    s_pass = 2; s_end = 0;
    if (g_max >= 512 && nondet_bool()) { member(t); return 0; }
    finish(t); s_fail = 1; return -1;
}
static int has_parent_segment(const char *n)
{
    CHECK(n == s_h->path || n == s_h->name, "member name examined");
    return n == s_h->path ? s_haspar_p : s_haspar_n;
}
/* the full path for the current member: dir / [prefix /] name */
static char exp_at(size_t k, size_t sl, size_t nl)
{
    if (k < g_dl) return CH(0, k);
    if (k == g_dl) return '/';
    k -= g_dl + 1;
    if (sl) { if (k < sl) return CH(1, k); if (k == sl) return '/'; k -= sl + 1; }
    return k < nl ? CH(2, k) : 0;
}
static void check_path(const char *p)
{
    FCHECK(!(s_haspar_p || s_haspar_n), "nothing is created for a refused member");
    size_t sl = s_sl, nl = s_nl;
    size_t tot = g_dl + 1 + (sl ? sl + 1 : 0) + nl;
    CHECK(R_OK(p, tot + 1), "path is a string in its buffer");
    if (g_k <= tot) FCHECK(p[g_k] == exp_at(g_k, sl, nl), "only the directory, a separator and the member name");
}
int mkdir(const char *p, mode_t m)
{
    if (s_root == 0) { s_root = 1; FCHECK(g_k > g_dl || p[g_k] == CH(0, g_k), "the target directory itself"); }
    else {
        FCHECK(s_type == MTAR_TDIR && s_pass == 1, "directories only for directory members");
        s_mk++; check_path(p);
    }
   
    if (nondet_bool()) return 0;
    errno = nondet_int();
    if (errno != EEXIST) s_fail = 1;
    return -1;
}
FILE *fopen(const char *p, const char *m)
{
    FCHECK(s_type == MTAR_TREG && s_pass == 2, "files only for regular members");
    FCHECK(m[0] == 'w' && !s_op, "opened once, for writing");
    s_op++; check_path(p);
    if (nondet_bool()) { s_fail = 1; return 0; }
    return s_fp = (FILE *)&s_file;
}
size_t fwrite(const void *d, size_t sz, size_t n, FILE *f)
{
    CHECK(f == s_fp, "file is open"); 
    CHECK(R_OK(d, n * sz), "written data lies inside the archive");
    FCHECK(d == g_buf + s_cur && n * sz == s_h->size, "exactly the member's bytes");
    s_wr++;
    if (nondet_bool()) return n;
    size_t r = nondet_size_t(); ASSUME(r < n || n == 0); if (n == 0) return 0;
    s_fail = 1; return r;
}
int fclose(FILE *f) { CHECK(f == s_fp, "file is open"); s_fp = 0; s_cl++; if (nondet_bool()) return 0; s_fail = 1; return EOF; }
int fprintf(FILE *f, const char *fmt, ...) { return 0; }
void perror(const char *s) {}
void harness(void)
{
    g_max = vf_range(0, 1ul << 20);
    g_buf = vf_buf(g_max); g_k = nondet_size_t();
    vf_bytes(g_dir, 101); g_dir[101] = 0;
    g_dl = vf_range(0, 101);
    ASSUME(g_dir[g_dl] == 0 && (g_k >= g_dl || g_dir[g_k] != 0));
    int r = muntar_to_path(g_dir, g_buf, g_max);
    int cut = s_cur <= g_max && g_size > g_max - s_cur;
    FCHECK(r == 0 || s_fail || s_haspar_p || s_haspar_n || g_dl > 100 || cut, "fails only for a reason");
    FCHECK(r != 0 || (!s_fail && s_pass == 2 && s_end == MTAR_ENULLRECORD), "success only when everything was unpacked");
    FCHECK(!s_fp, "no file is left open");
    if (r == 0) CANARY("unpacked"); else CANARY("failed");
}
#endif

#ifdef U_targz
static int s_un, s_gz; static unsigned s_len, s_dl; static const void *s_src; static unsigned char *s_dst; static int s_gr, s_ur, s_exit;
int tinf_gzip_uncompress(void *d, unsigned *dl, const void *s, unsigned sl)
{
    CHECK(W_OK(d, *dl), "output buffer has the size that is declared"); FCHECK(s == s_src && sl == s_len, "the whole archive is decompressed");
    s_gz++; s_dst = d; s_gr = nondet_bool() ? 0 : nondet_bool() ? TINF_DATA_ERROR : TINF_BUF_ERROR;
    if (s_gr == 0) { unsigned k = nondet_uint(); ASSUME(k <= *dl); *dl = k; s_dl = k; }
    return s_gr;
}
int muntar_to_path(const char *p, const uint8_t *b, const unsigned n)
{
    FCHECK(s_gz == 1 && s_gr == 0 && b == s_dst && n == s_dl, "unpacks exactly what was decompressed");
    CHECK(R_OK(b, n), "decompressed data is live");
    s_un++; s_ur = nondet_int(); return s_ur;
}
void exit(int c) { FCHECK((c & 255) != 0 && s_gr != 0, "leaves only with a failure"); ASSUME(0); }
int fprintf(FILE *f, const char *fmt, ...) { return 0; }
void harness(void)
{
    unsigned n = nondet_uint();
    s_len = n;
    unsigned char *b = nondet_bool() ? vf_buf(n) : 0;
    s_src = b;
    int r = muntargz_to_path("x", b, n);
    FCHECK(r != 0 || (s_gz == 1 && s_gr == 0 && s_un == 1 && s_ur == 0), "success only when decompressed and unpacked");
    FCHECK(!(s_un == 1 && s_ur == 0) || r == 0, "unpacking result is passed on");
    CANARY("end");
}
#endif
