/* Search for a failing input: the real src/cwalk.c against an independent path reference.
   PROP 7: outputs for every buffer size; PROP 8: decomposition queries. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ctype.h>
#include "src/cwalk.c"
static void die(const char *m) { fprintf(stderr, "REFUTED: %s\n", m); abort(); }
static int win;
static int sep(char c) { return c == '/' || (win && c == '\\'); }
struct sg { const char *b; size_t n; };
static size_t rootlen(const char *s)
{
    if (!win) return s[0] == '/';
    if (!s[0]) return 0;
    if (sep(s[0])) {
        if (!sep(s[1])) return 1;
        size_t i = 2;
        if (s[2] == '?' || s[2] == '.') { if (sep(s[3])) return 4; }
        while (s[i] && !sep(s[i])) i++;
        while (sep(s[i])) i++;
        while (s[i] && !sep(s[i])) i++;
        return i + sep(s[i]);
    }
    if (s[1] == ':') return sep(s[2]) ? 3 : 2;
    return 0;
}
static int split(const char *s, size_t from, struct sg *o)
{
    int n = 0; size_t i = from;
    for (;;) { while (sep(s[i])) i++; if (!s[i]) return n; size_t b = i; while (s[i] && !sep(s[i])) i++; o[n].b = s + b; o[n++].n = i - b; }
}
static int dot(struct sg s) { return s.n == 1 && s.b[0] == '.'; }
static int dots(struct sg s) { return s.n == 2 && s.b[0] == '.' && s.b[1] == '.'; }
static int norm(struct sg *s, int n, int abs)
{
    int k = 0;
    for (int i = 0; i < n; i++) {
        if (dot(s[i])) continue;
        if (dots(s[i])) { if (k && !dots(s[k - 1])) { k--; continue; } if (abs) continue; }
        s[k++] = s[i];
    }
    return k;
}
static char *dup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
static const char *A, *B, *C; static int fn;
static size_t call(char *buf, size_t bs)
{
    const char *ps[4] = { A, B, C, 0 };
    switch (fn) {
    case 0: return cwk_path_normalize(A, buf, bs);
    case 1: return cwk_path_join(A, B, buf, bs);
    case 2: return cwk_path_join_multiple(ps, buf, bs);
    case 3: return cwk_path_get_absolute(A, B, buf, bs);
    case 4: return cwk_path_get_relative(A, B, buf, bs);
    case 5: return cwk_path_change_root(A, B, buf, bs);
    case 6: return cwk_path_change_basename(A, B, buf, bs);
    case 7: return cwk_path_change_extension(A, B, buf, bs);
    default: { struct cwk_segment s; if (!cwk_path_get_first_segment(A, &s)) return 0; cwk_path_get_next_segment(&s); return cwk_path_change_segment(&s, B, buf, bs); }
    }
}
static char exp_[8192]; static size_t en;
static void put(const char *s, size_t n) { memcpy(exp_ + en, s, n); en += n; exp_[en] = 0; }
static int expect(void)
{
    struct sg s[600], t[600]; int n; size_t r = rootlen(A), i;
    const char *SP = win ? "\\" : "/";
    en = 0; exp_[0] = 0;
    if (fn <= 2) {
        if (win && fn && (rootlen(B) > 1 || (fn == 2 && rootlen(C) > 1))) return 0; /* drive letters in the middle: no reference */
        n = split(A, r, s);
        if (fn >= 1) n += split(B, n ? 0 : rootlen(B), s + n);
        if (fn == 2) n += split(C, n ? 0 : rootlen(C), s + n);
        int all = n, abs = r && sep(A[r - 1]);
        n = norm(s, n, abs);
        for (i = 0; i < r; i++) put(sep(A[i]) ? SP : A + i, 1);
        for (int k = 0; k < n; k++) { if (k) put(SP, 1); put(s[k].b, s[k].n); }
        if (!n && !r && all) put(".", 1);
        return 1;
    }
    if (fn == 3) {
        if (win) return 0;
        n = 0;
        if (B[0] != '/') n = split(A, 0, s);
        n += split(B, 0, s + n); n = norm(s, n, 1);
        put("/", 1);
        for (int k = 0; k < n; k++) { if (k) put("/", 1); put(s[k].b, s[k].n); }
        return 1;
    }
    if (fn == 4) {
        if (win) return 0;
        if (rootlen(A) != rootlen(B)) return 1;
        int m, k = 0; n = norm(s, split(A, r, s), (int)r); m = norm(t, split(B, r, t), (int)r);
        while (k < n && k < m && s[k].n == t[k].n && !memcmp(s[k].b, t[k].b, s[k].n)) k++;
        int any = 0;
        for (int j = k; j < n; j++) { if (any++) put("/", 1); put("..", 2); }
        for (int j = k; j < m; j++) { if (any++) put("/", 1); put(t[j].b, t[j].n); }
        if (!any) put(".", 1);
        return 1;
    }
    n = split(A, r, s);
    if (fn == 5) { put(B, strlen(B)); put(A + r, strlen(A + r)); return 1; }
    if (fn == 7) {
        if (!n) { put(A, r); if (B[0] != '.') put(".", 1); put(B, strlen(B)); return 1; }
        struct sg l = s[n - 1]; size_t d = l.n;
        for (i = 0; i < l.n; i++) if (l.b[i] == '.') d = i;
        put(A, l.b + d - A); put(".", 1); put(B + (B[0] == '.'), strlen(B + (B[0] == '.'))); put(l.b + l.n, strlen(l.b + l.n)); return 1;
    }
    const char *v = B; while (sep(*v)) v++;
    size_t vn = strlen(v); while (vn && sep(v[vn - 1])) vn--;
    if (fn == 6 && !n) { put(A, r); put(v, vn); return 1; }
    if (!n) return 0;
    struct sg l = fn == 6 ? s[n - 1] : s[n > 1 ? 1 : 0];
    put(A, l.b - A); put(v, vn); put(l.b + l.n, strlen(l.b + l.n));
    return 1;
}
static void outputs(void)
{
    for (fn = 0; fn < 9; fn++) {
        if (!expect()) {
            char *q = malloc(8192); struct sg x[600];
            if (fn == 8 && !split(A, rootlen(A), x)) { free(q); continue; }
            en = call(q, 8192); if (strlen(q) != en) die("returned length is the length of the result"); memcpy(exp_, q, en + 1); free(q);
        }
        for (size_t bs = 0; bs <= en + 2; bs++) {
            char *q = malloc(bs); memset(q, 'x', bs);
            size_t r = call(q, bs);
            if (r != en) die("full length of the result is returned");
            if (bs) { size_t k = en < bs - 1 ? en : bs - 1; if (q[k]) die("output is terminated"); if (memcmp(q, exp_, k)) die("output is a prefix of the full result"); }
            free(q);
        }
    }
}
static void queries(const char *p)
{
    struct sg s[600]; size_t r = rootlen(p), l = 77; int n = split(p, r, s), i; struct cwk_segment g; const char *b;
    cwk_path_get_root(p, &l); if (l != r) die("root length");
    if (cwk_path_is_absolute(p) != (r && sep(p[r - 1])) || cwk_path_is_relative(p) == cwk_path_is_absolute(p)) die("absolute/relative");
    i = 0;
    if (cwk_path_get_first_segment(p, &g)) do {
        if (i >= n || g.begin != s[i].b || g.size != s[i].n || g.end != g.begin + g.size || g.path != p) die("segments in order");
        enum cwk_segment_type t = cwk_path_get_segment_type(&g);
        if (t != (dot(s[i]) ? CWK_CURRENT : dots(s[i]) ? CWK_BACK : CWK_NORMAL)) die("segment type");
        i++;
    } while (cwk_path_get_next_segment(&g));
    if (i != n) die("all segments are visited");
    i = n;
    if (cwk_path_get_last_segment(p, &g)) do { i--; if (i < 0 || g.begin != s[i].b || g.size != s[i].n || g.end != g.begin + g.size) die("segments in reverse order"); } while (cwk_path_get_previous_segment(&g));
    if (i != 0) die("all segments are visited backwards");
    b = (void *)1; cwk_path_get_basename(p, &b, &l);
    if (n ? b != s[n - 1].b || l != s[n - 1].n : b != 0 || l != 0) die("base name");
    cwk_path_get_basename(p, &b, 0);
    cwk_path_get_dirname(p, &l); if (l != (n ? s[n - 1].b - p : 0)) die("directory name");
    size_t d = 0; int has = 0;
    if (n) for (size_t k = 0; k < s[n - 1].n; k++) if (s[n - 1].b[k] == '.') { d = k; has = 1; }
    if (cwk_path_get_extension(p, &b, &l) != has || cwk_path_has_extension(p) != has) die("extension found");
    if (has && (b != s[n - 1].b + d || l != s[n - 1].n - d)) die("extension");
    cwk_path_guess_style(p);
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    static const char al[] = "/\\.aB:?c/.";
    if (n < 4 || n > 400) return 0;
    win = d[0] & 1; cwk_path_set_style(win ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX);
    if (cwk_path_get_style() != (win ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX)) die("style");
    char t[3][404]; int w = 0, k = 0;
    for (size_t i = 1; i < n; i++) {
        char c = d[0] & 2 ? al[d[i] % 10] : (char)d[i];
        if (d[i] == 255 || c == 0) { t[w][k] = 0; if (w == 2) break; w++; k = 0; continue; }
        t[w][k++] = c;
    }
    t[w][k] = 0; while (w < 2) t[++w][0] = 0;
    char *a = dup(t[0]), *b = dup(t[1]), *c = dup(t[2]);
    A = a; B = b; C = c;
    if (PROP == 7) outputs(); else { queries(a); queries(b); queries(c); cwk_path_get_intersection(a, b); }
    free(a); free(b); free(c);
    return 0;
}
