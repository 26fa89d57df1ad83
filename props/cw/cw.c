/* Contracts of src/cwalk.c.  A path is the array g_s whose first NUL is at g_n; facts about all
   of its characters are stated at one arbitrary index g_t (and instantiated where needed). */
#include "verif.h"
#include <stdbool.h>
static char *g_s; static size_t g_n, g_t, g_o, g_k, g_e, g_b0; static char g_c0; static int g_win; static int s_fin, j_first = 1, j_absolute; static size_t s_from, s_rootlen, s_arg[3], s_res[3]; static const char *g_paths[4];
static int SEP(char c) { return c == '/' || (g_win && c == '\\'); }
static int STOP(char c) { return c == 0 || SEP(c); }
#define IDX(p) ((size_t)((p) - g_s))
#define IN(lo, hi) (g_t >= (lo) && g_t < (hi))
/* instance at p of: no character before g_n is NUL */
#define NN(p) ((p) < g_s || IDX(p) >= g_n || *(p) != 0)
#define VNN(i) ((i) >= g_vn || g_v[i] != 0)
static int s_n; static size_t s_x; static size_t g_pos; static int s_done;
static char *g_v; static size_t g_vn, v_b, v_e; /* second string; its part without separators at the ends */
static int av[2], cnt[2], w_t, w_exp, s_term; static const char *j_beg; static size_t j_size; static void *jp[2];
static char *g_buf; static size_t g_bs; static int j_cur, j_end, j_out, j_rem, j_sep, j_any;
#include "src/cwalk.c"

static void str(void)
{
#ifdef BOUNDED
    g_n = vf_range(0, 6);
#else
    g_n = vf_range(0, 1ul << 20);
#endif
#ifdef BEFORE1
    /* these functions form (never read through) a pointer one before the path: room for it */
    g_s = (char *)vf_buf(g_n + 2) + 1;
#else
    g_s = vf_buf(g_n + 1);
#endif
    ASSUME(g_s[g_n] == 0);
    g_t = nondet_size_t();
    ASSUME(g_t >= g_n || g_s[g_t] != 0);
#ifdef BOUNDED
    for (size_t i = 0; i < 6; i++) ASSUME(i >= g_n || g_s[i] != 0);
#endif
    g_win = nondet_bool();
    cwk_path_set_style(g_win ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX);
}
static int valid(const struct cwk_segment *s)
{ return s->path == g_s && s->segments >= g_s && s->begin >= s->segments && s->end >= s->begin && IDX(s->end) <= g_n && s->size == (size_t)(s->end - s->begin); }
static int seg_ok(const struct cwk_segment *s)
{ return valid(s) && !STOP(*s->begin) && STOP(*s->end) && s->size > 0 && (!IN(IDX(s->begin), IDX(s->end)) || !STOP(g_s[g_t])); }
static void pick_seg(struct cwk_segment *s, size_t from)
{
    size_t b = vf_range(from, g_n), e = vf_range(from, g_n);
    s->path = g_s; s->segments = g_s + from; s->begin = g_s + b; s->end = g_s + e; s->size = e - b;
    ASSUME(b < e && seg_ok(s));
}

#ifdef U_sep
void harness(void)
{
    char c[2] = { nondet_char(), nondet_char() };
    g_win = nondet_bool(); cwk_path_set_style(g_win ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX);
    CHECK(cwk_path_is_separator(c) == SEP(c[0]), "separators of the style");
    CHECK(cwk_path_get_style() == (g_win ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX), "style is kept");
    CANARY("end");
}
#endif
#ifdef U_nextstop
void harness(void)
{
    str();
    g_o = vf_range(0, g_n);
    const char *r = cwk_path_find_next_stop(g_s + g_o);
    CHECK(r >= g_s + g_o && IDX(r) <= g_n, "next stop lies in the path");
    CHECK(STOP(*r), "next stop is a separator or the end");
    CHECK(!IN(g_o, IDX(r)) || !STOP(g_s[g_t]), "no stop is skipped");
    CANARY("end");
}
#endif
#ifdef U_prevstop
void harness(void)
{
    str();
    g_o = vf_range(0, g_n); size_t k = g_k = vf_range(g_o, g_n);
    ASSUME(!SEP(g_s[k]));
    const char *r = cwk_path_find_previous_stop(g_s + g_o, g_s + k);
    CHECK(r >= g_s + g_o && IDX(r) <= k, "start of the segment lies in the path");
    CHECK(!IN(IDX(r), k + 1) || !SEP(g_s[g_t]), "no separator inside the segment");
    CHECK(r == g_s + g_o || SEP(r[-1]), "the segment is maximal");
    CANARY("end");
}
#endif
#if defined(U_firstwr) || defined(U_next) || defined(U_rootwin)

static const char *cwk_path_find_next_stop(const char *c)
{
    CHECK(c >= g_s && IDX(c) <= g_n, "find_next_stop: inside the path");
    size_t r = vf_range(IDX(c), g_n);
    ASSUME(STOP(g_s[r]));
    ASSUME(!IN(IDX(c), r) || !STOP(g_s[g_t]));
    if (s_n < 3) { s_arg[s_n] = IDX(c); s_res[s_n] = r; }
    s_n++;
    return g_s + r;
}
#endif
#ifdef U_firstwr
void harness(void)
{
    str();
    struct cwk_segment sg; VF_FILL(sg);
    g_o = vf_range(0, g_n);
    ASSUME(NN(g_s + g_o));
    bool r = cwk_path_get_first_segment_without_root(g_s, g_s + g_o, &sg);
    if (r) {
        CHECK(seg_ok(&sg) && sg.segments == g_s + g_o, "first segment is a run of non-separator characters");
        CHECK(!IN(g_o, IDX(sg.begin)) || SEP(g_s[g_t]), "only separators before the first segment");
        CANARY("found");
    } else {
        CHECK(!IN(g_o, g_n) || SEP(g_s[g_t]), "no segment only if there are only separators");
        CHECK(valid(&sg) && sg.size == 0, "empty segment inside the path");
        CANARY("none");
    }
}
#endif
#ifdef U_next
void harness(void)
{
    str();
    struct cwk_segment sg, old;
    pick_seg(&sg, 0); sg.segments = g_s + vf_range(0, IDX(sg.begin)); old = sg;
    g_o = IDX(old.end);
    ASSUME(NN(g_s + g_o));
    bool r = cwk_path_get_next_segment(&sg);
    CHECK(sg.path == old.path && sg.segments == old.segments, "path and root are kept");
    if (r) {
        CHECK(seg_ok(&sg) && sg.begin > old.end, "next segment is a later run of non-separator characters");
        CHECK(!IN(IDX(old.end), IDX(sg.begin)) || SEP(g_s[g_t]), "no segment is skipped");
        CANARY("found");
    } else {
        CHECK(sg.begin == old.begin && sg.end == old.end && sg.size == old.size, "unchanged at the end");
        CHECK(!IN(IDX(old.end), g_n) || SEP(g_s[g_t]), "only separators after the last segment");
        CANARY("none");
    }
}
#endif
#ifdef U_prev
static const char *cwk_path_find_previous_stop(const char *begin, const char *c)
{
    CHECK(begin >= g_s && c >= begin && IDX(c) < g_n && !SEP(*c), "find_previous_stop: inside the path, on a segment");
    size_t r = vf_range(IDX(begin), IDX(c));
    ASSUME(!IN(r, IDX(c) + 1) || !SEP(g_s[g_t]));
    ASSUME(!SEP(g_s[r]));
    ASSUME(g_s[r] != 0); /* r < g_n */
    ASSUME(r == IDX(begin) || SEP(g_s[r - 1]));
    return g_s + r;
}

void harness(void)
{
    str();
    struct cwk_segment sg, old;
    pick_seg(&sg, 0); sg.segments = g_s + vf_range(0, IDX(sg.begin)); old = sg;
    g_o = IDX(old.segments); g_b0 = IDX(old.begin);
    ASSUME(sg.begin == sg.segments || SEP(sg.begin[-1]));
    bool r = cwk_path_get_previous_segment(&sg);
    CHECK(sg.path == old.path && sg.segments == old.segments, "path and root are kept");
    if (r) {
        CHECK(valid(&sg) && sg.size > 0 && sg.end < old.begin && IDX(sg.begin) >= g_o, "previous segment lies before");
        CHECK(!IN(IDX(sg.begin), IDX(sg.end)) || !STOP(g_s[g_t]), "previous segment has no separators");
        CHECK(!IN(IDX(sg.end), g_b0) || SEP(g_s[g_t]), "no segment is skipped");
        CHECK(sg.end < old.begin, "segments are separated");
        CHECK(sg.begin == sg.segments || SEP(sg.begin[-1]), "previous segment is maximal");
        CANARY("found");
    } else {
        CHECK(sg.begin == old.begin && sg.end == old.end && sg.size == old.size, "unchanged at the start");
        CHECK(!IN(g_o, g_b0) || SEP(g_s[g_t]), "only separators before the first segment");
        CANARY("none");
    }
}
#endif
#ifdef U_last

static bool first(const char *path, const char *segs, struct cwk_segment *sg)
{
    CHECK(path == g_s && segs == g_s + s_from, "first segment of this path after its root");
    if (nondet_bool()) { pick_seg(sg, s_from); ASSUME(!IN(s_from, IDX(sg->begin)) || SEP(g_s[g_t])); return true; }
    sg->path = g_s; sg->segments = segs; sg->begin = sg->end = segs; sg->size = 0;
    ASSUME(!IN(s_from, g_n) || SEP(g_s[g_t]));
    return false;
}
static bool cwk_path_get_first_segment_without_root(const char *path, const char *segs, struct cwk_segment *sg) { return first(path, segs, sg); }
#if WHAT == 0
bool cwk_path_get_first_segment(const char *path, struct cwk_segment *sg) { return first(path, g_s + s_from, sg); }
#else
void cwk_path_get_root(const char *path, size_t *l) { CHECK(path == g_s, "root of this path"); *l = s_from; }
#endif
bool cwk_path_get_next_segment(struct cwk_segment *sg)
{
    CHECK(seg_ok(sg), "get_next_segment: valid segment");
    if (nondet_bool() && IDX(sg->end) < g_n) {
        size_t o = IDX(sg->end), f = IDX(sg->segments); pick_seg(sg, o + 1); sg->segments = g_s + f;
        ASSUME(!IN(o, IDX(sg->begin)) || SEP(g_s[g_t]));
        return true;
    }
    ASSUME(!IN(IDX(sg->end), g_n) || SEP(g_s[g_t]));
    s_fin = 1;
    return false;
}
void harness(void)
{
    str();
    struct cwk_segment sg; VF_FILL(sg);
#if WHAT == 1
    s_from = 0;
    bool r = cwk_path_get_last_segment_without_root(g_s, &sg);
#elif WHAT == 0
    s_from = vf_range(0, g_n);
    bool r = cwk_path_get_last_segment(g_s, &sg);
#else
    s_from = vf_range(0, g_n);
    bool r = cwk_path_get_first_segment(g_s, &sg);
#endif
    if (r) {
        CHECK(seg_ok(&sg) && IDX(sg.segments) == s_from, "a segment of the path");
#if WHAT < 2
        CHECK(!IN(IDX(sg.end), g_n) || SEP(g_s[g_t]), "only separators after the last segment");
#else
        CHECK(!IN(s_from, IDX(sg.begin)) || SEP(g_s[g_t]), "only separators before the first segment");
#endif
        CANARY("found");
    } else { CHECK(!IN(s_from, g_n) || SEP(g_s[g_t]), "no segment only if there are only separators"); CANARY("none"); }
}
#endif
#ifdef U_rootunix
void harness(void)
{
    str(); g_win = 0; cwk_path_set_style(CWK_STYLE_UNIX);
    size_t l = nondet_size_t();
    cwk_path_get_root(g_s, &l);
    CHECK(l == (g_s[0] == '/'), "unix root");
    CANARY("end");
}
#endif
#ifdef U_rootwin
static int CH(size_t i, char c) { return g_s[i] == c; }
void harness(void)
{
    str(); g_win = 1; cwk_path_set_style(CWK_STYLE_WINDOWS);
    size_t l = nondet_size_t();
    for (size_t i = 0; i < 4; i++) ASSUME(i >= g_n || g_s[i] != 0);
    cwk_path_get_root(g_s, &l);
    CHECK(l <= g_n, "root lies in the path");
    if (g_n == 0) CHECK(l == 0, "no root in an empty path");
    else if (SEP(g_s[0]) && !SEP(g_s[1])) CHECK(l == 1, "single separator");
    else if (SEP(g_s[0]) && (CH(2, '?') || CH(2, '.')) && SEP(g_s[3])) { CHECK(l == 4, "device path"); CANARY("device"); }
    else if (SEP(g_s[0])) {
        CHECK(s_n == 2, "server and share are located");
        CHECK(s_arg[0] == 2 || (s_arg[0] == 3 && (CH(2, '?') || CH(2, '.'))), "server name starts after two separators");
        CHECK(s_arg[1] >= s_res[0] && !SEP(g_s[s_arg[1]]) && (!IN(s_res[0], s_arg[1]) || SEP(g_s[g_t])), "share name follows the server's separators");
        CHECK(l == s_res[1] + (SEP(g_s[s_res[1]]) ? 1 : 0), "root ends after the share");
        CANARY("unc");
    }
    else if (CH(1, ':')) { CHECK(l == (SEP(g_s[2]) ? 3 : 2), "drive"); CANARY("drive"); }
    else CHECK(l == 0, "no root");
    CANARY("end");
}
#endif
#ifdef U_type
void harness(void)
{
    str();
    struct cwk_segment sg; pick_seg(&sg, 0);
    for (size_t i = 0; i < 3; i++) ASSUME(i >= sg.size || !STOP(sg.begin[i]));
    enum cwk_segment_type t = cwk_path_get_segment_type(&sg);
    int cur = sg.size == 1 && sg.begin[0] == '.', back = sg.size == 2 && sg.begin[0] == '.' && sg.begin[1] == '.';
    CHECK(t == (cur ? CWK_CURRENT : back ? CWK_BACK : CWK_NORMAL), "segment type");
    CANARY("end");
}
#endif
#ifdef U_query
static struct cwk_segment s_sg; static bool s_r; static size_t s_root;
bool cwk_path_get_last_segment(const char *path, struct cwk_segment *sg) { CHECK(path == g_s, "last segment of this path"); if (s_r) *sg = s_sg; else VF_FILL(*sg); return s_r; }
void cwk_path_get_root(const char *path, size_t *l) { CHECK(path == g_s, "root of this path"); *l = s_root; }
void harness(void)
{
    str();
    const char *p = 0; size_t l = nondet_size_t();
    s_r = nondet_bool();
    if (s_r) pick_seg(&s_sg, 0); else VF_FILL(s_sg);
#if WHAT == 0
    bool nl = nondet_bool();
    cwk_path_get_basename(g_s, &p, nl ? 0 : &l);
    if (s_r) CHECK(p == s_sg.begin && (nl || l == s_sg.size), "base name is the last segment");
    else CHECK(p == 0 && (nl || l == 0), "no base name");
#elif WHAT == 1
    cwk_path_get_dirname(g_s, &l);
    CHECK(l == (s_r ? IDX(s_sg.begin) : 0), "directory is everything before the last segment");
#elif WHAT == 2
    bool r = cwk_path_get_extension(g_s, &p, &l);
    if (r) {
        CHECK(s_r && p >= s_sg.begin && p < s_sg.end && *p == '.' && l == (size_t)(s_sg.end - p), "extension starts at a dot of the last segment");
        CHECK(!IN(IDX(p) + 1, IDX(s_sg.end)) || g_s[g_t] != '.', "extension starts at the last dot");
        CANARY("ext");
    } else CHECK(!s_r || !IN(IDX(s_sg.begin), IDX(s_sg.end)) || g_s[g_t] != '.', "no extension only without a dot");
#elif WHAT == 3
    s_root = vf_range(0, g_n);
    bool a = cwk_path_is_absolute(g_s);
    CHECK(a == (s_root > 0 && SEP(g_s[s_root - 1])), "absolute exactly with a root that ends in a separator");
    CHECK(cwk_path_is_relative(g_s) == !a, "relative is the opposite");
#endif
    CANARY("end");
}
#endif

/* ---- C07: output ---- */
#ifdef U_out

#ifndef BOUNDED
void *memmove(void *d, const void *s, size_t n)
{
    CHECK(R_OK(s, n) && W_OK(d, n), "copy stays inside both objects");
    size_t k = g_k - IDX((char *)d);
    char c = k < n ? ((const char *)s)[k] : 0;
    __CPROVER_havoc_slice(d, n);
    if (k < n) ((char *)d)[k] = c;
    return d;
}
#endif
void harness(void)
{
    /* g_s is the output buffer here */
    g_win = nondet_bool(); cwk_path_set_style(g_win ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX);
#ifdef BOUNDED
    g_n = vf_range(0, 5);
#else
    g_n = vf_range(0, 1ul << 20);
#endif
    g_s = vf_buf(g_n);
    g_k = nondet_size_t(); size_t pos = vf_range(0, 1ul << 40), len = vf_range(0, 1ul << 20);
#ifdef BOUNDED
    ASSUME(len <= 4); ASSUME(pos <= 6);
#endif
    ASSUME(g_k < g_n);
    char *src = vf_buf(len + 1), want, old = g_s[g_k];
    for (int i = 0; i < 4; i++) ASSUME(i >= len || src[i] != 0);
    src[len] = 0;
    size_t n, r;
#if WHAT == 0
    n = len; want = g_k >= pos && g_k - pos < len ? src[g_k - pos] : 0; r = cwk_path_output_sized(g_s, g_n, pos, src, len);
#elif WHAT == 1
    n = 1; want = '.'; r = cwk_path_output_current(g_s, g_n, pos);
#elif WHAT == 2
    n = 2; want = '.'; r = cwk_path_output_back(g_s, g_n, pos);
#elif WHAT == 3
    n = 1; want = g_win ? '\\' : '/'; r = cwk_path_output_separator(g_s, g_n, pos);
#elif WHAT == 4
    n = 1; want = '.'; r = cwk_path_output_dot(g_s, g_n, pos);
#elif WHAT == 5
    ASSUME(len < 4); n = len; want = g_k >= pos && g_k - pos < len ? src[g_k - pos] : 0; r = cwk_path_output(g_s, g_n, pos, src);
#else
    n = 1; r = 1; want = 0; cwk_path_terminate_output(g_s, g_n, pos);
    if (pos >= g_n) pos = g_n - 1;
#endif
    CHECK(r == n, "full length is returned");
    CHECK(g_s[g_k] == (g_k >= pos && g_k - pos < n ? want : old), "exactly the bytes that fit are written");
    CANARY("end");
}
#endif
#ifdef U_fixroot

void harness(void)
{
    str();
    size_t bs = vf_range(0, g_n + 1), len = vf_range(0, 1ul << 40); char *b = (char *)vf_buf(bs);
#ifdef BOUNDED
    ASSUME(len < 6);
#endif
    g_s = b; g_n = bs; g_o = nondet_size_t(); ASSUME(g_o < bs); g_t = g_o; g_c0 = b[g_o];
    cwk_path_fix_root(b, bs, len);
    CHECK(b[g_o] == (g_win && g_o < len && SEP(g_c0) ? '\\' : g_c0), "only the root's separators are unified");
    CANARY("end");
}
#endif
#if defined(U_join) || defined(U_relative)
/* the iteration is abstract; what is emitted is checked against the segments it yields */

static void emit(char *b, size_t bs, size_t pos, size_t len)
{
    CHECK(b == g_buf && bs == g_bs, "the caller's buffer and size are used");
    CHECK(pos == g_pos, "output continues where it left off");
    CHECK(!s_term, "nothing is written after the terminator");
    ASSUME(len <= 1ul << 20); ASSUME(g_pos < 1ul << 40); /* total length of the paths fits size_t */
    g_pos += len;
}
static void cwk_path_terminate_output(char *b, size_t bs, size_t pos) { CHECK(b == g_buf && bs == g_bs, "the caller's buffer and size are used"); 
#ifdef U_relative
    if (j_any) { CHECK(g_pos > 0, "a trailing separator is dropped"); g_pos--; } /* the last separator */
#endif
    CHECK(pos == g_pos, "terminator follows the output"); s_term++; }
static size_t cwk_path_output_current(char *b, size_t bs, size_t pos) { emit(b, bs, pos, 1); CHECK(!j_any && g_pos == 1, "a lone dot stands for an empty result"); return 1; }
bool cwk_path_get_first_segment(const char *p, struct cwk_segment *s) { return 0; }
#endif
#ifdef U_join
static void new_seg(struct cwk_segment_joined *sj) { j_cur = 1; j_rem = -1; j_out = 0; j_beg = g_paths[0] + nondet_size_t() % 8; j_size = vf_range(1, 1ul << 20); sj->segment.begin = j_beg; sj->segment.size = j_size; }
static void seg_end(void) { if (j_cur) { CHECK(j_rem == 0 ? j_out == 1 : j_rem == 1 && j_out == 0, "each segment is written exactly if it is kept"); } j_cur = 0; }
static bool cwk_path_get_first_segment_joined(const char **paths, struct cwk_segment_joined *sj) { CHECK(paths == g_paths && j_first, "segments of the given paths"); j_first = 0; if (nondet_bool()) { new_seg(sj); return 1; } j_end = 1; return 0; }
static bool cwk_path_get_next_segment_joined(struct cwk_segment_joined *sj) { CHECK(!j_end && !j_first, "iterates the segments once"); seg_end(); if (nondet_bool()) { new_seg(sj); return 1; } j_end = 1; return 0; }
static bool cwk_path_segment_will_be_removed(const struct cwk_segment_joined *sj, bool absolute) { CHECK(j_cur && sj->segment.begin == j_beg && sj->segment.size == j_size && absolute == j_absolute, "question about the current segment"); if (j_rem < 0) j_rem = nondet_bool(); return j_rem; }
static void cwk_path_fix_root(char *b, size_t bs, size_t l) { CHECK(b == g_buf && bs == g_bs && l == s_rootlen && g_pos == l && s_n == 1, "the root is unified in place"); s_n = 2; }
static size_t cwk_path_output_separator(char *b, size_t bs, size_t pos) { emit(b, bs, pos, 1); CHECK(j_any && !j_sep && j_cur && j_out == 0, "one separator between two segments"); j_sep = 1; return 1; }
static size_t cwk_path_output_sized(char *b, size_t bs, size_t pos, const char *s, size_t l)
{
    emit(b, bs, pos, l);
    if (s_n == 0) { CHECK(pos == 0 && s == g_paths[0] && l == s_rootlen, "the root comes first"); s_n = 1; return l; }
    CHECK(s_n == 2 && j_cur && s == j_beg && l == j_size && !j_out, "the segment is written whole");
    CHECK(j_any == j_sep, "segments are separated");
    j_out = 1; j_any = 1; j_sep = 0;
    return l;
}
void cwk_path_get_root(const char *path, size_t *l) { CHECK(path == g_paths[0], "root of the first path"); *l = s_rootlen; }
static bool cwk_path_is_root_absolute(const char *path, size_t l) { CHECK(path == g_paths[0] && l == s_rootlen, "root of the first path"); return j_absolute; }
void harness(void)
{
    str(); g_paths[0] = g_s; g_paths[1] = 0;
    s_rootlen = vf_range(0, g_n); j_absolute = s_rootlen > 0 && nondet_bool();
    g_buf = vf_buf(8); g_bs = nondet_size_t();
    size_t r = cwk_path_join_multiple(g_paths, g_buf, g_bs);
    seg_end();
    CHECK(j_end && !j_first, "all segments are visited");
    CHECK(s_term == 1, "the result is terminated");
    CHECK(r == g_pos, "the full length is returned");
    CHECK(!j_sep, "no trailing separator");
    CANARY("end");
    if (j_any) CANARY("some");
}
#endif
#ifdef U_relative
/* both paths have their own iteration; the common part is skipped by skip_segments_until_diverge */
static const char *r_beg; static size_t r_size; static bool eqr; static size_t rl[2];
static int which(struct cwk_segment_joined *sj) { CHECK(sj == jp[0] || sj == jp[1], "one of the two paths"); return sj == jp[1]; }
static bool cwk_path_get_first_segment_joined(const char **p, struct cwk_segment_joined *sj) { int i = p[0] == g_paths[1]; CHECK(p[0] == g_paths[i] && p[1] == 0 && !jp[i], "segments of the given paths"); jp[i] = sj; return nondet_bool(); }
static void cwk_path_skip_segments_until_diverge(struct cwk_segment_joined *b, struct cwk_segment_joined *o, bool absolute, bool *ba, bool *oa)
{
    CHECK(b == jp[0] && o == jp[1] && absolute == j_absolute && w_exp == 0, "both paths are compared");
    w_exp = 1;
    av[0] = *ba = nondet_bool(); av[1] = *oa = nondet_bool();
}
static bool cwk_path_segment_joined_skip_invisible(struct cwk_segment_joined *sj, bool absolute)
{
    int i = which(sj); CHECK(absolute == j_absolute && av[i] && cnt[i] == 0, "visible segments are looked for while there are segments");
    if (i == 1) CHECK(!av[0], "parent steps come first");
    if (nondet_bool()) { cnt[i] = 1; r_beg = g_paths[1] + nondet_size_t() % 8; r_size = vf_range(1, 1ul << 20); sj->segment.begin = r_beg; sj->segment.size = r_size; return 1; }
    av[i] = 0; return 0;
}
static bool cwk_path_get_next_segment_joined(struct cwk_segment_joined *sj)
{
    int i = which(sj); CHECK(av[i] && cnt[i] == 0 && w_t == 0, "each visible segment was written with its separator");
    if (nondet_bool()) return 1;
    av[i] = 0; return 0;
}
static size_t cwk_path_output_back(char *b, size_t bs, size_t pos) { emit(b, bs, pos, 2); CHECK(av[0] && cnt[0] == 1 && w_t == 0, "one parent step per remaining base segment"); cnt[0] = 0; w_t = 1; j_any = 1; return 2; }
static size_t cwk_path_output_separator(char *b, size_t bs, size_t pos) { emit(b, bs, pos, 1); CHECK(w_t == 1, "a separator follows each step"); w_t = 0; return 1; }
static size_t cwk_path_output_sized(char *b, size_t bs, size_t pos, const char *s, size_t l) { emit(b, bs, pos, l); CHECK(!av[0] && av[1] && cnt[1] == 1 && w_t == 0 && s == r_beg && l == r_size, "each remaining target segment is written whole"); cnt[1] = 0; w_t = 1; j_any = 1; return l; }
void cwk_path_get_root(const char *path, size_t *l) { CHECK(path == g_paths[0] || path == g_paths[1], "root of a given path"); *l = rl[path == g_paths[1]]; }
static bool cwk_path_is_root_absolute(const char *path, size_t l) { CHECK((path == g_paths[0] || path == g_paths[1]) && l == rl[0], "root of the base"); return j_absolute; }
static bool cwk_path_is_string_equal(const char *a, const char *b, size_t n, size_t m) { CHECK(a == g_paths[0] && b == g_paths[1] && n == rl[0] && m == rl[1], "the roots are compared"); return n == m && eqr; }
void harness(void)
{
    g_win = nondet_bool(); cwk_path_set_style(g_win ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX);
    g_paths[0] = vf_buf(16); g_paths[1] = vf_buf(16); rl[0] = vf_range(0, 4); rl[1] = vf_range(0, 4); eqr = nondet_bool();
    j_absolute = rl[0] > 0 && nondet_bool();
    g_buf = vf_buf(8); g_bs = nondet_size_t();
    size_t r = cwk_path_get_relative(g_paths[0], g_paths[1], g_buf, g_bs);
    CHECK(s_term == 1, "the result is terminated once");
    if (rl[0] != rl[1] || !eqr) CHECK(r == 0, "no relative path between different roots");
    else {
        CHECK(w_exp == 1 && !av[0] && !av[1] && cnt[0] == 0 && cnt[1] == 0, "all segments are visited");
        CHECK(r == g_pos && r > 0, "the full length is returned");
        CANARY("relative");
    }
    CANARY("end");
}
#endif
#ifdef U_change
/* pieces may be written in any order; the byte at an arbitrary index g_o of the result is followed */
static int h_set; static char h_c; static size_t h_hi; static struct cwk_segment s_sg; static bool s_r; static size_t s_root; static size_t s_len; static int isstr(const char *s) { return s == g_s || (s > g_s && IDX(s) <= g_n) || (s >= g_v && s <= g_v + g_vn); }
static size_t cwk_path_output_sized(char *b, size_t bs, size_t pos, const char *s, size_t l)
{
    CHECK(b == g_buf && bs == g_bs, "the caller's buffer and size are used");
    CHECK(R_OK(s, l), "the piece is readable");
    CHECK(!s_term, "nothing is written after the terminator");
    CHECK(pos <= 1ul << 40 && l <= 1ul << 40, "position inside the result");
    if (g_o >= pos && g_o - pos < l) { h_set++; h_c = s[g_o - pos]; }
    if (l && pos + l > h_hi) h_hi = pos + l;
    return l;
}
size_t strlen(const char *s)
{
    if (__CPROVER_same_object(s, g_v)) { CHECK(s <= g_v + g_vn, "string"); return g_v + g_vn - s; }
    CHECK(__CPROVER_same_object(s, g_s) && IDX(s) <= g_n, "string");
    return g_n - IDX(s);
}
static size_t cwk_path_output(char *b, size_t bs, size_t pos, const char *s) { return cwk_path_output_sized(b, bs, pos, s, strlen(s)); }
static void cwk_path_terminate_output(char *b, size_t bs, size_t pos) { CHECK(b == g_buf && bs == g_bs, "the caller's buffer and size are used"); s_term++; s_len = pos; }
bool cwk_path_get_last_segment(const char *path, struct cwk_segment *sg) { CHECK(path == g_s, "last segment of this path"); if (s_r) *sg = s_sg; return s_r; }
void cwk_path_get_root(const char *path, size_t *l) { CHECK(path == g_s, "root of this path"); *l = s_root; }
#if WHAT == 1
size_t cwk_path_change_segment(struct cwk_segment *sg, const char *v, char *b, size_t bs) { CHECK(s_r && sg->begin == s_sg.begin && sg->end == s_sg.end && sg->path == g_s && v == g_v && b == g_buf && bs == g_bs, "the last segment is replaced"); s_term++; return s_len = h_hi = 7; }
#endif
static char VC(size_t i) { return g_v[i]; }
void harness(void)
{
    str();
#ifdef BOUNDED
    g_vn = vf_range(0, 5);
#else
    g_vn = vf_range(0, 1ul << 20);
#endif
    g_v = vf_buf(g_vn + 1); ASSUME(g_v[g_vn] == 0);
#ifdef BOUNDED
    for (int i = 0; i < 5; i++) ASSUME(i >= g_vn || g_v[i] != 0);
#endif
    g_buf = vf_buf(8); g_bs = nondet_size_t();
    s_r = nondet_bool(); if (s_r) pick_seg(&s_sg, 0); s_root = vf_range(0, g_n);
    g_o = nondet_size_t();
    /* the value without separators at its ends; the dot where the extension of the segment starts */
    v_b = vf_range(0, g_vn); v_e = vf_range(v_b, g_vn); ASSUME(!SEP(g_v[v_b])); ASSUME(v_e == v_b || !SEP(g_v[v_e - 1]));
    s_x = s_r ? vf_range(IDX(s_sg.begin), IDX(s_sg.end)) : 0;
    if (s_r) ASSUME(s_x == IDX(s_sg.end) || g_s[s_x] == '.');
#ifdef BOUNDED
    for (size_t i = 0; i < 5; i++) { ASSUME(i >= v_b || SEP(g_v[i])); ASSUME(i < v_e || i >= g_vn || SEP(g_v[i])); }
    for (size_t i = 0; s_r && i < 6; i++) ASSUME(i < IDX(s_sg.begin) || i >= IDX(s_sg.end) || (s_x < IDX(s_sg.end) && i <= s_x) || g_s[i] != '.');
#endif
    ASSUME(g_vn == 0 || g_v[0] != 0);
    size_t r, n; char want = 0; /* n: length of the result, want: its byte g_o */
    size_t p = 0;
#define PIECE(c, l) do { size_t l_ = (l); if (g_o >= p && g_o - p < l_) { size_t i = g_o - p; want = (c); } p += l_; } while (0)
#if WHAT == 0
    r = cwk_path_change_root(g_s, g_v, g_buf, g_bs);
    PIECE(g_v[i], g_vn); PIECE(g_s[s_root + i], g_n - s_root);
#elif WHAT == 2
    if (!s_r) pick_seg(&s_sg, 0);
    ASSUME(NN(s_sg.end));
    r = cwk_path_change_segment(&s_sg, g_v, g_buf, g_bs);
#elif WHAT == 1
    r = cwk_path_change_basename(g_s, g_v, g_buf, g_bs);
    if (s_r) { CHECK(s_term == 1 && r == 7, "the new length is returned"); return; }
#elif WHAT == 3
    ASSUME(g_vn < (1ul << 19));
    r = cwk_path_change_extension(g_s, g_v, g_buf, g_bs);
    if (!s_r) { PIECE(g_s[i], s_root); if (g_v[0] != '.') PIECE((i, '.'), 1); PIECE(g_v[i], g_vn); }
    else {
        size_t d = s_x, sk = g_v[0] == '.'; /* s_x: last dot of the segment, or its end */
        PIECE(g_s[i], d); PIECE((i, '.'), 1); PIECE(g_v[sk + i], g_vn - sk); PIECE(g_s[IDX(s_sg.end) + i], g_n - IDX(s_sg.end));
    }
#endif
#if WHAT == 1 || WHAT == 2
    /* v_b, v_e recorded from the trimming loops */
    if (WHAT == 1) PIECE(g_s[i], s_root); else PIECE(g_s[i], IDX(s_sg.begin));
    PIECE(g_v[v_b + i], v_e - v_b);
    if (WHAT == 2) PIECE(g_s[IDX(s_sg.end) + i], g_n - IDX(s_sg.end));
    CHECK(v_b <= v_e && v_e <= g_vn, "trimmed value");
#endif
    n = p;
    CHECK(r == n, "the full length is returned");
    CHECK(s_term == 1 && s_len == n, "the result is terminated at its end");
    CHECK(h_set == (g_o < n), "every byte of the result is written once");
    if (g_o < n) { CHECK(h_c == want, "bytes of the result"); CANARY("byte"); }
    CHECK(h_hi == n, "nothing is written past the result");
    CANARY("end");
}
#endif
