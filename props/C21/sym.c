/* Contracts of the symbol table of lib/tinycc/tccelf.c.
   Representation: entry 0 is empty; the hash section holds nb, n, nb heads, n links.
   For every bucket b: head(b) is the last, and for every entry i of the table link(i) is the
   last before i, of the global entries whose name falls into that bucket (0: none).
   That characterisation is stated at arbitrary tracked entries (g_k, g_i) and buckets. */
#include "verif.h"
#define USING_GLOBALS
#include "tcc.h"
#ifdef BOUNDED
#define NMAX 5
#else
#define NMAX (1 << 22)
#endif
typedef ElfW(Sym) SYM;
VS int g_id;            /* identity of the name looked up */
VS const char *g_name;
VS Section g_s, g_hs, g_str, g_bss; VS TCCState g_st;
VS int g_n, g_nb, g_h, g_k, g_i, g_b, g_kx, g_errs, g_w; 
/* TRUSTED: two strings are equal iff their identities are; identity of the string at an offset of the string table */
int __CPROVER_uninterpreted_nameid(unsigned off);
unsigned __CPROVER_uninterpreted_hashat(unsigned off);
VS unsigned g_hash; /* hash of the name looked up */
#define NAMEID(off) __CPROVER_uninterpreted_nameid((unsigned)(off))
#define HASHAT(off) __CPROVER_uninterpreted_hashat((unsigned)(off))
/* equal names hash alike, at one offset */
#define SAMEHASH(off) IMPLIES(NAMEID(off) == g_id, HASHAT(off) == g_hash)
#define SYMS(i) (((SYM *)g_s.data)[i])
#define IDOF(i) NAMEID(SYMS(i).st_name)
#define HASHOF(i) HASHAT(SYMS(i).st_name)
#define GLOB(i) (ELFW(ST_BIND)(SYMS(i).st_info) != STB_LOCAL)
#define BUCKET(h, nb) ((int)((h) % (unsigned)(nb)))
#ifndef NB
#define NB 1
#endif
/* bucket of an entry: hash of its name modulo the number of buckets */
#define BK(i, nb) BUCKET(HASHOF(i), nb)
#define HASHW ((int *)g_hs.data)
#define HEAD(b) HASHW[2 + (b)]
#define LINK(i) HASHW[2 + NB + (i)]
int _tcc_error_noabort(const char *fmt, ...);
void _tcc_error(const char *fmt, ...) { ASSUME(0); }
void _tcc_warning(const char *fmt, ...) { }
#if defined(U_find) || defined(U_addr)
static int vf_strcmp(const char *a, const char *b)
{
    CHECK(a == g_name || b == g_name, "the name looked up is compared");
    const char *o = a == g_name ? b : a;
    CHECK(__CPROVER_same_object(o, g_str.data), "with a name of the string table");
    return g_id == NAMEID(__CPROVER_POINTER_OFFSET(o)) ? 0 : 1;
}
#define strcmp vf_strcmp
#endif
#ifdef U_rebuild
static void *vf_memset(void *d, int c, size_t n);
#define memset vf_memset
#endif
#ifdef U_hash
unsigned __CPROVER_uninterpreted_hseq(size_t j);
#define HSEQ(j) __CPROVER_uninterpreted_hseq(j)
VS const unsigned char *g_q; VS size_t g_len;
/* the hash function of the ELF gABI: shift in a byte, fold the top four bits back to bits 4..7 */
static unsigned hstep(unsigned h, unsigned char c) { unsigned x = (h << 4) + c, t = x >> 28; return (x & 0x0fffffff) ^ (t << 4); }
#define HSPEC(j) (HSEQ((size_t)(j) + 1) == hstep(HSEQ(j), g_q[j]))
#endif
#ifdef U_relsyms
/* bounded: at most RELN-1 symbols, three sections */
unsigned long __CPROVER_uninterpreted_dlsym(int id);
_Bool __CPROVER_uninterpreted_indyn(int id);
_Bool __CPROVER_uninterpreted_fphw(int id);
VS int g_resolve;
#define RELN 4
#endif
#ifdef U_common
VS int g_at, g_lnk; VS SYM g_old; VS unsigned long g_end, g_off; 
#endif
/* entry i is the last global entry of bucket b among 1..lim-1 as far as the tracked entry can tell */
#define LAST(i, lim, b, k, nb) ((i) >= 0 && (i) < (lim) && IMPLIES((i) > 0, GLOB(i) && BK(i, nb) == (b)) && IMPLIES((k) < (lim) && GLOB(k) && BK(k, nb) == (b), (i) >= (k)))

#define CHAIN(i) ((i) <= 0 || (i) >= g_n || (SYMS(i).st_name < g_str.data_offset && IMPLIES(GLOB(i), LAST(LINK(i), i, BK(i, NB), g_k, NB))))
#define IDX(i) ((i) <= 0 || (i) >= g_n || (SYMS(i).st_name < g_str.data_offset))
#ifdef U_relsyms
static int vf_strcmp2(const char *a, const char *b) { return !__CPROVER_uninterpreted_fphw(NAMEID(__CPROVER_POINTER_OFFSET(a))); }
#define strcmp vf_strcmp2
#endif
void tcc_enter_state(TCCState *s) { }
#define TBUF(T, n) ({ T *tb__ = (malloc)(sizeof(T) * (n)); ASSUME(tb__ != 0); (void *)tb__; })
#undef malloc
#undef free
#undef realloc
#include "lib/tinycc/tccelf.c"
#undef malloc
#ifdef RM_elf_hash
static ElfW(Word) elf_hash(const unsigned char *p)
{
    if (p == (const unsigned char *)g_name) return g_hash;
    CHECK(__CPROVER_same_object(p, g_str.data), "hash of a name of the string table");
    return HASHAT(__CPROVER_POINTER_OFFSET(p));
}
#endif
static void mktab(void)
{
    g_n = vf_range(1, NMAX); g_nb = NB;
    g_s.data = TBUF(SYM, g_n); g_s.data_offset = g_s.data_allocated = (size_t)g_n * sizeof(SYM);
    g_s.hash = &g_hs; g_s.link = &g_str; g_s.s1 = &g_st; g_s.sh_flags = nondet_int();
    g_hs.data = TBUF(int, 2 + NB + g_n); g_hs.data_offset = g_hs.data_allocated = (size_t)(2 + NB + g_n) * sizeof(int);
    g_hs.nb_hashed_syms = vf_range(0, NMAX);
    size_t sl = vf_range(1, 1 << 28); g_str.data = vf_buf(sl); g_str.data_offset = g_str.data_allocated = sl;
    HASHW[0] = g_nb; HASHW[1] = g_n;
    g_id = nondet_int(); g_hash = nondet_uint(); g_name = vf_buf(1);
    g_k = vf_range(1, NMAX); g_i = vf_range(1, NMAX); g_b = vf_range(0, NB - 1); g_bss.sh_num = nondet_int();
}

#if defined(U_find)
int _tcc_error_noabort(const char *fmt, ...) { CHECK(0, "a lookup is silent"); return -1; }
/* contract instance at the current entry */
void harness(void)
{
    mktab(); ASSUME(g_k < g_n);
    int none = nondet_bool(); if (none) g_s.hash = 0;
    int kx = GLOB(g_k) && IDOF(g_k) == g_id; /* the tracked entry has the name */
    g_h = BUCKET(g_hash, NB); ASSUME(SAMEHASH(SYMS(g_k).st_name));
    ASSUME(LAST(HEAD(g_h), g_n, g_h, g_k, NB));
#ifdef BOUNDED
    for (int i = 1; i < NMAX; i++) ASSUME(CHAIN(i));
#endif
    int r = find_elf_sym(&g_s, g_name);
    if (none) { CHECK(r == 0, "a table without index finds nothing"); CANARY("no index"); return; }
    CHECK(r >= 0 && r < g_n, "an entry of the table or none");
    if (r) { CHECK(IDOF(r) == g_id && GLOB(r), "the entry found has the name and is not local"); CANARY("found"); }
    CHECK(IMPLIES(kx, r >= g_k), "an entry with the name is found, the latest one");
    CANARY("end");
}
#elif defined(U_hash)
int _tcc_error_noabort(const char *fmt, ...) { return -1; }
void harness(void)
{
    g_len = vf_range(0, 1 << 28);
    unsigned char *p = vf_buf(g_len + 1); p[g_len] = 0; g_q = p;
    ASSUME(HSEQ(0) == 0);
#ifdef BOUNDED
    ASSUME(g_len <= 6); for (int i = 0; i < 6; i++) ASSUME(i >= g_len || (p[i] && HSPEC(i)));
#endif
    unsigned h = elf_hash(p);
    CHECK(h == HSEQ(g_len), "the hash the ELF ABI defines");
    CANARY("end");
}
#elif defined(U_put)
int _tcc_error_noabort(const char *fmt, ...) { CHECK(0, "adding a symbol is silent"); return -1; }
VS int g_strs, g_rebuilds, g_rnb, g_stradd;
void *section_ptr_add(Section *s, addr_t size)
{
    size_t o = s->data_offset;
    CHECK(s == &g_s ? size == sizeof(SYM) : s == &g_hs && size == sizeof(int), "one entry, one link");
    unsigned char *q;
    if (s == &g_s) {
        q = TBUF(SYM, g_n + 1);
        if (g_k < g_n) ((SYM *)q)[g_k] = SYMS(g_k);
        ((SYM *)q)[0] = SYMS(0);
        int hd = HEAD(g_h); if (hd > 0 && hd < g_n) ((SYM *)q)[hd] = SYMS(hd);
    } else {
        q = TBUF(int, 3 + NB + g_n);
        CHECK(HASHW[0] == NB && HASHW[1] == g_n, "sizes unchanged so far"); ((int *)q)[0] = NB; ((int *)q)[1] = g_n;
        ((int *)q)[2 + g_h] = HEAD(g_h); ((int *)q)[2 + g_b] = HEAD(g_b); if (g_i < g_n) ((int *)q)[2 + NB + g_i] = LINK(g_i);
        ((int *)q)[2 + NB + g_n] = 0;
    }
    s->data = q; s->data_offset = o + size; s->data_allocated = o + size;
    return q + o;
}
int put_elf_str(Section *s, const char *name)
{
    CHECK(s == &g_str && name == g_name, "the name goes to the string table");
    int o = s->data_offset; size_t n = vf_range(2, 1 << 20);
    unsigned char *q = vf_buf(o + n); s->data = q; s->data_offset = o + n; s->data_allocated = o + n;
    ASSUME(NAMEID(o) == g_id && HASHAT(o) == g_hash);
    g_strs++;
    return o;
}
#define NEWHEAD(b) ((int *)g_hs.data)[2 + (b)]
static void checkindex(int add)
{
    CHECK(HASHW[0] == NB && HASHW[1] == g_n + 1, "the index counts the entry");
    CHECK(HEAD(g_h) == (add ? g_n : g_w), "a global entry becomes head of its bucket, a local one does not");
    CHECK(LINK(g_n) == (add ? g_w : 0), "and is linked to the earlier head");
}
VS int g_hb, g_li, g_add; VS SYM g_ok;
void rebuild_hash(Section *s, unsigned nb) { CHECK(s == &g_s && nb > 0 && nb <= 2 * NB && (nb & (nb - 1)) == 0, "the index of this table is rebuilt"); checkindex(g_add); g_rebuilds++; }
void harness(void)
{
    mktab(); ASSUME(g_n < NMAX && g_str.data_offset < 1 << 28);
    int named = nondet_bool(), idx = nondet_bool(); char *nm = (char *)g_name;
    nm[0] = named ? 'x' : 0;
    int nul = nondet_bool();
    g_h = (named ? g_hash : HASHAT(0)) % (unsigned)NB;
    g_w = HEAD(g_h); g_hb = HEAD(g_b); g_li = g_i < g_n ? LINK(g_i) : 0; if (g_k < g_n) g_ok = SYMS(g_k);
    if (!idx) g_s.hash = 0;
    addr_t v = nondet_ulong(); unsigned long sz = nondet_ulong(); unsigned char info = nondet_uchar(), other = nondet_uchar(); unsigned short shn = nondet_ushort();
    g_add = ELFW(ST_BIND)(info) != STB_LOCAL;
    unsigned so = g_str.data_offset;
    /* the index before: the last global entry of the new name's bucket is its head */
    ASSUME(LAST(g_w, g_n, g_h, g_k, NB));
    int nh = g_hs.nb_hashed_syms;
    int r = put_elf_sym(&g_s, v, sz, info, other, shn, !named && nul ? 0 : g_name);
    CHECK(r == g_n, "the new entry is the next one");
    CHECK(g_s.data_offset == (size_t)(g_n + 1) * sizeof(SYM), "exactly one entry is added");
    SYM *e = &SYMS(g_n);
    CHECK(e->st_value == v && e->st_size == sz && e->st_info == info && e->st_other == other && e->st_shndx == shn, "it holds the given attributes");
    CHECK(e->st_name == (named ? so : 0) && g_strs == named, "and the name");
    if (g_k < g_n) CHECK(SYMS(g_k).st_name == g_ok.st_name && SYMS(g_k).st_value == g_ok.st_value && SYMS(g_k).st_info == g_ok.st_info && SYMS(g_k).st_shndx == g_ok.st_shndx, "earlier entries are unchanged");
    if (idx) {
        CHECK(g_rebuilds == (g_add && nh + 1 > 2 * NB), "the index grows with the number of global names");
        CHECK(g_hs.nb_hashed_syms == nh + g_add, "global names are counted");
        if (!g_rebuilds) {
            checkindex(g_add);
            CHECK(IMPLIES(g_b != g_h, HEAD(g_b) == g_hb), "other buckets are unchanged");
            if (g_i < g_n) CHECK(LINK(g_i) == g_li, "earlier links are unchanged");
            /* the characterisation holds again, for the new name's bucket and the new entry */
            if (g_add) { CHECK(LAST(LINK(g_n), g_n, g_h, g_k, NB), "link of the new entry: last global entry of its bucket before it"); }
            if (g_add) CHECK(LAST(HEAD(g_h), g_n + 1, g_h, g_k, NB), "head of its bucket: last global entry of the bucket");
            CANARY("index");
        } else CANARY("rebuild");
    }
    CANARY("end");
}
#elif defined(U_rebuild)
int _tcc_error_noabort(const char *fmt, ...) { CHECK(0, "rebuilding is silent"); return -1; }
void *section_ptr_add(Section *s, addr_t size)
{
    CHECK(s == &g_hs && s->data_offset == 0, "the index is rewritten from its start");
    CHECK(size == (size_t)(2 + NB + g_n) * sizeof(int), "room for heads and links");
    s->data = TBUF(int, 2 + NB + g_n); s->data_offset = size;
    return s->data;
}
static void *vf_memset(void *d, int c, size_t n)
{
    CHECK(W_OK(d, n) && c == 0, "heads are cleared inside the index");
    CHECK(d == (void *)(HASHW + 2) && n >= (size_t)NB * sizeof(int), "all heads are cleared");
    HEAD(g_b) = 0; /* the other cells of the fresh index are arbitrary anyway */
    return d;
}
void harness(void)
{
    mktab(); ASSUME(g_k < g_n && g_i < g_n);
    int req = NB;
    if (req) { HASHW[0] = nondet_int(); g_hs.data_offset = nondet_size_t(); }
    g_b = vf_range(0, NB - 1);
#ifdef BOUNDED
    for (int i = 1; i < NMAX; i++) ASSUME(IDX(i));
#endif
    ASSUME(IDX(g_k) && IDX(g_i));
    rebuild_hash(&g_s, req);
    CHECK(g_hs.data_offset == (size_t)(2 + NB + g_n) * sizeof(int), "one head per bucket, one link per entry");
    CHECK(HASHW[0] == NB && HASHW[1] == g_n, "the index announces its sizes");
    CHECK(LAST(HEAD(g_b), g_n, g_b, g_k, NB), "head of a bucket: the last global entry of the bucket");
    if (GLOB(g_i) && BK(g_i, NB) == g_b) { CHECK(LAST(LINK(g_i), g_i, g_b, g_k, NB), "link of an entry: the last global entry of its bucket before it"); CANARY("link"); }
    CANARY("end");
}
#elif defined(U_init)
int _tcc_error_noabort(const char *fmt, ...) { CHECK(0, "silent"); return -1; }
void *section_ptr_add(Section *s, addr_t size)
{
    size_t o = s->data_offset; unsigned char *q = vf_buf(o + size);
    if (s == &g_s) { for (unsigned i = 0; i < sizeof(SYM); i++) q[i] = 0; }
    s->data = q; s->data_offset = o + size; return q + o;
}
VS int g_strs;
int put_elf_str(Section *s, const char *name) { CHECK(s == &g_str && name[0] == 0 && s->data_offset == 0, "the string table starts with the empty name"); g_strs++; return 0; }
void harness(void)
{
    g_s.link = &g_str; g_s.hash = &g_hs;
    init_symtab(&g_s);
    CHECK(g_strs == 1 && g_s.data_offset == sizeof(SYM) && ((SYM *)g_s.data)->st_name == 0 && ((SYM *)g_s.data)->st_shndx == 0, "entry 0 is empty");
    CHECK(g_hs.data_offset == 4 * sizeof(int) && HASHW[0] == 1 && HASHW[1] == 1 && HASHW[2] == 0 && HASHW[3] == 0, "the index has one empty bucket");
    CANARY("end");
}
#elif defined(U_set)
int _tcc_error_noabort(const char *fmt, ...) { g_errs++; return -1; }
VS SYM g_new; VS int g_puts, g_r, g_finds;
int find_elf_sym(Section *s, const char *name) { CHECK(s == &g_s && name == g_name, "the name is looked up in the table"); g_finds++; return g_r; }
int put_elf_sym(Section *s, addr_t v, unsigned long size, int info, int other, int shndx, const char *name)
{
    CHECK(s == &g_s && name == g_name, "the name is entered in the table");
    g_new.st_value = v; g_new.st_size = size; g_new.st_info = info; g_new.st_other = other; g_new.st_shndx = shndx; g_puts++;
    return g_n;
}
static int rank(int v) { return v == STV_DEFAULT ? 0 : v == STV_PROTECTED ? 1 : v == STV_HIDDEN ? 2 : 3; }
void harness(void)
{
    TCCState *s1 = &g_st;
    g_n = vf_range(2, 64); g_s.data = vf_buf(g_n * sizeof(SYM)); g_s.s1 = s1; g_s.sh_flags = nondet_int(); g_name = vf_buf(1);
    bss_section = &g_bss; g_bss.sh_num = vf_range(1, SHN_LORESERVE - 1); s1->new_undef_sym = nondet_bool(); int nu = s1->new_undef_sym;
    g_r = vf_range(0, g_n - 1); g_k = vf_range(1, g_n - 1);
    SYM o = ((SYM *)g_s.data)[g_r], tk = ((SYM *)g_s.data)[g_k];
    addr_t v = nondet_ulong(); unsigned long sz = nondet_ulong(); unsigned char other = nondet_uchar();
    int bind = vf_range(0, 2), type = vf_range(0, 15), shn = vf_range(0, 0xffff), info = ELFW(ST_INFO)(bind, type);
    int ob = ELFW(ST_BIND)(o.st_info); ASSUME(g_r == 0 || ob == STB_GLOBAL || ob == STB_WEAK);
    int r = set_elf_sym(&g_s, v, sz, info, other, shn, g_name);
    SYM e = ((SYM *)g_s.data)[g_r];
    if (bind == STB_LOCAL || g_r == 0) {
        CHECK(bind == STB_LOCAL ? g_finds == 0 : g_finds == 1, "only global names are looked up");
        CHECK(r == g_n && g_puts == 1, "a name that is not there is entered");
        CHECK(g_new.st_value == v && g_new.st_size == sz && g_new.st_info == info && g_new.st_other == other && g_new.st_shndx == shn, "with its attributes");
        CHECK(g_errs == 0, "no error");
        CANARY("new"); return;
    }
    CHECK(r == g_r && g_puts == 0, "a known name keeps its entry");
    if (g_k != g_r) { SYM t2 = ((SYM *)g_s.data)[g_k]; CHECK(t2.st_value == tk.st_value && t2.st_info == tk.st_info && t2.st_shndx == tk.st_shndx && t2.st_other == tk.st_other && t2.st_size == tk.st_size && t2.st_name == tk.st_name, "other entries are unchanged"); }
    CHECK(e.st_name == o.st_name, "the entry keeps its name");
    int kept = e.st_value == o.st_value && e.st_size == o.st_size && e.st_info == o.st_info && e.st_shndx == o.st_shndx;
    int taken = e.st_value == v && e.st_size == sz && e.st_info == info && e.st_shndx == shn;
    int tent_o = o.st_shndx == SHN_COMMON || o.st_shndx == g_bss.sh_num, tent_n = shn == SHN_COMMON || shn == g_bss.sh_num;
    int hid = ELFW(ST_VISIBILITY)(other) == STV_HIDDEN || ELFW(ST_VISIBILITY)(other) == STV_INTERNAL;
    int same = o.st_value == v && o.st_size == sz && o.st_info == info && o.st_other == other && o.st_shndx == shn;
    if (!same) {
        int vo = ELFW(ST_VISIBILITY)(o.st_other), vn = ELFW(ST_VISIBILITY)(other), ve = ELFW(ST_VISIBILITY)(e.st_other);
        if (o.st_shndx != SHN_UNDEF) CHECK(ve == (rank(vn) > rank(vo) ? vn : vo), "the most constraining visibility wins");
    }
    if (same) { CHECK(kept && g_errs == 0, "the same definition again changes nothing"); }
    else if (o.st_shndx == SHN_UNDEF) { CHECK(taken && g_errs == 0 && e.st_other == other, "an undefined symbol takes what comes"); CANARY("undef"); }
    else if (shn == SHN_UNDEF) { CHECK(kept && g_errs == 0, "a reference never undoes a definition"); CANARY("reference"); }
    else if (bind == STB_GLOBAL && ob == STB_WEAK) { CHECK(taken && g_errs == 0, "a strong definition replaces a weak one"); CANARY("strong over weak"); }
    else if (bind == STB_WEAK && ob == STB_GLOBAL) { CHECK(kept && g_errs == 0, "a weak definition never replaces a strong one"); CANARY("weak after strong"); }
    else if (bind == STB_WEAK) { CHECK(kept && g_errs == 0, "the first of two weak definitions stays"); CANARY("weak after weak"); }
    else if (hid) { CHECK(kept && g_errs == 0, "a hidden definition does not take part"); CANARY("hidden"); }
    else if (tent_o && !tent_n && shn < SHN_LORESERVE) { CHECK(taken && g_errs == 0, "a definition with contents replaces a tentative one"); CANARY("data over tentative"); }
    else if (tent_n) { CHECK(kept && g_errs == 0, "a tentative definition never replaces another"); CANARY("tentative after data"); }
    else if (g_s.sh_flags & SHF_DYNSYM) { CHECK(kept && g_errs == 0, "of two libraries the first defines the symbol"); CANARY("libraries"); }
    else if (o.st_other & ST_ASM_SET) { CHECK(taken && g_errs == 0, "an assembler .set may be repeated"); CANARY("asm set"); }
    else { CHECK(kept && g_errs == 1, "two strong definitions are an error"); CANARY("twice"); }
    CHECK(s1->new_undef_sym == nu || taken, "flagged only when something was resolved");
    CHECK(!taken || kept || s1->new_undef_sym, "a resolved symbol is flagged");
    CANARY("end");
}
#elif defined(U_addr)
int _tcc_error_noabort(const char *fmt, ...) { g_errs++; return -1; }
VS int g_r;
int find_elf_sym(Section *s, const char *name) { CHECK(s == &g_s && (name == g_name || (g_st.leading_underscore && name != g_name)), "the name is looked up"); return g_r; }
char *pstrcpy(char *b, size_t n, const char *s) { CHECK(W_OK(b, n) && s == g_name, "decorated inside the buffer"); return b; }
void harness(void)
{
    mktab(); g_st.symtab = &g_s; g_r = vf_range(0, g_n - 1); g_st.leading_underscore = nondet_bool();
    int err = nondet_bool(), forc = nondet_bool();
    SYM e = SYMS(g_r);
    addr_t r = get_sym_addr(&g_st, g_name, err, forc);
    if (g_r && e.st_shndx != SHN_UNDEF) CHECK(r == e.st_value && g_errs == 0, "value of the defined symbol");
    else { CHECK(r == (addr_t)-1 && g_errs == err, "an absent or undefined name has no address and is reported if asked"); CANARY("absent"); }
    CANARY("end");
}
#elif defined(U_common)
int _tcc_error_noabort(const char *fmt, ...) { CHECK(0, "silent"); return -1; }
size_t section_add(Section *s, addr_t size, int align)
{
    CHECK(s == &g_bss, "common symbols live in .bss");
    size_t o = nondet_size_t(); ASSUME(o >= g_end);
    if (g_at == g_k) { CHECK(size == g_old.st_size && align == (int)g_old.st_value, "space of the symbol's size and alignment"); g_off = o; g_w++; }
    g_end = o + size; ASSUME(g_end >= o);
    return o;
}
static void tcc_add_linker_symbols(TCCState *s1) { CHECK(g_at == g_n, "after all symbols"); g_lnk++; }
void harness(void)
{
    TCCState *s1 = &g_st; mktab(); ASSUME(g_k < g_n); symtab_section = &g_s; bss_section = &g_bss; g_bss.sh_num = vf_range(1, SHN_LORESERVE - 1);
    g_old = SYMS(g_k); g_at = 1;
    resolve_common_syms(s1);
    SYM e = SYMS(g_k);
    CHECK(e.st_size == g_old.st_size && e.st_info == g_old.st_info && e.st_name == g_old.st_name && e.st_other == g_old.st_other, "nothing else changes");
    if (g_old.st_shndx == SHN_COMMON) { CHECK(g_w == 1 && e.st_shndx == g_bss.sh_num && e.st_value == g_off, "a tentative definition gets its own space in .bss"); CANARY("common"); }
    else CHECK(g_w == 0 && e.st_shndx == g_old.st_shndx && e.st_value == g_old.st_value, "other symbols stay");
    CHECK(g_lnk == 1, "linker symbols are added");
    CANARY("end");
}
#elif defined(U_relsyms)
int _tcc_error_noabort(const char *fmt, ...) { g_errs++; return -1; }
void *dlsym(void *h, const char *name) { CHECK(__CPROVER_same_object(name, g_str.data) && g_resolve, "asked for the symbol"); return (void *)__CPROVER_uninterpreted_dlsym(NAMEID(__CPROVER_POINTER_OFFSET(name))); }
int find_elf_sym(Section *s, const char *name) { CHECK(s == g_st.dynsym && !g_resolve, "asked in the dynamic symbols"); return __CPROVER_uninterpreted_indyn(NAMEID(__CPROVER_POINTER_OFFSET(name))); }
VS SYM g_tab[RELN], g_oldt[RELN]; VS Section g_sec[3], g_dyn; VS Section *g_sp[3];
void harness(void)
{
    TCCState *s1 = &g_st; s1->symtab = &g_s; s1->leading_underscore = 0; g_n = vf_range(1, RELN);
    g_s.data = (unsigned char *)g_tab; g_s.data_offset = g_n * sizeof(SYM); g_s.link = &g_str; g_str.data = vf_buf(256);
    s1->dynsym = nondet_bool() ? &g_dyn : 0; s1->sections = g_sp;
    for (int i = 0; i < 3; i++) { g_sp[i] = &g_sec[i]; g_sec[i].sh_addr = nondet_ulong(); }
    for (int i = 0; i < RELN; i++) {
        SYM *e = &g_tab[i]; e->st_name = nondet_uchar(); e->st_value = nondet_ulong(); e->st_info = nondet_uchar(); e->st_shndx = nondet_ushort();
        ASSUME(e->st_shndx < 3 || e->st_shndx >= SHN_LORESERVE); g_oldt[i] = *e;
    }
    g_resolve = vf_range(0, 2);
    relocate_syms(s1, &g_s, g_resolve);
    int want = 0;
    for (int i = 0; i < RELN; i++) {
        SYM e = g_tab[i], o = g_oldt[i]; unsigned long v = o.st_value; int id = NAMEID(o.st_name);
        if (i == 0 || i >= g_n) { CHECK(e.st_value == o.st_value, "entry 0 is not touched"); continue; }
        if (o.st_shndx == SHN_UNDEF) {
            if (g_resolve == 2) ;
            else if (g_resolve && __CPROVER_uninterpreted_dlsym(id)) { v = __CPROVER_uninterpreted_dlsym(id); CANARY("dl"); }
            else if (!g_resolve && s1->dynsym && __CPROVER_uninterpreted_indyn(id)) ;
            else if (__CPROVER_uninterpreted_fphw(id)) ;
            else if (ELFW(ST_BIND)(o.st_info) == STB_WEAK) { v = 0; CANARY("weak"); }
            else { want++; CANARY("undefined"); }
        } else if (o.st_shndx < SHN_LORESERVE) v += g_sec[o.st_shndx].sh_addr;
        CHECK(e.st_value == v, "a symbol gets its section's address, the process's address, or (weak) zero");
        CHECK(e.st_info == o.st_info && e.st_name == o.st_name && e.st_shndx == o.st_shndx, "nothing else changes");
    }
    CHECK(g_errs == want, "exactly the strong symbols nobody defines are reported");
    CANARY("end");
}
#endif
