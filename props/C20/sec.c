/* Contracts of the section and symbol attribute tables of lib/tinycc/tccelf.c. */
#include "verif.h"
#include "mem.h"
#undef memset
#undef memmove
#undef memcpy
#undef strlen
#define USING_GLOBALS
#include "tcc.h"
#ifdef __CPROVER
#define memset vf_memset
#define memmove vf_memmove
#define memcpy vf_memmove
#define strlen vf_strlen
#endif
VS int errors;
int _tcc_error_noabort(const char *fmt, ...) { errors++; return -1; }
void _tcc_error(const char *fmt, ...) { ASSUME(0); }
void _tcc_warning(const char *fmt, ...) { }
void *tcc_realloc(void *p, unsigned long n) { return grow(p, n); }
VS Section *g_made; VS size_t g_made_sz; VS int g_mades;
void *tcc_mallocz(unsigned long n)
{
    static const Section z;
    CHECK(n >= sizeof(Section), "room for a section header");
    g_made = (Section *)vf_buf(n); g_made_sz = n; g_mades++;
    *g_made = z;
    return g_made;
}
VS void *g_arr; VS int *g_cnt; VS void *g_added; VS int g_adds;
void dynarray_add(void *ptab, int *nb, void *data) { g_arr = ptab; g_cnt = nb; g_added = data; g_adds++; }
#ifdef U_reloca
/* contract of new_section, proved by unit new */
Section *new_section(TCCState *s1, const char *name, int type, int fl)
{
    Section *n = tcc_mallocz(sizeof(Section));
    n->s1 = s1; n->sh_type = type; n->sh_flags = fl; n->sh_addralign = 8;
    g_added = n; g_adds++;
    return n;
}
#endif
#ifdef __CPROVER
static int vf_snprintf(char *b, size_t n, const char *f, ...) { CHECK(n == 0 || W_OK(b, n), "snprintf stays inside the buffer"); if (n) { __CPROVER_havoc_slice(b, n); b[n - 1] = 0; } return vf_range(0, BIG); }
#define snprintf vf_snprintf
static char *vf_strcpy(char *d, const char *s)
{
    CHECK(s == g_str && W_OK(d, g_n + 1), "strcpy stays inside the buffer");
    __CPROVER_havoc_slice(d, g_n + 1);
    d[g_n] = 0; if (g_t <= g_n) d[g_t] = s[g_t];
    return d;
}
#define strcpy vf_strcpy
#endif
VS size_t g_old, g_new, g_a0; /* section_realloc: allocated size before, wanted size */
#if defined(U_put_str) || defined(U_reloca)
VS Section *g_sec; VS size_t g_add_size; VS int g_adds2;
#endif
#include "lib/tinycc/tccelf.c"
/* a section with arbitrary contents: bytes from data_offset on are zero */
static void mksec(Section *s)
{
    s->data_allocated = vf_range(0, BIG); s->data_offset = vf_range(0, BIG);
    s->sh_type = nondet_int(); s->sh_addralign = nondet_int(); s->sh_flags = nondet_int(); s->sh_num = nondet_int(); s->sh_entsize = nondet_int();
    g_t = vf_range(0, BIG * 4);
    if (s->sh_type == SHT_NOBITS) { s->data_allocated = 0; s->data = 0; }
    else {
        ASSUME(s->data_offset <= s->data_allocated);
        s->data = s->data_allocated ? vf_buf(s->data_allocated) : 0;
#ifdef __CPROVER
        if (g_t >= s->data_offset && g_t < s->data_allocated) ASSUME(s->data[g_t] == 0);
#else
        for (size_t i = s->data_offset; i < s->data_allocated; i++) s->data[i] = 0;
#endif
    }
    g_blk = s->data; g_blksz = s->data_allocated;
    ASSUME(s->sh_addralign >= 0 && s->sh_addralign < 1 << 24);
}
#if defined(U_add) || defined(U_ptr) || defined(U_reserve)
/* contract of section_realloc, proved by unit realloc */
void section_realloc(Section *s, unsigned long n)
{
    CHECK(s->data_allocated <= n && n <= BIG * 8, "section_realloc: grows");
    size_t a = s->data_allocated, a1 = vf_range(n, 2 * n);
    unsigned char *q = vf_buf(a1);
#ifdef __CPROVER
    if (g_t < a) q[g_t] = s->data[g_t]; else if (g_t < a1) q[g_t] = 0;
#else
    (memset)(q, 0, a1); if (a) (memcpy)(q, s->data, a);
#endif
    s->data = q; s->data_allocated = a1; g_blk = q; g_blksz = a1;
}
#endif
#if defined(U_put_str) || defined(U_reloca)
/* contract of section_ptr_add, proved by units add and ptr: room for size bytes at the old end */
void *section_ptr_add(Section *s, addr_t size)
{
    g_sec = s; g_add_size = size; g_adds2++;
    size_t o = s->data_offset, a = s->data_allocated;
    if (o + size > a || nondet_bool()) {
        size_t a1 = o + size + vf_range(0, 64);
        unsigned char *q = vf_buf(a1);
#ifdef __CPROVER
        if (g_t < o) q[g_t] = s->data[g_t]; else if (g_t < a1) q[g_t] = 0;
#else
        (memset)(q, 0, a1); if (o) (memcpy)(q, s->data, o);
#endif
        s->data = q; s->data_allocated = a1; g_blk = q; g_blksz = a1;
    }
    s->data_offset = o + size;
    return s->data + o;
}
#endif
/* everything but the listed fields is as before */
#define SAME(f) CHECK(s.f == b.f, "other fields of the section are left alone: " #f)
#define SAMES SAME(s1); SAME(sh_name); SAME(sh_num); SAME(sh_type); SAME(sh_flags); SAME(sh_info); SAME(sh_entsize); SAME(sh_size); SAME(sh_addr); SAME(link); SAME(reloc); SAME(hash); SAME(prev)
void harness(void)
{
    VS Section s, b;
#if defined(U_realloc)
    mksec(&s);
    ASSUME(s.sh_type != SHT_NOBITS);
    b = s; unsigned char v = g_t < s.data_allocated ? s.data[g_t] : 0;
    g_new = vf_range(0, BIG * 4); g_old = s.data_allocated;
    section_realloc(&s, g_new);
    CHECK(s.data_allocated >= g_new && s.data_allocated >= g_old, "capacity covers the request");
    CHECK(s.data_allocated == 0 || W_OK(s.data, s.data_allocated), "announced capacity exists");
    CHECK(s.data_allocated <= g_blksz, "announced capacity was allocated");
    if (g_t < s.data_allocated) CHECK(s.data[g_t] == v, "old bytes kept, new bytes zero");
    CHECK(s.data_offset == b.data_offset, "fill level unchanged"); SAME(sh_addralign); SAMES;
    if (g_t >= g_old) CANARY("fresh byte");
    CANARY("end");
#elif defined(U_add)
    mksec(&s); b = s;
    int sh = vf_range(0, BIG > 40 ? 20 : 4), align = 1 << sh; size_t size = vf_range(0, BIG);
    unsigned char v = g_t < s.data_offset && s.data ? s.data[g_t] : 0;
    size_t o = section_add(&s, size, align);
    CHECK(o % align == 0 && o >= b.data_offset && o < b.data_offset + align, "lowest aligned offset from the old end");
    CHECK(s.data_offset == o + size, "exactly the reserved bytes are added");
    CHECK(s.sh_addralign == (align > b.sh_addralign ? align : b.sh_addralign), "section is at least as aligned as its contents");
    if (s.sh_type != SHT_NOBITS) {
        CHECK(s.data_offset <= s.data_allocated, "fill level within capacity");
        CHECK(s.data_allocated == 0 || W_OK(s.data, s.data_allocated), "announced capacity exists");
        if (g_t < s.data_allocated) CHECK(s.data[g_t] == v, "old bytes kept, padding, reserved and spare bytes zero");
        CANARY("data");
    } else CHECK(s.data == 0, "no storage for a section without data");
    SAMES;
    CANARY("end");
#elif defined(U_ptr)
    mksec(&s); ASSUME(s.sh_type != SHT_NOBITS); b = s;
    size_t size = vf_range(0, BIG);
    unsigned char v = g_t < s.data_offset ? s.data[g_t] : 0;
    unsigned char *p = section_ptr_add(&s, size);
    CHECK(p == s.data + b.data_offset && s.data_offset == b.data_offset + size, "reserved space starts at the old end");
    CHECK(size == 0 || W_OK(p, size), "reserved space exists");
    CHECK(s.data_offset <= s.data_allocated, "fill level within capacity");
    if (g_t < s.data_allocated) CHECK(s.data[g_t] == v, "old bytes kept, reserved bytes zero");
    SAMES;
    CANARY("end");
#elif defined(U_reserve)
    mksec(&s); ASSUME(s.sh_type != SHT_NOBITS); b = s;
    size_t size = vf_range(0, BIG);
    unsigned char v = g_t < s.data_offset ? s.data[g_t] : 0;
    section_reserve(&s, size);
    CHECK(s.data_offset == (size > b.data_offset ? size : b.data_offset), "never shrinks, covers the request");
    CHECK(s.data_offset <= s.data_allocated, "fill level within capacity");
    if (g_t < s.data_allocated) CHECK(s.data[g_t] == v, "old bytes kept, new bytes zero");
    SAME(sh_addralign); SAMES;
    CANARY("end");
#elif defined(U_put_str)
    mksec(&s); ASSUME(s.sh_type != SHT_NOBITS); mkstr(); b = s;
    unsigned char v = g_t < s.data_offset ? s.data[g_t] : 0;
    int o = put_elf_str(&s, g_str);
    CHECK(o == (int)b.data_offset, "the name is placed at the old end of the string table");
    CHECK(s.data_offset == b.data_offset + g_n + 1 && g_adds2 == 1, "the name and its terminator, nothing else, are added");
    if (g_t < b.data_offset) CHECK(s.data[g_t] == v, "earlier names are unchanged");
    else if (g_t < s.data_offset) CHECK(s.data[g_t] == (unsigned char)g_str[g_t - b.data_offset], "the name is stored exactly, terminated");
    CANARY("end");
#elif defined(U_reloca)
    VS Section sr, symtab; VS TCCState st; VS Section rb;
    mksec(&sr); ASSUME(sr.sh_type != SHT_NOBITS && sr.data_offset % sizeof(ElfW_Rel) == 0); rb = sr;
    s.s1 = &st; s.sh_num = nondet_int(); symtab.sh_flags = nondet_int();
    int have = nondet_bool(); s.reloc = have ? &sr : 0;
#ifdef __CPROVER
    if (!have) { g_blk = 0; g_blksz = 0; }
#endif
    unsigned char v = g_t < sr.data_offset ? sr.data[g_t] : 0;
    unsigned long off = nondet_ulong(); int type = nondet_int(), sym = nondet_int(); addr_t add = nondet_ulong();
    ASSUME(sym >= 0 && type >= 0);
    put_elf_reloca(&symtab, &s, off, type, sym, add);
    Section *r = s.reloc;
    CHECK(r != 0, "the section has a relocation section");
    if (have) CHECK(r == &sr && g_mades == 0, "the existing relocation section is used");
    else { CHECK(r == g_made && g_adds == 1 && g_added == r, "a relocation section was made and registered"); CHECK(r->sh_type == SHT_RELX && r->sh_entsize == sizeof(ElfW_Rel) && r->link == &symtab && r->sh_info == s.sh_num, "it belongs to the section and its symbol table"); }
    size_t o0 = have ? rb.data_offset : 0;
    CHECK(r->data_offset == o0 + sizeof(ElfW_Rel), "exactly one entry is added");
    ElfW_Rel *e = (ElfW_Rel *)(r->data + o0);
    CHECK(e->r_offset == off && ELFW(R_SYM)(e->r_info) == (unsigned)sym && ELFW(R_TYPE)(e->r_info) == (unsigned)type && e->r_addend == add, "the entry holds offset, symbol, type and addend");
    if (have && g_t < o0) CHECK(r->data[g_t] == v, "earlier entries are unchanged");
    CHECK(errors == 0, "no error");
    if (have) CANARY("existing"); else CANARY("new");
#elif defined(U_new)
    VS TCCState st;
    mkstr(); ASSUME(g_n < 1 << 20);
    int type = nondet_int(), fl = nondet_int(); st.nb_sections = nondet_int();
#ifdef __CPROVER
    g_t = vf_range(0, g_n);
#endif
    Section *n = new_section(&st, g_str, type, fl);
    CHECK(n == g_made && g_mades == 1 && g_adds == 1 && g_added == n, "made once, registered once");
    CHECK(g_made_sz >= offsetof(Section, name) + g_n + 1, "room for the name");
    CHECK(n->s1 == &st && n->sh_type == type && n->sh_flags == fl, "type and flags as asked");
    CHECK(n->data == 0 && n->data_offset == 0 && n->data_allocated == 0 && n->link == 0 && n->reloc == 0 && n->hash == 0, "starts empty");
    CHECK(((char *)n)[offsetof(Section, name) + g_t] == g_str[g_t], "the name is stored exactly");
    if (fl & SHF_PRIVATE) CHECK(g_arr == &st.priv_sections && g_cnt == &st.nb_priv_sections, "private sections are kept apart");
    else { CHECK(g_arr == &st.sections && g_cnt == &st.nb_sections && n->sh_num == st.nb_sections, "its number is its place in the section list"); CANARY("public"); }
    CHECK(n->sh_addralign == 1 || n->sh_addralign == 2 || n->sh_addralign == 8, "alignment is a power of two");
    CANARY("end");
#elif defined(U_attr)
    VS TCCState st; TCCState *s1 = &st;
    size_t nb = vf_range(0, BIG / 16);
    st.nb_sym_attrs = nb; st.sym_attrs = nb ? vf_buf(nb * sizeof(struct sym_attr)) : 0;
    g_blk = st.sym_attrs; g_blksz = nb * sizeof(struct sym_attr); g_t = vf_range(0, BIG * 4);
    size_t old = g_blksz;
    unsigned char v = g_t < g_blksz ? ((unsigned char *)g_blk)[g_t] : 0;
    int index = g_new = vf_range(0, BIG / 16), alloc = nondet_bool();
    g_old = nb;
    struct sym_attr *r = get_sym_attr(s1, index, alloc);
    if ((size_t)index >= nb && !alloc) { CHECK(r == st.sym_attrs && st.nb_sym_attrs == (int)nb && g_reallocs == 0, "without alloc nothing changes"); }
    else {
        CHECK(r == &st.sym_attrs[index] && index < st.nb_sym_attrs, "the entry of that symbol");
        CHECK(W_OK(st.sym_attrs, (size_t)st.nb_sym_attrs * sizeof(struct sym_attr)), "announced entries exist");
        CHECK(g_blksz >= (size_t)st.nb_sym_attrs * sizeof(struct sym_attr), "announced entries were allocated");
        if (g_t < (size_t)st.nb_sym_attrs * sizeof(struct sym_attr)) CHECK(((unsigned char *)st.sym_attrs)[g_t] == v, "old entries kept, new entries zero");
        if (g_reallocs) CANARY("grown");
    }
    CANARY("end");
#endif
}
