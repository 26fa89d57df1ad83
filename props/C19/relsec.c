/* Contract of relocate_section (lib/tinycc/tccelf.c): every entry of the relocation section,
   whatever their number, is applied exactly once with the address, place and value it names. */
#include "verif.h"
#define USING_GLOBALS
#include "tcc.h"
static int called; /* times the ghost entry was relocated */
static ElfW_Rel *base; static size_t idx, gn, gns; static size_t K; static Section *gs; static ElfW(Sym) *gsyms;
int _tcc_error_noabort(const char *fmt, ...) { return -1; }
void _tcc_error(const char *fmt, ...) { ASSUME(0); }
void _tcc_warning(const char *fmt, ...) { }
void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr, addr_t addr, addr_t val)
{
    ElfW(Sym) *sym = gsyms + ELFW(R_SYM)(rel->r_info);
    CHECK(type == (int)ELFW(R_TYPE)(rel->r_info), "relocation type of the entry");
    CHECK(ptr == gs->data + rel->r_offset, "field at the entry's offset");
    CHECK(addr == gs->sh_addr + rel->r_offset, "place is the section address plus the offset");
    CHECK(val == sym->st_value + rel->r_addend, "value is symbol plus addend");
    CHECK(rel == base + idx, "entries in order");
    if (idx == K) called++;
    idx++;
}
#include "lib/tinycc/tccelf.c"
#undef malloc

void harness(void)
{
    static TCCState st; TCCState *s1 = &st;
    static Section s, sr, symtab;
    size_t n = nondet_size_t();
    ASSUME(n < 0x1000000);
    sr.data_offset = n * sizeof(ElfW_Rel);
    sr.data = malloc(n * sizeof(ElfW_Rel)); idx = 0; called = 0;
    size_t ns = nondet_size_t(); ASSUME(ns < 0x1000000);
    symtab.data = malloc(ns * sizeof(ElfW(Sym)));
    s.data = malloc(nondet_size_t());
    ASSUME(sr.data && symtab.data && s.data);
    s.sh_addr = nondet_ulong();
    s.sh_num = nondet_int(); s1->dwlo = s1->dwhi = 0; /* no debug sections: their mutual references are covered by unit dwarf */
    sr.sh_flags = nondet_int(); s1->output_type = nondet_int();
    ASSUME(!(sr.sh_flags & SHF_ALLOC));
    symtab_section = &symtab;
    K = nondet_size_t(); ASSUME(K < n || n == 0);
    gn = n; gns = ns; base = (void *)sr.data; /* every entry names a symbol of the table */ gs = &s; gsyms = (void *)symtab.data;
#ifdef NMAX
    ASSUME(n <= NMAX);
    for (int i = 0; i < NMAX; i++) ASSUME(i >= n || ELFW(R_SYM)(base[i].r_info) < ns);
#endif
    relocate_section(s1, &s, &sr);
    CHECK(called == (K < n), "every entry is applied exactly once");
    CHECK(qrel == base, "dynamic relocations are collected from the start of the section");
    CANARY("end");
}
