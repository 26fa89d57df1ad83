/* the real symbol table, driven by random histories, against the rules of resolution */
#define main tcc_main
#include "tccrun.h"
#undef main
#define NAMES 40
typedef ElfW(Sym) SYM;
static char nm[NAMES][24];
static void bad(const char *m) { printf("REFUTED: %s\n", m); fflush(stdout); fprintf(stderr, "REFUTED: %s\n", m); abort(); }
static int errs;
static void onerr(void *o, const char *m) { errs++; }
static int rank_(int v) { return v == STV_DEFAULT ? 0 : v == STV_PROTECTED ? 1 : v == STV_HIDDEN ? 2 : 3; }
static unsigned ehash(const char *p) { unsigned h = 0, g; while (*p) { h = (h << 4) + (unsigned char)*p++; g = h & 0xf0000000; if (g) h ^= g >> 24; h &= ~g; } return h; }
int LLVMFuzzerTestOneInput(const unsigned char *d, size_t n)
{
    if (n < 8) return 0;
    for (int i = 0; i < NAMES; i++) {
        /* names of several lengths, colliding hashes included */
        int l = 1 + (d[0] + i * 7) % 12; unsigned x = i * 2654435761u + d[1];
        for (int j = 0; j < l; j++) { nm[i][j] = 'a' + x % 5; x = x / 5 + i * (j + 3); } nm[i][l] = 0;
        sprintf(nm[i] + l, "%c%c", (d[2] & 1 ? 'A' : 0x80) + i % 7, (d[2] & 1 ? 'A' : 0x81) + i / 7);
        if (ehash(nm[i]) != elf_hash((unsigned char *)nm[i])) bad("the hash is not the one the ELF ABI defines");
    }
    TCCState *s1 = tcc_new(); tcc_set_error_func(s1, 0, onerr); tcc_set_output_type(s1, TCC_OUTPUT_MEMORY);
    int fl = d[3] & 1 ? SHF_PRIVATE | SHF_DYNSYM : SHF_PRIVATE;
    Section *t = new_symtab(s1, ".t", SHT_SYMTAB, fl, ".tstr", ".thash", SHF_PRIVATE);
    SYM *ref = calloc(4096, sizeof(SYM)); int *rname = calloc(4096, sizeof(int)), rn = 1;
    int bss = bss_section->sh_num;
    errs = 0;
    for (size_t i = 4; i + 6 <= n && rn < 4000; i += 6) {
        int k = d[i] % NAMES, op = d[i + 1] % 8, bind = d[i + 2] % 3, type = d[i + 2] / 3 % 5, other = d[i + 3] % 4 | (d[i + 3] & 64 ? ST_ASM_SET : 0), e0 = errs;
        static const int shs[8] = {0, 1, 2, 0xfff1, 0xfff2, 3, -1, 0};
        int shn = shs[d[i + 4] % 8]; if (shn < 0) shn = bss;
        unsigned v = d[i + 5]; int info = ELFW(ST_INFO)(bind, type), sz = d[i + 4] / 8;
        int f = 0; for (int j = 1; j < rn; j++) if (ELFW(ST_BIND)(ref[j].st_info) != STB_LOCAL && !strcmp(nm[rname[j]], nm[k])) f = j;
        int g = find_elf_sym(t, nm[k]);
        if (g != f) bad("a lookup does not find the latest global entry of the name");
        SYM w = {.st_value = v, .st_size = sz, .st_info = info, .st_other = other, .st_shndx = shn};
        if (op == 0) {
            int r = put_elf_sym(t, v, sz, info, other, shn, nm[k]);
            if (r != rn) bad("the new entry is not the next one");
            rname[rn] = k; ref[rn++] = w;
        } else {
            int r = set_elf_sym(t, v, sz, info, other, shn, nm[k]);
            if (bind == STB_LOCAL || !f) { if (r != rn) bad("a new name is not entered"); rname[rn] = k; ref[rn++] = w; }
            else {
                SYM *o = &ref[f]; int ob = ELFW(ST_BIND)(o->st_info), take, err = 0;
                if (r != f) bad("a known name does not keep its entry");
                int to = o->st_shndx == SHN_COMMON || o->st_shndx == bss, tn = shn == SHN_COMMON || shn == bss, vis = ELFW(ST_VISIBILITY)(other);
                if (o->st_value == v && o->st_size == sz && o->st_info == info && o->st_other == other && o->st_shndx == shn) take = 2;
                else if (o->st_shndx == 0) take = 1;
                else if (shn == 0) take = 0;
                else if (bind == STB_GLOBAL && ob == STB_WEAK) take = 1;
                else if (bind == STB_WEAK) take = 0;
                else if (vis == STV_HIDDEN || vis == STV_INTERNAL) take = 0;
                else if (to && !tn && shn < SHN_LORESERVE) take = 1;
                else if (tn) take = 0;
                else if (fl & SHF_DYNSYM) take = 0;
                else if (o->st_other & ST_ASM_SET) take = 1;
                else take = 0, err = 1;
                if ((errs != e0) != err) bad(err ? "two strong definitions are not reported" : "an error for a permitted redefinition");
                int vo = ELFW(ST_VISIBILITY)(o->st_other), nv = rank_(vis) > rank_(vo) ? vis : vo;
                if (take != 2 && o->st_shndx != 0) o->st_other = (o->st_other & ~3) | nv;
                else if (take == 1) o->st_other = other;
                if (take == 1) { o->st_value = v; o->st_size = sz; o->st_info = info; o->st_shndx = shn; }
            }
        }
        for (int j = 1; j < rn; j++) {
            SYM *e = &((SYM *)t->data)[j];
            if (e->st_value != ref[j].st_value || e->st_size != ref[j].st_size || e->st_info != ref[j].st_info || e->st_shndx != ref[j].st_shndx) bad("an entry does not hold what the rules of resolution give");
            if ((e->st_other & 3) != (ref[j].st_other & 3)) bad("the visibility is not the most constraining one");
            if (strcmp((char *)t->link->data + e->st_name, nm[rname[j]])) bad("an entry does not keep its name");
        }
    }
    for (int k = 0; k < NAMES; k++) {
        int f = 0; for (int j = 1; j < rn; j++) if (ELFW(ST_BIND)(ref[j].st_info) != STB_LOCAL && !strcmp(nm[rname[j]], nm[k])) f = j;
        if (find_elf_sym(t, nm[k]) != f) bad("a lookup does not find the latest global entry of the name");
    }
    free(ref); free(rname);
    /* common symbols get room of their own */
    { int e0 = errs, c[3]; addr_t a[3], z[3]; char b[8];
      for (int i = 0; i < 3; i++) { z[i] = 1 + d[4 + i] % 60; sprintf(b, "cm%d", i); c[i] = set_elf_sym(s1->symtab, (addr_t)1 << (d[4 + i] & 3), z[i], ELFW(ST_INFO)(STB_GLOBAL, STT_OBJECT), 0, SHN_COMMON, b); }
      if (get_sym_addr(s1, "nobody", 0, 0) != (addr_t)-1) bad("an absent name has an address");
      resolve_common_syms(s1);
      for (int i = 0; i < 3; i++) { SYM *e = &((SYM *)s1->symtab->data)[c[i]]; a[i] = e->st_value;
        if (e->st_shndx != bss || e->st_size != z[i]) bad("a tentative definition does not move to .bss");
        if (a[i] % ((addr_t)1 << (d[4 + i] & 3)) || a[i] + z[i] > bss_section->data_offset) bad("space of a tentative definition misaligned or outside .bss");
        for (int j = 0; j < i; j++) if (a[i] < a[j] + z[j] && a[j] < a[i] + z[i]) bad("tentative definitions overlap"); }
      (void)e0; }
    tcc_delete(s1);
    return 0;
}
