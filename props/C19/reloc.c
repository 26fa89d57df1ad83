/* Contracts for lib/tinycc/x86_64-link.c (relocate, relocate_plt) and the little-endian
   accessors of tcc.h.  Specification: psABI x86-64 table of relocation types
   (S symbol value, A addend, P place, G offset in GOT, GOT address of GOT, L PLT slot);
   the value is added to the field, which the compiler and RELA objects leave zero. */
#include "verif.h"
#define USING_GLOBALS
#include "tcc.h"

/* ---- stubs ---- */
VS int errors;
int _tcc_error_noabort(const char *fmt, ...) { errors++; return -1; }
void _tcc_error(const char *fmt, ...) { errors++; ASSUME(0); }
VS struct sym_attr attr0; VS int attr_index, attr_calls;
struct sym_attr *get_sym_attr(TCCState *s1, int index, int alloc) { attr_index = index; attr_calls++; return &attr0; }
void *section_ptr_add(Section *sec, addr_t size);
int get_sym_size(int x);

/* ghosts of unit plt */
VS unsigned char *g_plt, g_ob; static size_t g_k, g_b; static uint32_t g_f2, g_want2, g_want8;
VS unsigned char *g_got; static size_t g_r, g_w; static uint64_t g_gwant; static ElfW_Rel *g_rel; static size_t g_i; static size_t g_gsz, g_n;
/* every PLT relocation names its own word of the GOT */
#define PLTREL_PRE(i) (g_rel[i].r_offset <= g_gsz && g_gsz - g_rel[i].r_offset >= 8 && ((i) == g_r || g_rel[i].r_offset >= g_w + 8 || g_w >= g_rel[i].r_offset + 8))
void tcc_enter_state(TCCState *s1) { }
void tcc_exit_state(TCCState *s1) { }
#undef fprintf
#define fprintf(...) 0

#include "lib/tinycc/x86_64-link.c"

#ifdef U_le
void harness(void)
{
    unsigned char b[24], o[24];
    uint64_t v = nondet_ullong(), old = 0, want, got = 0;
    unsigned at = nondet_uint(), w = 0, rd = 0;
    ASSUME(at <= 16);
    vf_bytes(b, 24);
    for (int i = 0; i < 24; i++) o[i] = b[i];
    unsigned char *p = b + at;
    uint64_t r = 0;
    switch (U_le) {
    case 1: w = 2; rd = 1; r = read16le(p); break;
    case 2: w = 4; rd = 1; r = read32le(p); break;
    case 3: w = 8; rd = 1; r = read64le(p); break;
    case 4: w = 2; write16le(p, v); break;
    case 5: w = 4; write32le(p, v); break;
    case 6: w = 8; write64le(p, v); break;
    case 7: w = 4; add32le(p, v); break;
    case 8: w = 8; add64le(p, v); break;
    }
    for (unsigned i = 0; i < 8; i++) if (i < w) { old |= (uint64_t)o[at + i] << (8 * i); got |= (uint64_t)b[at + i] << (8 * i); }
    uint64_t m = w == 8 ? -1ull : (1ull << (8 * w)) - 1;
    if (rd) CHECK(r == old, "reads the field's bytes, least significant first");
    else if (U_le >= 7) CHECK(got == ((old + v) & m), "adds to the field modulo its width");
    else CHECK(got == (v & m), "stores the value, least significant byte first");
    for (unsigned i = 0; i < 24; i++) CHECK(rd ? b[i] == o[i] : (i >= at && i < at + w) || b[i] == o[i], "touches nothing outside the field");
    CANARY("end");
}
#endif

#ifdef U_rel
enum { PRE = 8, N = PRE + 24, NSYM = 4 };
VS TCCState st;
VS Section got, symtab, secs[3], *sections[3];
VS ElfW(Sym) syms[NSYM];
VS unsigned char buf[N], old[N];
static uint64_t fld(const unsigned char *b, int w) { uint64_t r = 0; for (int i = 0; i < w; i++) r |= (uint64_t)b[i] << (8 * i); return r; }

void harness(void)
{
    TCCState *s1 = &st;
    ElfW_Rel rel[2], rel0[2], q[2], q0[2];
    rel[0].r_offset = nondet_ulong(); rel[0].r_info = nondet_ulong(); rel[0].r_addend = nondet_long();
    rel[1].r_offset = nondet_ulong(); rel[1].r_info = nondet_ulong(); rel[1].r_addend = nondet_long();
    for (int i = 0; i < 2; i++) { q[i].r_offset = nondet_ulong(); q[i].r_info = nondet_ulong(); q[i].r_addend = nondet_long(); rel0[i] = rel[i]; q0[i] = q[i]; }
    int sym = ELFW(R_SYM)(rel[0].r_info);
    ASSUME(sym >= 0 && sym < NSYM);
    int type = TYPE;
    for (int i = 0; i < N; i++) { buf[i] = nondet_uchar(); old[i] = buf[i]; }
    unsigned char *ptr = buf + PRE;
    uint64_t P = nondet_ulong(), S = nondet_ulong(), A = rel[0].r_addend, GOT = nondet_ulong();
    uint64_t val = S + A; /* the caller passes S + A */
    s1->output_type = OUT; s1->got = &got; got.sh_addr = GOT; symtab_section = &symtab; symtab.data = (void *)syms;
    s1->sections = sections;
    for (int i = 0; i < 3; i++) { sections[i] = &secs[i]; secs[i].sh_addr = nondet_ulong(); secs[i].data_offset = nondet_ulong(); }
    for (int i = 0; i < NSYM; i++) { syms[i].st_shndx = nondet_ushort() % 3; syms[i].st_value = nondet_ulong(); }
    attr0.got_offset = nondet_uint(); attr0.dyn_index = nondet_int();
    uint64_t G = attr0.got_offset;
    qrel = q;
    uint64_t f32 = (int64_t)(int32_t)fld(ptr, 4), f64 = fld(ptr, 8);
    Section *sec = &secs[syms[sym].st_shndx];
    relocate(s1, rel, type, ptr, P, val);
    int w, dynsym = attr0.dyn_index != 0;
    uint64_t v;         /* ABI value */
    int check_fit = 0, set = 0, skip = 0; /* set: stored, not added; skip: left to the dynamic linker */
    int qn = 0; uint64_t qi = 0, qa = 0;
#if OUT == TCC_OUTPUT_DLL
    const int dll = 1, dyn = 1;
#elif OUT == TCC_OUTPUT_DYN || OUT == (TCC_OUTPUT_EXE | TCC_OUTPUT_DYN)
    const int dll = 0, dyn = 1;
#else
    const int dll = 0, dyn = 0;
#endif
    switch (TYPE) {
    case R_X86_64_64: w = 8; v = S + A;
        if (dyn) { qn = 1; if (dynsym) { skip = 1; qi = ELFW(R_INFO)((uint64_t)attr0.dyn_index, R_X86_64_64); qa = A; } else { qi = R_X86_64_RELATIVE; qa = f64 + v; } }
        break;
    case R_X86_64_32: w = 4; v = S + A; check_fit = 1; if (dyn) { qn = 1; qi = R_X86_64_RELATIVE; qa = f32 + v; } break;
    case R_X86_64_32S: w = 4; v = S + A; check_fit = 2; if (dyn) { qn = 1; qi = R_X86_64_RELATIVE; qa = f32 + v; } break;
    case R_X86_64_PC32: w = 4; v = S + A - P; check_fit = 2;
        if (dll && dynsym) { qn = 1; skip = 1; qi = ELFW(R_INFO)((uint64_t)attr0.dyn_index, R_X86_64_PC32); qa = f32 + A; }
        break;
    case R_X86_64_PLT32: w = 4; v = S + A - P; check_fit = 2; break; /* L is the symbol's value by now */
    case R_X86_64_PC64: w = 8; v = S + A - P;
        if (dll && dynsym) { qn = 1; skip = 1; qi = ELFW(R_INFO)((uint64_t)attr0.dyn_index, R_X86_64_PC64); qa = f64 + A; }
        break;
    case R_X86_64_PLTOFF64: w = 8; v = S + A - GOT; break;
    case R_X86_64_GLOB_DAT: case R_X86_64_JUMP_SLOT: w = 8; v = S; set = 1; break;
    case R_X86_64_GOTPCREL: case R_X86_64_GOTPCRELX: case R_X86_64_REX_GOTPCRELX: w = 4; v = G + GOT + A - P; check_fit = 2; break;
    case R_X86_64_GOTPC32: w = 4; v = GOT + A - P; check_fit = 2; break;
    case R_X86_64_GOTPC64: w = 8; v = GOT + A - P; break;
    case R_X86_64_GOT32: w = 4; v = G + A; check_fit = 2; break;
    case R_X86_64_GOT64: w = 8; v = G + A; break;
    case R_X86_64_GOTOFF64: w = 8; v = S + A - GOT; break;
    case R_X86_64_GOTTPOFF: w = 4; v = fld(ptr, 4) - f32; break; /* field only; see DESIGN.md */
    case R_X86_64_DTPOFF32: case R_X86_64_TPOFF32: w = 4; v = S + A - sec->sh_addr - sec->data_offset; break;
    case R_X86_64_DTPOFF64: case R_X86_64_TPOFF64: w = 8; v = (int64_t)(int32_t)(S + A - sec->sh_addr - sec->data_offset); break;
    case R_X86_64_COPY: case R_X86_64_NONE: case R_X86_64_RELATIVE: default: w = 0; v = 0; break;
    }
    if (set) f32 = f64 = 0;
    if (skip) { v = 0; check_fit = 0; }
    if (w == 4) CHECK((uint32_t)fld(ptr, 4) == (uint32_t)(f32 + v), "field holds the ABI value");
    if (w == 8) CHECK(fld(ptr, 8) == f64 + v, "field holds the ABI value");
    for (int i = 0; i < N; i++) CHECK((i >= PRE && i < PRE + w) || buf[i] == old[i], "no byte outside the field changes");
    if (w) {
        int fits = check_fit == 1 ? v == (uint32_t)v : check_fit == 2 ? (int64_t)v == (int32_t)v : 1;
#if TYPE_CHECKED
        CHECK(fits || errors, "a value that does not fit is reported");
#elif !defined(NATIVE)
        CHECK(fits || errors, "unchecked field: a value that does not fit is reported");
#endif
        CHECK(!fits || !errors || (TYPE == R_X86_64_32 && (int64_t)v == (int32_t)v), "a value that fits is not an error");
    }
    CHECK(qrel == q + qn, "number of dynamic relocations written");
    if (qn) CHECK(q[0].r_offset == rel0[0].r_offset && q[0].r_info == qi && q[0].r_addend == qa, "dynamic relocation left for the loader");
    CHECK(q[1].r_offset == q0[1].r_offset && q[1].r_info == q0[1].r_info && q[1].r_addend == q0[1].r_addend && (qn || q[0].r_info == q0[0].r_info), "no other dynamic relocation is touched");
    CHECK(rel[0].r_info == rel0[0].r_info && rel[0].r_offset == rel0[0].r_offset && rel[0].r_addend == rel0[0].r_addend, "relocation entry is kept");
    CHECK(!attr_calls || attr_index == sym, "GOT and dynamic index of this symbol are used");
    CANARY("end");
}
#endif

#ifdef U_tls
/* general / local dynamic code sequences are rewritten to local exec (psABI TLS optimisation) */
enum { N = 48, PRE = 16 };
VS TCCState st;
VS Section symtab, secs[3], *sections[3];
VS ElfW(Sym) syms[4];
VS unsigned char buf[N], old[N];
static const unsigned char gd[16] = { 0x66, 0x48, 0x8d, 0x3d, 0, 0, 0, 0, 0x66, 0x66, 0x48, 0xe8, 0, 0, 0, 0 };
static const unsigned char gdx[12] = { 0x64, 0x48, 0x8b, 0x04, 0x25, 0, 0, 0, 0, 0x48, 0x8d, 0x80 };
static const unsigned char ld[12] = { 0x48, 0x8d, 0x3d, 0, 0, 0, 0, 0xe8, 0, 0, 0, 0 };
static const unsigned char ldx[12] = { 0x66, 0x66, 0x66, 0x64, 0x48, 0x8b, 0x04, 0x25, 0, 0, 0, 0 };
void harness(void)
{
    TCCState *s1 = &st;
    ElfW_Rel rel[2];
    rel[0].r_info = nondet_ulong(); uint64_t i1 = rel[1].r_info = nondet_ulong();
    int sym = ELFW(R_SYM)(rel[0].r_info);
    ASSUME(sym >= 0 && sym < 4);
    symtab_section = &symtab; symtab.data = (void *)syms; s1->sections = sections;
    for (int i = 0; i < 3; i++) { sections[i] = &secs[i]; secs[i].sh_addr = nondet_ulong(); secs[i].data_offset = nondet_ulong(); }
    for (int i = 0; i < 4; i++) { syms[i].st_shndx = nondet_ushort() % 3; syms[i].st_value = nondet_ulong(); }
    for (int i = 0; i < N; i++) { buf[i] = nondet_uchar(); old[i] = buf[i]; }
    int back = TYPE == R_X86_64_TLSGD ? 4 : 3, len = TYPE == R_X86_64_TLSGD ? 16 : 12;
    const unsigned char *pat = TYPE == R_X86_64_TLSGD ? gd : ld;
    int m = 1;
    for (int i = 0; i < len; i++) m = m && old[PRE - back + i] == pat[i];
    relocate(s1, rel, TYPE, buf + PRE, nondet_ulong(), nondet_ulong());
    Section *sec = &secs[syms[sym].st_shndx];
    uint32_t x = syms[sym].st_value - sec->sh_addr - sec->data_offset;
    unsigned char *b = buf + PRE - back;
    if (!m) { CHECK(errors == 1, "unexpected code sequence is an error"); for (int i = 0; i < N; i++) CHECK(buf[i] == old[i], "and is left alone"); CHECK(rel[1].r_info == i1, "next relocation kept"); CANARY("no match"); }
    else {
        CHECK(!errors, "no error");
        for (int i = 0; i < 12; i++) CHECK(b[i] == (TYPE == R_X86_64_TLSGD ? gdx[i] : ldx[i]), "local-exec instructions");
        if (TYPE == R_X86_64_TLSGD) for (int i = 0; i < 4; i++) CHECK(b[12 + i] == (unsigned char)(x >> (8 * i)), "thread-pointer offset of the symbol");
        for (int i = 0; i < N; i++) CHECK((i >= PRE - back && i < PRE - back + len) || buf[i] == old[i], "no byte outside the sequence changes");
        CHECK(ELFW(R_TYPE)(rel[1].r_info) == R_X86_64_NONE, "the call's own relocation is cancelled");
        CANARY("match");
    }
}
#endif

#ifdef U_plt
#undef malloc
/* relocate_plt, any number of slots: ghost slot g_k (byte offset), ghost byte g_b inside it */
VS TCCState st; static Section plt, gots, prel;
#define F32(p) (*(uint32_t *)(p))
void harness(void)
{
    TCCState *s1 = &st;
    unsigned n = nondet_uint(), k = nondet_uint();
    ASSUME(n < 0x100000);
#ifdef NMAX
    ASSUME(n <= NMAX);
#endif
    plt.data = malloc((size_t)n * 16); ASSUME(plt.data);
    plt.data_offset = (size_t)n * 16; plt.sh_addr = nondet_ulong(); gots.sh_addr = nondet_ulong();
    s1->plt = &plt; s1->got = &gots;
    plt.reloc = NULL;
    g_b = nondet_uint();
    ASSUME(g_b < 16);
    ASSUME(k < n);
    g_plt = plt.data; g_k = (size_t)k * 16; g_ob = g_plt[g_k + g_b]; g_f2 = F32(g_plt + g_k + 2);
    uint64_t here = plt.sh_addr + g_k;
    g_want2 = g_f2 + gots.sh_addr - (here + 6); /* relative to the next instruction */
    g_want8 = k == 0 ? F32(g_plt + 8) + gots.sh_addr - (plt.sh_addr + 12) : F32(g_plt + g_k + 8);
    relocate_plt(s1);
    CHECK(F32(g_plt + g_k + 2) == g_want2, "slot jumps through its GOT word");
    CHECK(F32(g_plt + g_k + 8) == g_want8, "first slot jumps through the resolver word, others keep these bytes");
    CHECK((g_b >= 2 && g_b < 6) || (g_b >= 8 && g_b < 12) || g_plt[g_k + g_b] == g_ob, "other bytes of the slot are kept");
    CANARY("end");
}
#endif

#ifdef U_pltrel
#undef malloc
/* lazy binding words of the GOT: word of the i-th PLT relocation points behind the jump of slot i+1 */
VS TCCState st; VS Section plt, gots, prel;
void harness(void)
{
    TCCState *s1 = &st;
    unsigned n = nondet_uint(), k = nondet_uint();
    ASSUME(n < 0x100000 && k < n);
#ifdef NMAX
    ASSUME(n <= NMAX);
#endif
    plt.data_offset = 0; plt.data = vf_buf(1); plt.sh_addr = nondet_ulong();
    prel.data_offset = (size_t)n * sizeof(ElfW_Rel); prel.data = vf_buf(prel.data_offset);
    g_gsz = nondet_size_t(); ASSUME(g_gsz < 0x10000000);
    gots.data = vf_buf(g_gsz);
    s1->plt = &plt; s1->got = &gots; plt.reloc = &prel;
    g_rel = (void *)prel.data; g_got = gots.data; g_r = k; g_n = n;
    g_w = g_rel[k].r_offset;
    g_b = nondet_size_t(); ASSUME(g_b < g_gsz); g_ob = g_got[g_b]; /* any byte of the table */
#ifdef NMAX
    for (unsigned i = 0; i < NMAX; i++) ASSUME(i >= n || PLTREL_PRE(i));
#endif
    ASSUME(PLTREL_PRE(k));
    g_gwant = (int64_t)(int)(plt.sh_addr + 16 + 6 + 16 * k); /* 32-bit arithmetic of the tool, sign-extended */
    relocate_plt(s1);
    CHECK(*(uint64_t *)(g_got + g_w) == g_gwant, "word of every PLT relocation points behind the jump of its slot");
    CANARY("end");
}
#endif
