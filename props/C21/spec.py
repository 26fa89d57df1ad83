from vf.engine import Unit
from vf.cparse import Cut
from vf.refute import Refuter
LEVEL = 'proof'
E_ = 'lib/tinycc/tccelf.c'
FL = ['--no-signed-overflow-check']
UNITS = []
QUICK = (0, 1, 3, 8, 20)


def unit(name, fns, rm=(), cut=None, nb=None, res=None, **k):
    if nb is None and name in ('find', 'put', 'rebuild'):
        for i in range(0, 22):
            unit(name, fns, rm, cut, nb=i, **k)
            UNITS[-1].thorough_only = i not in QUICK
        return
    k.setdefault('unwind', 3)
    k.setdefault('solver', 'kissat' if name in ('find', 'put', 'rebuild') else 'sat')
    k.setdefault('timeout', 300)
    k.setdefault('fallback', dict(unwind=8))
    UNITS.append(Unit(name + ('' if nb is None else '.%d' % nb) + ('' if res is None else '.%d' % res), 'C21/sym.c', fns, defs=['-DU_' + name] + ([] if nb is None else ['-DNB=(1<<%d)' % nb]) + ([] if res is None else ['-DRES=%d' % res]) + ['-DRM_%s=1' % r for r in rm], removes={E_: list(rm)} if rm else {}, loops={E_: cut} if cut else {}, **k))


SY = '__CPROVER_same_object(sym, g_s.data) && __CPROVER_POINTER_OFFSET(sym) == 24 * (size_t)g_at && g_at >= 1 && g_at <= g_n'
unit('hash', ['elf_hash'], cut={'elf_hash': [Cut('__CPROVER_same_object(name, g_q) && __CPROVER_POINTER_OFFSET(name) <= g_len && h == HSEQ(__CPROVER_POINTER_OFFSET(name))', 'g_len - __CPROVER_POINTER_OFFSET(name)',
     vars=['h', 'g'], ptrs={'name': 'g_q'}, inst='__CPROVER_POINTER_OFFSET(name) >= g_len || (*name && HSPEC(__CPROVER_POINTER_OFFSET(name)))')]})
FC = Cut('LAST(sym_index, g_n, g_h, g_k, NB) || (sym_index >= 0 && sym_index < g_n && IMPLIES(sym_index > 0, GLOB(sym_index) && BK(sym_index, NB) == g_h) && IMPLIES(GLOB(g_k) && IDOF(g_k) == g_id, sym_index >= g_k))', '(long)sym_index',
     vars=['sym_index'], ptrs={'sym': '((SYM *)g_s.data)', 'name1': '((const char *)g_str.data)'}, inst='CHAIN(sym_index)', calls=['ElfW', 'strcmp'])
unit('find', ['find_elf_sym'], ['elf_hash'], {'find_elf_sym': [FC]}, canaries=3)
unit('put', ['put_elf_sym'], ['elf_hash', 'section_ptr_add', 'put_elf_str', 'rebuild_hash'], canaries=3)
unit('rebuild', ['rebuild_hash'], ['elf_hash', 'section_ptr_add'], {'rebuild_hash': [Cut('''sym_index >= 1 && sym_index <= g_n && __CPROVER_same_object(sym, g_s.data) && __CPROVER_POINTER_OFFSET(sym) == 24 * (size_t)sym_index
     && __CPROVER_same_object(ptr, g_hs.data) && __CPROVER_POINTER_OFFSET(ptr) == 4 * (size_t)(2 + NB + sym_index) && HASHW[0] == NB && HASHW[1] == g_n && LAST(HEAD(g_b), sym_index, g_b, g_k, NB)
     && IMPLIES(g_i < sym_index && GLOB(g_i) && BK(g_i, NB) == g_b, LAST(LINK(g_i), g_i, g_b, g_k, NB))''', 'g_n - sym_index', vars=['sym_index', 'h'], ptrs={'sym': '((SYM *)g_s.data)', 'ptr': '((int *)g_hs.data)'}, objs=['g_hs.data'],
     roots=['hash'], inst='IDX(sym_index)', calls=['elf_hash', 'ELFW', 'ST_BIND'])]}, canaries=2)
unit('init', ['init_symtab'], ['section_ptr_add', 'put_elf_str'], unwind=26)
unit('set', ['set_elf_sym'], ['find_elf_sym', 'put_elf_sym'], canaries=13)
unit('addr', ['get_sym_addr'], ['find_elf_sym'], canaries=2)
unit('common', timeout=600, fns=['resolve_common_syms'], rm=['section_add', 'tcc_add_linker_symbols'], cut={'resolve_common_syms': [Cut(SY + ' && g_w == (g_at > g_k && g_old.st_shndx == SHN_COMMON) && SYMS(g_k).st_size == g_old.st_size && SYMS(g_k).st_info == g_old.st_info && SYMS(g_k).st_name == g_old.st_name && SYMS(g_k).st_other == g_old.st_other'
     ' && SYMS(g_k).st_shndx == (g_w ? g_bss.sh_num : g_old.st_shndx) && SYMS(g_k).st_value == (g_w ? g_off : g_old.st_value)', 'g_n - g_at', vars=['g_at', 'g_w', 'g_off', 'g_end'], ptrs={'sym': '((SYM *)g_s.data)'}, objs=['g_s.data'], calls=['section_add', 'ElfW', 'bss_section', 'symtab_section'], ghost='g_at++;')]}, canaries=2)
unit('relsyms', ['relocate_syms'], ['find_elf_sym'], canaries=4, unwind=6, solver='sat', bounded='at most 3 symbols, 3 sections')
TRUSTED = ['strings are compared through identities: two strings are equal exactly when their identities are, and equal strings hash alike (unit hash proves that the hash depends on the bytes only)',
           'section growth and string table contracts are those proved by C20']
EXPLANATION = 'the index is characterised at arbitrary tracked entries and buckets; any number of symbols, buckets and histories (each operation preserves the representation invariant)'
ASSUMPTIONS = ['symbol binding is local, global or weak', 'fewer than 4 million symbols', 'the number of buckets is a power of two (put: from 1 by doubling), each up to 2^21 separately; the quick tier proves 5 of the 22']
TECHNIQUE = 'function contracts and representation invariants on the real tccelf.c, discharged by CBMC (SAT)'


def _seeds(d, seed):
    import random
    r = random.Random(seed)
    for i in range(12):
        open('%s/s%d' % (d, i), 'wb').write(bytes(r.randrange(256) for _ in range(60 * (i + 1))))


REFUTERS = [Refuter('symbol table of the real linker against a reference model', 'C21/refute.c', seconds=60, max_len=2400, seeds=_seeds)]
