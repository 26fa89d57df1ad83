from vf.engine import Unit
from vf.cparse import Cut
LEVEL = 'proof'
E_ = 'lib/tinycc/tccelf.c'
FL = ['--no-signed-overflow-check']
UNITS = []


def unit(name, c, fns, src=None, removes=(), nat=True, **k):
    k['defs'] = ['-DU_' + name] + list(k.get('defs', ()))
    if name == 'default':
        k['native'] = None
    k.setdefault('unwind', 3)
    k.setdefault('timeout', 250)
    k.setdefault('fallback', dict(unwind=42))
    if nat:
        k.setdefault('native', dict(max_len=400))
    if removes:
        k['removes'] = {src: list(removes)}
    UNITS.append(Unit(c.split('.')[0] + '.' + name, 'C20/' + c, fns, **k))


grow = Cut('size >= 1 && size >= g_old && (size <= 1 || size == g_old || size < 2 * g_new)', '(long)g_new - (long)size', vars=['size'])
unit('realloc', 'sec.c', ['section_realloc'], canaries=2, loops={E_: {'section_realloc': [grow]}})
unit('add', 'sec.c', ['section_add'], E_, ['section_realloc'], canaries=2)
unit('ptr', 'sec.c', ['section_ptr_add', 'section_add'], E_, ['section_realloc'])
unit('reserve', 'sec.c', ['section_reserve'], E_, ['section_realloc'])
unit('put_str', 'sec.c', ['put_elf_str'], E_, ['section_ptr_add'])
unit('reloca', 'sec.c', ['put_elf_reloca', 'put_elf_reloc'], E_, ['section_ptr_add', 'new_section'], canaries=2)
unit('new', 'sec.c', ['new_section'], canaries=2)
n2 = Cut('n >= 1 && n <= (1 << 29) && (n == 1 || n / 2 <= index)', '(long)index + 1 - n', vars=['n'])
unit('attr', 'sec.c', ['get_sym_attr'], canaries=2, loops={E_: {'get_sym_attr': [n2]}})
P_ = 'lib/tinycc/tccpp.c'


def pp(name, fns, rm=(), **k):
    unit(name, 'cstr.c', fns, P_, rm, defs=['-DRM_%s=1' % r for r in rm], **k)


pp('realloc', ['cstr_realloc'], loops={P_: {'cstr_realloc': [Cut('size >= 8 && size >= g_old && (size <= 8 || size == g_old || size < 2 * g_new)', '(long)g_new - (long)size', vars=['size'])]}})
R1, R2, R3 = ['cstr_realloc'], ['tok_str_realloc'], ['tal_realloc_impl']
pp('ccat', ['cstr_ccat'], R1)
pp('wccat', ['cstr_wccat'], R1, unwind=6)
pp('cat', ['cstr_cat'], R1)
pp('vprintf', ['cstr_vprintf'], R1, loops={P_: {'cstr_vprintf': [Cut('cstr->size == (int)g_old && cstr->size_allocated >= cstr->size && cstr->size_allocated <= (1 << 30) && (!cstr->size_allocated || (W_OK(cstr->data, cstr->size_allocated) && __CPROVER_POINTER_OFFSET(cstr->data) == 0)) && g_blk == (void *)cstr->data && g_blksz == (size_t)cstr->size_allocated && size >= 80 && size <= (1 << 29) && (size == 80 || size <= 2 * g_len) && (!(g_t < g_old) || cstr->data[g_t] == (char)g_new)',
   None, vars=['size', 'len', 'g_tries', 'g_reallocs', 'g_blk', 'g_blksz'], roots=['cstr', 'v'], calls=['cstr_realloc', 'vsnprintf', 'va_copy', 'va_end'], havoc='cstr->size_allocated = nondet_int(); cstr->data = 0;')]}})
pp('misc', ['cstr_reset', 'cstr_free'])
pp('tok_realloc', ['tok_str_realloc'], R3, canaries=2, loops={P_: {'tok_str_realloc': [Cut('size >= 16 && size >= g_old && (size <= 16 || size == g_old || size < 2 * g_new)', '(long)g_new - (long)size', vars=['size'])]}})
pp('tok_add', ['tok_str_add'], R2)
pp('tok_add2', ['tok_str_add2'], R2, canaries=2, unwind=6)
pp('tok_alloc', ['tok_alloc_new'], R3)
L_ = 'lib/tinycc/libtcc.c'


def lt(name, fns, rm=(), **k):
    unit(name, 'dyn.c', fns, L_, rm, defs=['-DRM_%s=1' % r for r in rm], **k)


lt('add', ['dynarray_add'], ['tcc_realloc'])
lt('reset', ['dynarray_reset'], ['tcc_free'], loops={L_: {'dynarray_reset': [Cut('__CPROVER_same_object(p, g_base) && g_i <= g_N && *n == (int)(g_N - g_i) && __CPROVER_POINTER_OFFSET(p) == 8 * g_i && g_nfree == (g_i > g_t && g_v) && g_hit == 0',
  'g_N - g_i', vars=['g_i', 'g_nfree', 'g_hit'], ptrs={'p': '((void **)g_base)'}, roots=['n'], calls=['tcc_free'], havoc='*n = nondet_int();', inst='g_i >= g_N || ((void **)g_base)[g_i] != g_base', ghost='g_i++;')]}},  fallback=dict(unwind=8))
lt('pstrcpy', ['pstrcpy'], canaries=2, loops={L_: {'pstrcpy': [Cut('__CPROVER_same_object(q, g_q) && __CPROVER_same_object(q_end, g_q) && __CPROVER_POINTER_OFFSET(q_end) == g_N - 1 && __CPROVER_same_object(s, g_str) && __CPROVER_POINTER_OFFSET(s) == __CPROVER_POINTER_OFFSET(q) && __CPROVER_POINTER_OFFSET(q) <= g_N - 1 && __CPROVER_POINTER_OFFSET(q) <= g_n && (g_t >= __CPROVER_POINTER_OFFSET(q) || g_q[g_t] == g_str[g_t])',
   '__CPROVER_POINTER_OFFSET(q_end) - __CPROVER_POINTER_OFFSET(q)', vars=['c'], ptrs={'q': 'g_q', 's': 'g_str'}, objs=['g_q'], inst='__CPROVER_POINTER_OFFSET(s) >= g_n || *s != 0')]}})
lt('pstrcat', ['pstrcat'], ['pstrcpy'])
lt('pstrncpy', ['pstrncpy'])
lt('strdup', ['tcc_strdup'], ['tcc_malloc'])
lt('mallocz', ['tcc_mallocz'], ['tcc_malloc'])
lt('default', ['default_reallocator'], canaries=2, nat=False, cbmc=['--malloc-may-fail', '--malloc-fail-null'])
TRUSTED = ['realloc/calloc give the announced number of bytes and keep the old ones (allocation failure ends the process inside the real reallocator, unit dyn.reallocator)',
           'memset, memmove, memcpy, strlen, strcpy behave as the C library documents (followed at one arbitrary byte)']
EXPLANATION = 'facts about every byte of a buffer are proved at one arbitrary tracked byte; growth loops by inductive cuts; no bound on the number of operations (each operation preserves the representation invariant)'
ASSUMPTIONS = ['buffers stay below 2 GiB (int sizes in the code)', 'alignments are powers of two']
TECHNIQUE = 'function contracts and representation invariants on the real tccelf.c, tccpp.c and libtcc.c, discharged by CBMC (SAT)'
