from vf.engine import Unit
from vf.refute import Refuter
LEVEL = 'proof'
NOWRAP = ('--no-signed-overflow-check', '--no-undefined-shift-check', '--no-pointer-check', '--object-bits', '12')
OPS = {'add': "'+'", 'sub': "'-'", 'and': "'&'", 'xor': "'^'", 'or': "'|'", 'mul': "'*'",
       'div': "'/'", 'mod': "'%'", 'udiv': 'TOK_UDIV', 'umod': 'TOK_UMOD', 'pdiv': 'TOK_PDIV',
       'shl': 'TOK_SHL', 'shr': 'TOK_SHR', 'sar': 'TOK_SAR', 'eq': 'TOK_EQ', 'ne': 'TOK_NE',
       'ult': 'TOK_ULT', 'uge': 'TOK_UGE', 'ule': 'TOK_ULE', 'ugt': 'TOK_UGT',
       'lt': 'TOK_LT', 'ge': 'TOK_GE', 'le': 'TOK_LE', 'gt': 'TOK_GT', 'land': 'TOK_LAND', 'lor': 'TOK_LOR'}
HARD = {'div', 'mod', 'udiv', 'umod', 'pdiv', 'mul'}
RM = {'lib/tinycc/tccgen.c': ['gv', 'cast_error']}
UNITS = []
TYPES = {'i': 'VT_INT', 'u': 'VT_INT|VT_UNSIGNED', 'l': 'VT_LLONG', 'ul': 'VT_LLONG|VT_UNSIGNED|VT_LONG'}
RMS = {'lib/tinycc/tccgen.c': ['gv', 'cast_error', 'gen_opic_sdiv']}
UNITS.append(Unit('sdiv', 'C18/fold.c', ['gen_opic_sdiv'], defs=['-DU_sdiv', '-DUFORM'], cbmc=NOWRAP, unwind=3, removes=RM, solver='smt', timeout=200))
for n, o in OPS.items():
    if n in HARD:
        for tn, t in TYPES.items():
            if (n in ('div', 'mod', 'pdiv') and 'u' in tn) or (n in ('udiv', 'umod') and 'u' not in tn):
                continue
            sd = n in ('div', 'mod', 'pdiv')
            UNITS.append(Unit('const.%s.%s' % (n, tn), 'C18/fold.c', ['gen_opic'],
                              defs=['-DU_const', '-DOP=' + o, '-DTYPE=(%s)' % t] + (['-DSDIV_STUB'] if sd else ['-DUDIV'] if n == 'udiv' else []),
                              cbmc=NOWRAP, unwind=3, removes=RMS if sd else RM, solver='smt' if n == 'umod' else 'kissat', timeout=300))
    else:
        UNITS.append(Unit('const.' + n, 'C18/fold.c', ['gen_opic', 'gen_opic_lt'], defs=['-DU_const', '-DOP=' + o],
                          cbmc=NOWRAP, unwind=3, removes=RM, timeout=200))

for k, n in ((1, 'mulshl'), (2, 'divshr'), (3, 'divsar')):
    for tn, t in TYPES.items():
        if (k == 2) != ('u' in tn) and k != 1:
            continue
        UNITS.append(Unit('lemma.%s.%s' % (n, tn), 'C18/fold.c', ['(lemma)'], defs=['-DU_lemma=%d' % k, '-DTYPE=(%s)' % t], cbmc=NOWRAP, unwind=3, removes=RM, solver='kissat', timeout=200))
FOLDS = set('add sub and xor or mul div mod udiv umod pdiv shl shr sar'.split())
for n, o in OPS.items():
    if n in ('land', 'lor'):
        continue
    for left in (0, 1):
        if n == 'pdiv' and left:
            continue
        f = n in ((FOLDS - set(['pdiv'])) if not left else set('add xor or and mul shl shr sar'.split())) or n == 'pdiv'
        UNITS.append(Unit('simp.%s.%s' % (n, 'cx' if left else 'xc'), 'C18/fold.c', ['gen_opic'], defs=['-DU_simp', '-DOP=' + o, '-DLEFT=%d' % left] + (['-DFOLDS'] if f else []),
                          cbmc=NOWRAP, unwind=66, removes=RM, solver='kissat' if n in HARD else 'sat', canaries=2 if f else 1, timeout=150))
ALLT = {'c': 'VT_BYTE', 'uc': 'VT_BYTE|VT_UNSIGNED', 's': 'VT_SHORT', 'us': 'VT_SHORT|VT_UNSIGNED', 'bool': 'VT_BOOL', **TYPES}
for tn, t in ALLT.items():
    UNITS.append(Unit('castint.' + tn, 'C18/fold.c', ['gen_cast'], defs=['-DU_castint', '-DSRC=(%s)' % t], cbmc=NOWRAP, unwind=30, removes=RM, timeout=300))
RMO = {'lib/tinycc/tccgen.c': ['gv', 'cast_error', 'gen_opic']}
for n, o in OPS.items():
    if o.startswith("'") or n in ('shl', 'sar', 'eq', 'ne', 'lt', 'ge', 'le', 'gt'):
        for lo, hi in ((0, 3), (3, 6), (6, 9), (9, 11)):
            UNITS.append(Unit('genop.%s.%d' % (n, lo), 'C18/fold.c', ['gen_op', 'gen_cast_s', 'gen_cast', 'combine_types'], defs=['-DU_genop', '-DOP=' + o, '-DLO=%d' % lo, '-DHI=%d' % hi],
                              cbmc=NOWRAP, unwind=30, removes=RMO, timeout=300))

REFUTERS = [Refuter('compiler', 'C18/refute.c', seconds=40, max_len=16)]
TRUSTED = ['the back end (gen_opi, gen_opl) is replaced by its contract: the run-time operation on the two operands it is given',
           'gv, cast_error, _tcc_error are replaced by stubs stating when they may be called',
           'operand stack compiled with 15 slots instead of 512 (constant VSTACK_SIZE); no function verified here looks deeper than two operands',
           'wrap-around of signed arithmetic in the compiler itself is taken as defined']
EXPLANATION = ('gen_opic on two constants is specified per operator against C11 6.5 arithmetic on explicit widths (all operand bit patterns, all four operand types); '
  'on one constant operand against the value of whatever is left on the operand stack; gen_cast on constants for all pairs of integer types; gen_op for all pairs of integer types '
  'over the contract of gen_opic. Division is specified by its defining property q*b <= a < q*b+b. No loop is bounded: the loops met are unwound completely (64 shifts).')
