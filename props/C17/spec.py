from vf.engine import Unit
from vf.refute import Refuter
LEVEL = 'proof'
NOWRAP = ('--no-signed-overflow-check', '--no-undefined-shift-check')
T = [  # name, argument type, precondition, spec
    ('ffs', 'int', '1', 'x==0?0:spec_ctz((unsigned)x,32)+1'),
    ('ffsll', 'long long', '1', 'x==0?0:spec_ctz((unsigned long long)x,64)+1'),
    ('ffsl', 'long', '1', 'x==0?0:spec_ctz((unsigned long)x,64)+1'),
    ('clz', 'unsigned', 'x!=0', 'spec_clz(x,32)'),
    ('clzll', 'unsigned long long', 'x!=0', 'spec_clz(x,64)'),
    ('clzl', 'unsigned long', 'x!=0', 'spec_clz(x,64)'),
    ('ctz', 'unsigned', 'x!=0', 'spec_ctz(x,32)'),
    ('ctzll', 'unsigned long long', 'x!=0', 'spec_ctz(x,64)'),
    ('ctzl', 'unsigned long', 'x!=0', 'spec_ctz(x,64)'),
    ('clrsb', 'int', '1', 'spec_clrsb((unsigned)x,32)'),
    ('clrsbll', 'long long', '1', 'spec_clrsb((unsigned long long)x,64)'),
    ('clrsbl', 'long', '1', 'spec_clrsb((unsigned long)x,64)'),
    ('popcount', 'unsigned', '1', 'spec_pop(x,32)'),
    ('popcountll', 'unsigned long long', '1', 'spec_pop64(x)'),
    ('popcountl', 'unsigned long', '1', 'spec_pop64(x)'),
    ('parity', 'unsigned', '1', 'spec_pop(x,32)&1'),
    ('parityll', 'unsigned long long', '1', 'spec_pop(x,64)&1'),
    ('parityl', 'unsigned long', '1', 'spec_pop(x,64)&1'),
]
UNITS = []
for n, a, pre, spec in T:
    UNITS.append(Unit('bits.' + n, 'C17/bits.c', ['__builtin_' + n],
                      defs=['-DNAME=' + n, '-DARG=' + a, '-DPRE=(%s)' % pre, '-DSPEC=' + spec], unwind=66,
                      cbmc=NOWRAP, timeout=250))
for n in 'fixunssfdi fixsfdi fixunsdfdi fixdfdi fixunsxfdi floatundisf floatundidf floatundixf'.split():
    UNITS.append(Unit('conv.' + n, 'C17/conv.c', ['__' + n], defs=['-DU_' + n], cbmc=NOWRAP, timeout=250))
UNITS.append(Unit('conv.fixxfdi', 'C17/conv.c', ['__fixxfdi'], defs=['-DU_fixxfdi'], cbmc=NOWRAP, timeout=250,
                  removes={'lib/tinycc/lib/libtcc1.c': ['__fixunsxfdi']}))
for size, ty in ((1, 'unsigned char'), (2, 'unsigned short'), (4, 'unsigned int'), (8, 'unsigned long long')):
    for n, e, old in [('exchange', 'v', 1)] + [x for op, e in (('add', 'o+v'), ('sub', 'o-v'), ('and', 'o&v'), ('or', 'o|v'), ('xor', 'o^v'), ('nand', '~(o&v)'))
                                              for x in (('fetch_' + op, e, 1), (op + '_fetch', e, 0))]:
        UNITS.append(Unit('atomic.%s_%d' % (n, size), 'C17/atomic.c', ['__atomic_%s_%d' % (n, size)],
                          defs=['-D__TINYC__', '-DNAME=' + n, '-DSIZE=%d' % size, '-DTY=' + ty, '-DEXPR=' + e, '-DOLD=%d' % old],
                          unwind=4, cbmc=NOWRAP, timeout=100))
UNITS.append(Unit('vaarg', 'C17/vaarg.c', ['__va_arg'], cbmc=NOWRAP, canaries=3, nobody=('abort',)))

GCC = ['gcc', '-w', '-O1', '-g', '-fwrapv', '-c']
REFUTERS = [Refuter('native', 'C17/refute.c', seconds=25, max_len=8,
                    pre=[GCC + ['@W/lib/tinycc/lib/builtin.c', '-o', '@D/b.o'],
                         GCC + ['@W/lib/tinycc/lib/libtcc1.c', '-o', '@D/l.o'],
                         GCC + ['-include', '@V/props/C17/va_pre.h', '@W/lib/tinycc/lib/va_list.c', '-o', '@D/v.o'],
                         GCC + ['-D__TINYC__', '-include', '@V/props/C17/atomic_names.h', '@W/lib/tinycc/lib/stdatomic.c', '-o', '@D/a.o']],
                    link=['@D/b.o', '@D/l.o', '@D/v.o', '@D/a.o'])]
TRUSTED = ['lib/tinycc/lib/va_list.c is compiled with the va_list layout that lib/tinycc/include/tccdefs.h predefines (repeated in the harness)',
           'wrap-around of signed arithmetic inside the helpers is taken as defined (tcc compiles them so)',
           'the x87 80-bit format is represented by its mantissa and exponent words',
           'atomic helpers: the two intrinsics __atomic_load / __atomic_compare_exchange are assumed to meet their C11 contract; at most two interferences (the retry loop is memoryless); inline assembly cmpxchg bodies not under contract']
EXPLANATION = 'all helpers are loop-free; the specification loops run over the operand width and are unwound completely, so each unit is a proof over the full input domain'
