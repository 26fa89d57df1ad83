"""Units over src/tinflate.c and src/tinfgzip.c, shared by C01 (safety), C02, C03."""
from vf.engine import Unit
from vf.cparse import Cut
T = 'src/tinflate.c'
SAFE = ('--no-signed-overflow-check',)


def units(kind):
    """kind 'safety': memory safety, arithmetic, termination; 'func': functional contracts"""
    d = ['-DONLY_SAFETY'] if kind == 'safety' else []
    fl = () if kind == 'safety' else ('--no-standard-checks',)
    U = []

    def add(name, fns, **k):
        k['defs'] = ['-DU_' + name] + d + list(k.get('defs', ()))
        k['cbmc'] = fl + tuple(k.get('cbmc', ()))
        k.setdefault('timeout', 300)
        U.append(Unit(name, 'inf/inf.c', fns, **k))
    add('fixed', ['tinf_build_fixed_trees'], unwind=290, native=dict(max_len=8))
    ALL = ' && '.join('t->counts[%d] == cntC(%d, i)' % (l, l) for l in range(1, 16))
    STEP = ' && '.join('cntC(%d, i + 1) == cntC(%d, i) + (lengths[i] == %d)' % (l, l, l) for l in range(1, 16))
    BND = ' && '.join('cntC(%d, i) <= i' % l for l in range(1, 16))
    SUM = ' + '.join('cntC(%d, i)' % l for l in range(1, 16))
    L2 = Cut('i <= num && t->counts[0] == 0 && %s && %s && (%s) <= i && ((%s) == 0) == (t->max_sym == -1) && t->max_sym >= -1 && t->max_sym < (int)i && (t->max_sym < 0 || lengths[t->max_sym] != 0) && (g_k >= i || !g_l || t->max_sym >= (int)g_k)' % (ALL, BND, SUM, SUM),
             'num - i', vars=['i'], roots=['t'], havoc='__CPROVER_havoc_slice(t->counts, sizeof t->counts); t->max_sym = nondet_int();',
             inst='i >= num || (lengths[i] <= 15 && %s)' % STEP, calls=['assert'])
    START = ['0', '0'] + ['(' + '+'.join('t->counts[%d]' % m for m in range(1, l)) + ')' for l in range(2, 16)]
    OFFS = ' && '.join('offs[%d] == %s + cntC(%d, i)' % (l, START[l], l) for l in range(1, 16))
    MONO = ' && '.join('cntC(%d, i + 1) <= cntC(%d, num)' % (l, l) for l in range(1, 16))
    for gl in [None] + list(range(1, 16)):
        # obligations about the place of a symbol: one unit per code length of that (ghost) symbol; all others: first unit
        L4 = Cut('i <= num && %s && %s' % (OFFS, '(g_k >= i || t->symbols[%s + g_pos] == g_k)' % START[gl] if gl else '1'), 'num - i', vars=['i'], roots=['t', 'offs'],
                 havoc='__CPROVER_havoc_object(offs); __CPROVER_havoc_slice(t->symbols, sizeof t->symbols);', calls=['assert'],
                 inst='%s && (i >= num || (lengths[i] <= 15 && %s && %s%s))' % (BND, STEP, MONO, ' && (g_k >= i || cntC(%d, i) >= g_pos + 1)' % gl if gl else ''))
        add('tree', ['tinf_build_tree'], unwind=17, unwindset=['harness.0:321'], loops={T: {'tinf_build_tree': [None, L2, None, L4]}}, canaries=2,
            fallback=dict(unwind=17, defs=['-DNUM=5', '-DPLACE'], unwindset=['harness.0:321']) if not gl else None, native=None if gl else dict(max_len=400, flags=['-DPLACE']), timeout=500,
            solver='kissat', defs=['-DGL=%d' % gl, '-DPLACE'] if gl else [], split=not gl or kind == 'func', select='^loop 1 inv|place of its' if gl else None,
            assumes=['lemma: a count of equal code lengths over a prefix is at most the count over the whole list (monotonicity), instantiated'])
        U[-1].name = 'tree.len%d' % gl if gl else 'tree'
        if gl and kind != 'func':
            U.pop()
    add('bits', ['tinf_getbits_base', 'tinf_getbits', 'tinf_getbits_no_refill', 'tinf_refill'], unwind=14, native=dict(max_len=64))
    SY = Cut('len >= 1 && len <= 15 && len <= WANT && nbits == len - 1 && base == S[len - 1] && offs == O[len - 1] && offs >= 0 && offs < A[len - 1]', '16 - len',
             vars='base offs len nbits'.split(), calls=['assert', 'tinf_getbits'])
    add('symbol', ['tinf_decode_symbol'], unwind=17, unwindset=['harness.2:289'], removes={T: ['tinf_getbits']}, native=dict(max_len=1000),
        loops={T: {'tinf_decode_symbol': [SY]}}, fallback=dict(unwind=17, unwindset=['harness.2:289']), solver='kissat')
    CP = Cut("""length <= g_num && __CPROVER_same_object(d->dest, g_buf) && __CPROVER_same_object(d->source, g_src)
       && __CPROVER_POINTER_OFFSET(d->dest) == g_pos + (g_num - length) && __CPROVER_POINTER_OFFSET(d->source) == g_l + (g_num - length)
       && g_buf[g_k] == (g_k >= g_pos && g_k < g_pos + (g_num - length) ? g_src[g_l + g_k - g_pos] : g_old)""", 'length', vars=['length'], roots=['d'],
             havoc='d->dest = g_buf + nondet_size_t(); d->source = g_src + nondet_size_t();', objs=['g_buf'])
    add('stored', ['tinf_inflate_uncompressed_block', 'read_le16'], unwind=3, loops={T: {'tinf_inflate_uncompressed_block': [CP]}},
        fallback=dict(unwind=13), native=dict(max_len=64))
    OUT = Cut("""s_ph == 0 && __CPROVER_same_object(d->dest, g_buf) && __CPROVER_POINTER_OFFSET(d->dest) <= g_n && __CPROVER_POINTER_OFFSET(d->dest) >= g_pos
       && (g_l >= g_pos || g_buf[g_l] == g_old)""", None, roots=['d'], vars=['s_ph'], objs=['g_buf'], ghost='ITER_END(); s_ph = 0;',
              havoc='d->dest = g_buf + nondet_size_t(); d->overflow = nondet_bool();', calls='tinf_decode_symbol tinf_getbits_base'.split())
    INN = Cut("""i >= 0 && i <= length && (g_k >= (unsigned)i || d->dest[g_k] == d->dest[(long)g_k - offs]) && (g_l >= __CPROVER_POINTER_OFFSET(d->dest) || g_buf[g_l] == g_old)""",
              'length - i', vars=['i'], roots=['d'], objs=['g_buf'])
    add('block', ['tinf_inflate_block_data'], unwind=3, loops={T: {'tinf_inflate_block_data': [OUT, INN]}}, removes={T: ['tinf_decode_symbol', 'tinf_getbits_base']},
        canaries=5)
    EXP = Cut("""num <= hlit + hdist && s_ph == 0 && s_tree == 1 && s_call >= 3 && s_call <= 4 && hlit == s_hlit && hdist == s_hdist && (hlit <= 286) && hdist <= 30 &&  (g_k >= num || lengths[g_k] <= 15)""",
              None, vars='num length i s_ph s_sym s_rep s_call'.split(), roots=['lengths'], objs=['lengths'], calls='tinf_decode_symbol tinf_getbits_base'.split(),
              ghost='ITER_END(num, lengths);')
    EXP.after = 'g_num0 = num; g_v0 = num ? lengths[num - 1] : 0; g_old = lengths[g_k];'
    EXP.inst = 'num == 0 || lengths[num - 1] <= 15'
    REP = Cut("""length <= s_rep && num == g_num0 + (s_rep - length) && (g_k < g_num0 ? lengths[g_k] == g_old : g_k >= num || lengths[g_k] == sym) && (s_sym != 16 || g_num0 == 0 || sym == g_v0) """,
              'length', vars=['length', 'num'], roots=['lengths'], objs=['lengths'])
    add('trees', ['tinf_decode_trees'], unwind=20, loops={T: {'tinf_decode_trees': [None, None, EXP, REP]}},
        removes={T: ['tinf_decode_symbol', 'tinf_getbits_base', 'tinf_getbits', 'tinf_build_tree']}, canaries=2, timeout=500)
    MAIN = Cut("""(s_ph == 0 || (s_ph == 3 && s_r == 0)) && __CPROVER_same_object(d.dest, m_dst) && __CPROVER_same_object(d.source, m_src) &&
       __CPROVER_POINTER_OFFSET(d.dest) <= m_n && __CPROVER_POINTER_OFFSET(d.source) <= g_n && d.dest_start == m_dst && d.dest_end == m_dst + m_n && d.source_end == m_src + g_n""", None,
       vars=['bfinal'], roots=['d', 'res'], havoc='d.dest = m_dst + nondet_size_t(); d.source = m_src + nondet_size_t(); d.overflow = nondet_bool(); d.tag = nondet_uint(); d.bitcount = nondet_int(); s_ph = 0;',
       calls='tinf_getbits tinf_inflate_uncompressed_block tinf_inflate_fixed_block tinf_inflate_dynamic_block'.split(),
       ghost='CHECK(!s_fin, "stops after the final block"); s_ph = 0;')
    add('main', ['tinf_uncompress'], unwind=3, loops={T: {'tinf_uncompress': [MAIN]}},
        removes={T: ['tinf_getbits', 'tinf_inflate_uncompressed_block', 'tinf_inflate_fixed_block', 'tinf_inflate_dynamic_block']})
    return U


G = 'src/tinfgzip.c'


def gz_units(kind):
    d = ['-DONLY_SAFETY'] if kind == 'safety' else []
    fl = () if kind == 'safety' else ('--no-standard-checks',)
    CRC = Cut('i <= length && crc == g_crc', 'length - i', vars=['i', 'crc', 'g_crc'], ghost='g_crc = spec_crc(g_crc, buf[i - 1]);')
    U = [Unit('crc', 'inf/gz.c', ['tinf_crc32'], defs=['-DU_crc'] + d, cbmc=fl, unwind=9, loops={G: {'tinf_crc32': [CRC]}},
              fallback=dict(unwind=9), native=dict(max_len=64), timeout=200)]

    def scan(n):
        c = Cut('__CPROVER_same_object(start, src) && __CPROVER_POINTER_OFFSET(start) <= sourceLen && __CPROVER_POINTER_OFFSET(start) >= g_e%d && (g_k < g_e%d || g_k >= __CPROVER_POINTER_OFFSET(start) || src[g_k] != 0)' % (n, n),
                'sourceLen - __CPROVER_POINTER_OFFSET(start)', ptrs={'start': 'src'})
        c.entry = 'g_e%d = __CPROVER_POINTER_OFFSET(start);' % n
        c.after = 'g_p%d = __CPROVER_POINTER_OFFSET(start);' % n
        return c
    # the checks after the header test the bounds explicitly; pointer arithmetic stays inside the buffer
    U.append(Unit('gzip', 'inf/gz.c', ['tinf_gzip_uncompress', 'read_le16', 'read_le32'], defs=['-DU_gzip'] + d, cbmc=fl, unwind=3,
                  loops={G: {'tinf_gzip_uncompress': [scan(1), scan(2)]}}, removes={G: ['tinf_crc32']}, fallback=dict(unwind=28),
                  canaries=1 if kind == 'safety' else 7, timeout=300))
    return U
