"""Units over src/muntar.c shared by C04, C05, C06."""
from vf.engine import Unit
from vf.cparse import Cut
M = 'src/muntar.c'


def unit(name, fns, **k):
    k.setdefault('timeout', 300)
    k['defs'] = ['-DU_' + name] + list(k.get('defs', ()))
    return Unit(name, 'tar/tar.c', fns, **k)


def header():
    a = Cut('i <= 148 && g_i == i && res == 256 + g_sum', '148 - i', vars=['i', 'res', 'g_i', 'g_sum'], ghost='g_sum += p[g_i]; g_i++;', calls=['offsetof'])
    b = Cut('i >= 156 && i <= 512 && g_i == i && res == 256 + g_sum', '512 - i', vars=['i', 'res', 'g_i', 'g_sum'], ghost='g_sum += p[g_i]; g_i++;', calls=['offsetof'])
    b.entry = 'CHECK(g_i == 148, "every byte before the checksum field is summed"); g_i = 156;'
    return [unit('octal', ['decodeTarOctal'], unwind=14, native=dict(max_len=64)),
            unit('checksum', ['checksum'], unwind=3, loops={M: {'checksum': [a, b]}}, fallback=dict(unwind=520), native=dict(max_len=600), timeout=100),
            unit('header', ['raw_to_header'], unwind=160, removes={M: ['checksum', 'decodeTarOctal']}, native=dict(max_len=4000), canaries=2)]


def walk():
    W = [('load', ['mtar_load']), ('next', ['mtar_next']), ('rewind', ['mtar_rewind']), ('header', ['mtar_header', 'mtar_eof']), ('entry_read', ['mtar_entry_read']), ('entry_eof', ['mtar_entry_eof'])]
    R = []
    for i, (n, f) in enumerate(W):
        u = unit('walk1', f + ['mtar_seek', 'mtar_read', 'mtar_read_header'] * (i in (0, 1, 2, 4)), removes={M: ['raw_to_header']}, unwind=3, defs=['-DWHAT=%d' % i])
        u.name = 'walk.' + n
        u.solver = 'kissat'
        R.append(u)
    return R + [unit('targz', ['muntargz_to_path'], unwind=3, cbmc=['--malloc-may-fail', '--malloc-fail-null'],
                 removes={M: ['muntar_to_path']}), ] + unpack()


def unpack():
    INV = """tar.buffer == g_buf && tar.max == g_max && s_loaded && s_root == 1 && s_pass == %d && pathlen == g_dl && g_dl <= 100 && (g_k >= g_dl || tpath[g_k] == __CPROVER_uninterpreted_ch(0, 0, g_k)) &&
      s_mk == 0 && s_op == 0 && s_wr == 0 && s_cl == 0 && s_h_ == (const void *)&tar.iterator.header &&
      (tar.iterator.offset == UINT64_MAX ? res < 0 && s_end == res && s_fail == (res != MTAR_ENULLRECORD)
         : res == 0 && s_fail == 0 && g_max >= 512 && tar.iterator.offset <= g_max - 512 && tar.iterator.cursor == tar.iterator.offset + 512 && s_cur == tar.iterator.cursor && s_type == (int)tar.iterator.header.type && g_size == tar.iterator.header.size && tar.iterator.header.name[100] == 0 && tar.iterator.header.path[155] == 0 && s_sl <= 155 && s_nl <= 100 && tar.iterator.header.path[s_sl] == 0 && tar.iterator.header.name[s_nl] == 0 && (tar.iterator.header.path[0] == 0) == (s_sl == 0))"""
    C = [Cut(INV % n, 'tar.iterator.offset == UINT64_MAX ? 0 : 1 + g_max - tar.iterator.offset', vars='p header res s_type s_haspar_p s_haspar_n s_end s_fail s_cur g_size s_id s_sl s_nl'.split(), roots=['tar', 'tpath'],
             havoc='__CPROVER_havoc_object(tpath); __CPROVER_havoc_slice(&tar.iterator, sizeof tar.iterator); tar.position = nondet_size_t(); ASSUME(0 <= s_haspar_p && s_haspar_p <= 1);',
             calls='mtar_eof mtar_header mtar_next makedir mkdir has_parent_segment strlen strcpy fopen fprintf perror fwrite fclose'.split()) for n in (1, 2)]
    return [unit('parent', ['has_parent_segment'], unwind=160, native=dict(max_len=400)),
            unit('unpack', ['muntar_to_path'], unwind=160, loops={M: {'muntar_to_path': C}}, removes={M: ['mtar_load', 'mtar_next', 'mtar_rewind', 'has_parent_segment']}, canaries=2, timeout=500, solver='kissat', split=True)]
