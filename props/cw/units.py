"""Units over src/cwalk.c shared by C07 and C08."""
from vf.engine import Unit
from vf.cparse import Cut
M = 'src/cwalk.c'
SEP = 'cwk_path_is_separator'
G = lambda p: '(%s >= g_s && IDX(%s) <= g_n)' % (p, p)


def unit(name, fns, what=None, removes=(), **k):
    k.setdefault('timeout', 200)
    k['defs'] = ['-DU_' + name] + (['-DWHAT=%d' % what] if what is not None else []) + list(k.get('defs', ()))
    if removes:
        k['removes'] = {M: list(removes)}
    k.setdefault('unwind', 5)
    k.setdefault('fallback', dict(unwind=14))
    nm = k.pop('nm', name)
    u = Unit(name, 'cw/cw.c', fns, **k)
    u.name = nm
    return u


def segments():
    nxt = Cut('%s && IDX(c) >= g_o && (!IN(g_o, IDX(c)) || !STOP(g_s[g_t]))' % G('c'), 'g_n - IDX(c)', roots=['c'], havoc='c = g_s + vf_range(0, g_n);', calls=[SEP])
    prv = Cut('%s && IDX(c) >= g_o && begin == g_s + g_o && IDX(c) <= IDX(vf_c0) && (!IN(IDX(c) + 1, IDX(vf_c0) + 1) || !SEP(g_s[g_t]))' % G('c'), 'IDX(c)', roots=['c'], havoc='c = g_s + vf_range(0, g_n);', calls=[SEP])
    prv.inv = prv.inv.replace('IDX(vf_c0)', 'g_k')
    fst = Cut('%s && IDX(segments) >= g_o && (!IN(g_o, IDX(segments)) || SEP(g_s[g_t])) && *segments != 0' % G('segments'), 'g_n - IDX(segments)', roots=['segments'], havoc='segments = g_s + vf_range(0, g_n);',
              calls=[SEP], inst='NN(segments) && NN(segments + 1)')
    nx = Cut('%s && IDX(c) >= g_o && IDX(c) < g_n && SEP(*c) && (!IN(g_o, IDX(c) + 1) || SEP(g_s[g_t]))' % G('c'), 'g_n - IDX(c)', roots=['c'], havoc='c = g_s + vf_range(0, g_n);', calls=[SEP], inst='NN(c) && NN(c + 1)')
    pv = Cut('c >= segment->segments && IDX(c) <= g_b0 && segment->segments == g_s + g_o && (!IN(IDX(c), g_b0) || SEP(g_s[g_t]))', 'IDX(c)', roots=['c'], havoc='c = g_s + vf_range(0, g_n);', calls=[SEP], inst='(IDX(c) == 0 || NN(c - 1))')
    lst = Cut('seg_ok(segment) && segment->segments == g_s + s_from && s_fin == 0', 'g_n - IDX(segment->end)', roots=['segment'], havoc='__CPROVER_havoc_slice(segment, sizeof *segment);', calls=['cwk_path_get_next_segment'])
    lst.havoc = 'segment->begin = g_s + vf_range(0, g_n); segment->end = g_s + vf_range(0, g_n); segment->size = nondet_size_t();'
    win = Cut('%s && IDX(c) >= s_res[0] && s_n == 1 && (!IN(s_res[0], IDX(c)) || SEP(g_s[g_t]))' % G('c'), 'g_n - IDX(c)', roots=['c'], havoc='c = g_s + vf_range(0, g_n);', calls=[SEP])
    ext = Cut('%s && IDX(c) + 1 >= IDX(segment.begin) && IDX(c) <= IDX(segment.end) && (!IN(IDX(c) + 1, IDX(segment.end)) || g_s[g_t] != 46)' % G('c'), None, roots=['c'], havoc='c = g_s + vf_range(0, g_n);')
    ext.inv = 'g_e <= IDX(segment.end) - IDX(segment.begin) + 1 && c == segment.end - g_e && (!IN(IDX(segment.end) - g_e + 1, IDX(segment.end)) || g_s[g_t] != 46)'
    ext.vars = ['g_e']
    ext.ptrs = {}
    ext.havoc = 'c = segment.end - g_e;'
    ext.roots = {'c', 'extension', 'length'}
    ext.ghost = 'g_e++;'
    ext.dec = 'IDX(segment.end) - IDX(segment.begin) + 1 - g_e'
    N = ['cwk_path_find_next_stop']
    return [unit('sep', [SEP, 'cwk_path_set_style', 'cwk_path_get_style']),
            unit('nextstop', N, loops={M: {N[0]: [nxt]}}),
            unit('prevstop', ['cwk_path_find_previous_stop'], loops={M: {'cwk_path_find_previous_stop': [prv]}}),
            unit('firstwr', ['cwk_path_get_first_segment_without_root'], removes=N, loops={M: {'cwk_path_get_first_segment_without_root': [fst]}}, canaries=2),
            unit('next', ['cwk_path_get_next_segment'], removes=N, loops={M: {'cwk_path_get_next_segment': [nx]}}, canaries=2),
            unit('prev', defs=['-DBEFORE1'], fns=['cwk_path_get_previous_segment'], removes=['cwk_path_find_previous_stop'], loops={M: {'cwk_path_get_previous_segment': [pv]}}, canaries=2),
            unit('last', ['cwk_path_get_last_segment'], 0, removes=['cwk_path_get_first_segment_without_root', 'cwk_path_get_first_segment', 'cwk_path_get_next_segment'], loops={M: {'cwk_path_get_last_segment': [lst]}}, canaries=2),
            unit('last', ['cwk_path_get_last_segment_without_root'], 1, nm='last.norooot', removes=['cwk_path_get_first_segment_without_root', 'cwk_path_get_root', 'cwk_path_get_next_segment'], loops={M: {'cwk_path_get_last_segment_without_root': [lst]}}, canaries=2),
            unit('last', ['cwk_path_get_first_segment'], 2, nm='first', removes=['cwk_path_get_first_segment_without_root', 'cwk_path_get_root', 'cwk_path_get_next_segment'], canaries=2),
            unit('rootunix', ['cwk_path_get_root', 'cwk_path_get_root_unix']),
            unit('rootwin', ['cwk_path_get_root', 'cwk_path_get_root_windows'], removes=N, loops={M: {'cwk_path_get_root_windows': [win]}}, canaries=4),
            unit('type', ['cwk_path_get_segment_type']),
            unit('query', ['cwk_path_get_basename'], 0, nm='basename', removes=['cwk_path_get_last_segment', 'cwk_path_get_root']),
            unit('query', ['cwk_path_get_dirname'], 1, nm='dirname', removes=['cwk_path_get_last_segment', 'cwk_path_get_root']),
            unit('query', ['cwk_path_get_extension'], 2, defs=['-DBEFORE1'], nm='extension', removes=['cwk_path_get_last_segment', 'cwk_path_get_root'], loops={M: {'cwk_path_get_extension': [ext]}}, canaries=2),
            unit('query', ['cwk_path_is_absolute', 'cwk_path_is_relative', 'cwk_path_is_root_absolute'], 3, nm='absolute', removes=['cwk_path_get_last_segment', 'cwk_path_get_root'])]


def output():
    O = 'cwk_path_output_'
    P = [O + x for x in ('sized', 'current', 'back', 'separator', 'dot')] + ['cwk_path_output', 'cwk_path_terminate_output']
    R = [unit('out', [f], i, nm='out.' + f[9:]) for i, f in enumerate(P)]
    fix = Cut('i <= length && length <= g_n && buffer == g_s && (g_o < length ? g_s[g_o] == (g_o < i && SEP(g_c0) ? 92 : g_c0) : g_s[g_o] == g_c0) && g_win', 'length - i', vars=['i'], objs=['buffer'], roots=['buffer'], calls=[SEP])
    R.append(unit('fixroot', ['cwk_path_fix_root'], loops={M: {'cwk_path_fix_root': [fix]}}))
    jn = Cut('j_cur && j_rem == -1 && j_out == 0 && j_sep == 0 && !j_end && !j_first && has_segment_output == j_any && pos == g_pos && s_n == 2 && !s_term && sj.segment.begin == j_beg && sj.segment.size == j_size && j_size >= 1 && paths == g_paths && buffer == g_buf && buffer_size == g_bs && absolute == j_absolute && (j_any ? g_pos > 0 : g_pos == s_rootlen)',
             None, vars='has_segment_output pos j_any g_pos j_beg j_size'.split(), roots=['sj'], havoc='VF_FILL(sj); ASSUME(j_any == 0 || j_any == 1);',
             calls='cwk_path_segment_will_be_removed cwk_path_output_separator cwk_path_output_sized cwk_path_get_next_segment_joined'.split())
    R.append(unit('join', ['cwk_path_join_and_normalize_multiple', 'cwk_path_join_multiple'], loops={M: {'cwk_path_join_and_normalize_multiple': [jn]}}, canaries=2,
                  removes='cwk_path_get_first_segment cwk_path_get_first_segment_joined cwk_path_get_next_segment_joined cwk_path_segment_will_be_removed cwk_path_fix_root cwk_path_output_separator cwk_path_output_sized cwk_path_output_current cwk_path_terminate_output cwk_path_get_root cwk_path_is_root_absolute'.split()))
    RC = 'cnt[0] == 0 && cnt[1] == 0 && w_t == 0 && pos == g_pos && has_output == j_any && (j_any ? g_pos >= 2 : g_pos == 0) && !s_term && w_exp == 1 && jp[0] == &bsj && jp[1] == &osj'
    kw = dict(vars='pos has_output g_pos j_any'.split(), havoc='ASSUME(j_any == 0 || j_any == 1);')
    r1 = Cut('av[0] && ' + RC, None, roots=['bsj'], calls='cwk_path_segment_joined_skip_invisible cwk_path_output_back cwk_path_output_separator cwk_path_get_next_segment_joined'.split(), **kw)
    r2 = Cut('!av[0] && av[1] && ' + RC, None, roots=['osj'], calls='cwk_path_segment_joined_skip_invisible cwk_path_output_sized cwk_path_output_separator cwk_path_get_next_segment_joined'.split(), **kw)
    R.append(unit('relative', ['cwk_path_get_relative'], loops={M: {'cwk_path_get_relative': [r1, r2]}}, canaries=2,
                  removes='cwk_path_get_first_segment cwk_path_get_first_segment_joined cwk_path_get_next_segment_joined cwk_path_skip_segments_until_diverge cwk_path_segment_joined_skip_invisible cwk_path_output_back cwk_path_output_separator cwk_path_output_sized cwk_path_output_current cwk_path_terminate_output cwk_path_get_root cwk_path_is_root_absolute cwk_path_is_string_equal'.split()))
    C = 'cwk_path_output_sized cwk_path_output cwk_path_terminate_output cwk_path_get_last_segment cwk_path_get_root'.split()

    def trim(v, n):
        a = Cut('%s >= g_v && %s <= g_v + v_b' % (v, v), 'g_v + v_b - %s' % v, roots=[v], havoc='%s = g_v + vf_range(0, g_vn);' % v, calls=[SEP], inst='(%s >= g_v + v_b || SEP(*%s))' % (v, v))
        b = Cut('%s == g_v + v_b && %s <= g_vn - v_b' % (v, n), 'g_vn - %s' % n, vars=[n], inst='VNN(v_b + %s)' % n)
        c = Cut('%s == g_v + v_b && %s <= g_vn - v_b && %s >= v_e - v_b' % (v, n, n), n, vars=[n], roots=[v], calls=[SEP], inst='(%s <= v_e - v_b || SEP(g_v[v_b + %s - 1]))' % (n, n))
        return [a, b, c]
    old = Cut('c >= segment.begin && c <= segment.end && (IDX(c) > s_x ? old_extension == g_s + s_x : old_extension == segment.end || (old_extension >= segment.begin && old_extension < c)) && (s_x != IDX(segment.end) || old_extension == segment.end)',
              'segment.end - c', roots=['c', 'old_extension'], havoc='c = g_s + vf_range(0, g_n); old_extension = g_s + vf_range(0, g_n);', inst="(c >= segment.end || !(s_x == IDX(segment.end) || IDX(c) > s_x) || *c != 46)")
    R += [unit('change', ['cwk_path_change_root'], 0, nm='change_root', removes=C, canaries=2),
          unit('change', ['cwk_path_change_basename'], 1, nm='change_basename', removes=C + ['cwk_path_change_segment'], canaries=2, loops={M: {'cwk_path_change_basename': trim('new_basename', 'new_basename_size')}}),
          unit('change', ['cwk_path_change_segment'], 2, nm='change_segment', removes=C, canaries=2, loops={M: {'cwk_path_change_segment': trim('value', 'value_size')}}),
          unit('change', ['cwk_path_change_extension'], 3, nm='change_extension', removes=C, canaries=2, loops={M: {'cwk_path_change_extension': [old]}})]
    return R
