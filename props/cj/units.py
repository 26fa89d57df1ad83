"""Units over src/cjit.c, src/file.c and src/main.c shared by C10 to C14."""
from vf.engine import Unit
from vf.cparse import Cut
M = 'src/cjit.c'
ERR = ['_err', '_out']


def unit(name, fns, what=None, nm=None, file='cj/cj.c', src=M, removes=ERR, rem=None, **k):
    k['defs'] = ['-DU_' + name, '-DFOUND_MAX=INT_MAX'] + (['-DWHAT=%d' % what] if what is not None else []) + list(k.get('defs', ()))
    k.setdefault('unwind', 16)
    k.setdefault('timeout', 200)
    k.setdefault('native', dict(max_len=5000, secs=20))
    if rem:
        k['removes'] = rem
    elif removes:
        k['removes'] = {src: list(removes)}
    u = Unit(name, file, fns, **k)
    u.name = nm or name
    return u


libs = Cut('i >= 0 && i <= found && s_bad == 0 && found == s_found', 'found - i', vars=['i', 's_bad'], calls=['tcc', 'XArray_GetData', 'tcc_add_file', 'debug'])
libs2 = Cut('i >= 0 && i <= found && s_bad == 0 && found == s_found', 'found - i', vars=['i', 's_bad'], calls=['tcc', 'XArray_GetData', 'tcc_add_file', 'debug'])


def msg():
    return [unit('msg', ['_out'], 0, nm='out', removes=['_err'], canaries=2), unit('msg', ['_err'], 1, nm='err', removes=['_out'], canaries=2)]


FB = dict(unwind=16, defs=['-UFOUND_MAX', '-DFOUND_MAX=2'])


def exec_():
    return [unit('exec', ['cjit_exec'], loops={M: {'cjit_exec': [libs]}}, canaries=4, fallback=FB)]


def steps():
    return [unit('link', ['cjit_link'], loops={M: {'cjit_link': [libs2]}}, canaries=2, fallback=FB),
            unit('addfile', ['cjit_add_file'], removes=ERR + ['has_source_extension', 'cjit_add_source', 'cjit_setup'], canaries=2),
            unit('buffer', ['cjit_add_buffer'], removes=ERR + ['cjit_setup'], canaries=2),
            unit('compile', ['cjit_compile_file'], removes=ERR + ['has_source_extension', 'cjit_setup'], canaries=2),
            unit('ext', ['has_source_extension'])] + source()


def source():
    return [unit('source', ['cjit_add_source', 'detect_bom'], removes=ERR + ['cjit_setup'], canaries=3),
            unit('bom', ['detect_bom'], canaries=2)]


F = 'src/file.c'
RD = Cut("""(used == g_used && code == g_code && !line && !g_line && !g_eof && !s_freed && !s_bad && !s_err && used < (1ul << 42)
         && (used ? code && __CPROVER_OBJECT_SIZE(code) == used + 1 && __CPROVER_POINTER_OFFSET(code) == 0 && code[used] == 0 && (g_t >= used || code[g_t] == g_c) : !code))""",
         None, vars='tmp len used rd g_used g_c g_rd'.split(), roots=('code', 'line'),
         havoc='g_used = used; ASSUME(used < (1ul << 42)); if (used) { code = vf_buf(used + 1); code[used] = 0; } else code = 0; g_code = code; line = 0; g_line = 0;',
         calls='getline free ferror fail realloc memcpy'.split())


def files():
    return [unit('load', ['file_load', 'file_size'], file='cj/file.c', removes=None, canaries=2),
            unit('stdin', ['load_stdin'], file='cj/file.c', removes=None, canaries=3, loops={F: {'load_stdin': [RD]}}, fallback=dict(unwind=5))]


def write():
    return [unit('write', ['write_to_file'], file='cj/file.c', removes=None, canaries=2)]


MN = 'src/main.c'
OPTS = Cut('INV', None, vars='c opt arg_separator g_c g_calls g_ped g_pv g_al g_ind g_files g_sep'.split(), roots=('CJIT',),
           havoc='VF_FILL(s_cj); g_mem = g_old = 0; g_arg = 0; g_out = nondet_bool() ? s_o : (char *)0; g_ent = nondet_bool() ? s_e : (char *)0; g_pid = nondet_bool() ? s_p : (char *)0; g_calls = 0; g_c = 0; s_bad = 0; g_ran = g_final = g_in = g_next = g_left = g_inv = g_retset = g_sep = 0; arg_separator = 0; g_freed = 0;',
           ghost='effect();',
           calls='ketopt _err cjit_free exit parse_value cjit_define_symbol cjit_set_output free malloc strlen strcpy strdup strcmp cjit_add_library_path cjit_add_library cjit_set_tcc_options cjit_add_include_path extract_assets _out file_load muntargz_to_path getcwd chmod'.split())
FILES = Cut('g_next >= 0 && g_next <= g_files && i == g_ind + g_next && !s_bad && !g_ran && !g_retset && !g_final && !g_freed', None, vars='i g_next g_in stdin_code'.split(), inst='i <= g_n',
            havoc='s_w[0] = nondet_char(); ASSUME(s_w[0] != 0); s_bad = 0;', calls='_err load_stdin cjit_add_buffer free cjit_add_file'.split())
FILES.after = 'if (i < left_args) g_clean[i] = s_w;'
VAL = Cut("i >= 0 && (size_t)i <= g_e && (equal_found ? i == g_e && g_e < g_l && value_pos == i + 1 && str[i] == 0 : value_pos == 0 && (g_e >= g_l || g_s[g_e] == '=')) && i <= 1024 && (g_k >= (size_t)i || NAMEC(g_s[g_k])) && (g_t >= g_l || g_t == g_e || g_s[g_t] == g_c) && str == g_s", None,
          vars=['i', 'value_pos', 'equal_found'], roots=['str'], inst='equal_found || (INST(i))', havoc='if (g_e < g_l) g_s[g_e] = nondet_char();', calls=['isalnum'])


def mainu():
    return [unit('main', ['main'], file='cj/mainc.c', src=MN, removes=None, loops={MN: {'main': [OPTS, FILES]}}, canaries=5, unwind=42,
                 rem={'src/main.c': ['remove_args', 'parse_value'], 'src/ketopt.h': ['ketopt']}, fallback=dict(unwind=42, unwindset=['cjit_main.0:4', 'cjit_main.1:4']), cbmc=['--object-bits', '10'])]


def args():
    return [unit('value', ['parse_value'], file='cj/mainc.c', src=MN, removes=None, loops={MN: {'parse_value': [VAL]}}, canaries=2, fallback=dict(unwind=12))]


KT = 'src/ketopt.h'
R1 = Cut('i >= 0 && i <= g_n && (g_t >= i || keep[g_t] == 1)', None, vars=['i'], objs=['keep'], roots=['keep'])
R2 = Cut("""i >= 0 && i <= g_n && KF(i) >= 0 && KF(i) <= i && (ST(i) == 0 || (ST(i) == 1 && i < g_n)) && new_argc == KF(i) + (g_n - i) - (ST(i) == 1 ? 1 : 0) && *argc == g_n
         && keep[g_t] == (g_t < i ? KEEP(g_t) : g_t == i ? ST(i) != 1 : 1)""", None, vars=['i', 'new_argc'], objs=['keep'], roots=['keep'],
         inst="""(i >= g_n || (SPEC(i) && keep[i] == (ST(i) != 1) && (i + 1 >= g_n || keep[i + 1] == 1)
              && (!(ST(i) == 0 && dd(s_w)) || ((g_t <= i || ST(g_t) == 2) && KF(g_n) == KF(i) + (g_n - i)))))""",
         havoc='vf_bytes(s_w, 17); vf_bytes(s_nx, 3);', calls='strcmp strncmp strlen isalnum'.split())
R2.after = 'WORD(i)'
R4 = Cut("""i >= 0 && i <= g_n && j == KF(i) && j >= 0 && j <= KF(g_n) && (g_t >= i || !KEEP(g_t) || new_argv[KF(g_t)] == argv[g_t])""", None, vars=['i', 'j'], objs=['new_argv'], roots=['new_argv'],
         inst='KF(i) >= 0 && KF(i) <= i && (i >= g_n || (SPEC(i) && keep[i] == KEEP(i) && KF(i) + (KEEP(i) ? 1 : 0) <= KF(g_n))) && (g_t >= i || (KF(g_t) + (KEEP(g_t) ? 1 : 0) <= KF(i)))')
R4.entry = 'CHECK(new_argc == KF(g_n), "number of words kept"); CHECK(keep[g_t] == KEEP(g_t), "marks the words to keep");'
SK = Cut('s->i >= g_i0 && s->i <= g_n && s->n_args == g_a0 + (s->i - g_i0) && s->pos == g_p0 && (g_p0 == 0 || s->i == g_i0)', None, roots=['s'],
         havoc='s->i = nondet_int(); s->n_args = nondet_int(); if (g_p0 == 0) word();', ghost='CHECK(FILEWORD(s_w), "stops at the first option");')
SK.after = 'bind();'
NM = Cut('j >= 2 && (size_t)j <= g_L', None, vars=['j'], inst='(size_t)j >= g_L || NOEND(j)')
PM = Cut("""k >= 0 && k <= n && argv[g_t] == (g_t > g_j - k && g_t <= g_j ? g_prev : g_old)""", None, vars=['k'], objs=['argv'], roots=['argv'],
         inst='k >= n || g_t != g_j - k || argv[g_t - 1] == g_prev')


def parse():
    return [unit('remove', ['remove_args'], file='cj/mainc.c', src=MN, removes=None, loops={MN: {'remove_args': [R1, R2, None, R4]}}, canaries=3, unwind=20, fallback=dict(unwind=20)),
            unit('permute', ['ketopt_permute'], file='cj/mainc.c', src=KT, removes=None, loops={KT: {'ketopt_permute': [PM]}}, fallback=dict(unwind=7)),
            unit('ketopt', ['ketopt'], file='cj/mainc.c', src=KT, removes=['ketopt_permute'], loops={KT: {'ketopt': [SK, NM, None, None]}}, canaries=8, unwind=9, fallback=dict(unwind=9))]
