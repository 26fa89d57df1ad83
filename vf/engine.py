"""Runs proof units: real source copied from /repo, loop contracts injected
mechanically, goto-cc -> goto-instrument --dfcc -> cbmc, results collected."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, signal, threading
from concurrent.futures import ThreadPoolExecutor
from . import cparse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
MEM = 14 << 30
KNOWN = set()  # keys of the findings listed in known_findings.txt for this property

BASE_DEFS = ['-DLIBC_GNU', '-D_GNU_SOURCE', '-DKILO_SUPPORTED', '-DCJIT_BUILD_LINUX',
             '-DPREFIX="/usr/local"', '-DVERSION=""', '-DCURRENT_YEAR="2025"']

CONFIG_H = '''#ifndef CONFIG_TCCDIR
# define CONFIG_TCCDIR "/usr/local/lib/tcc"
#endif
#ifndef CONFIG_TCC_PREDEFS
# define CONFIG_TCC_PREDEFS 1
#endif
#define TCC_VERSION "0.9.28rc"
#define GCC_MAJOR 13
#define GCC_MINOR 3
#define CC_NAME CC_gcc
'''
ASSETS_H = '''#ifndef __CJIT_ASSETS_H__
#define __CJIT_ASSETS_H__
'''


def sh(cmd, timeout, cwd=None, mem=MEM, env=None):
    """run, return (rc, stdout, stderr, seconds); rc None on timeout"""
    t0 = time.time()

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         preexec_fn=pre if mem else os.setsid, env=env, text=True,
                         errors='replace', stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
    return rc, o, e, time.time() - t0


class Unit:
    """One proof obligation set.
    harness  : C file under props/, includes the real source by its repo path
    functions: repo functions whose contract this unit discharges
    loops    : {repo file: {function: [loop contract text or None, ...]}}
    enforce  : 'f/contract' (dfcc) or None (triple written in the harness)
    replace  : ['g/contract', ...] calls replaced by contracts
    native   : None, or dict(secs, max_len, flags, libs): the harness also compiles natively;
               it is run on the counterexample and on fuzzed inputs when the unit fails
    split    : one solver run per obligation
    select   : only the obligations whose description matches (others belong to a sibling unit)
    bounded  : None, or a text: this unit is a bounded stand-in with that bound
    fallback : dict(unwind=, defs=[...]) bounded variant without loop contracts,
               used only when the proof does not go through on changed code
    """
    def __init__(self, name, harness, functions, entry='harness', loops=None, enforce=None,
                 replace=(), defs=(), dfcc=None, cbmc=(), unwind=None, unwindset=(),
                 timeout=300, bounded=None, fallback=None, assumes=(), nobody=(), canaries=1,
                 solver='sat', unwind_assert=True, instrument=(), prep=None, removes=(), known=None, native=None, split=False, select=None):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.loops = loops or {}
        if dfcc is None:
            self.dfcc = bool(enforce or replace or any(a and not isinstance(a, cparse.Cut) for f in self.loops.values() for l in f.values() for a in l))


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = 'undecided'
        self.reason = ''
        self.total = self.ok = 0
        self.failed = []
        self.canary_ok = 0
        self.nobody = []
        self.known = []
        self.t_solve = self.t_all = 0.0
        self.trace = ''
        self.cmd = ''


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif.')
        self.tcc_ready = False

    def copy(self):
        d = self.dir
        os.makedirs(d + '/src')
        for f in os.listdir(REPO + '/src'):
            if f.endswith(('.c', '.h')) and not f.startswith('embed_') and f not in ('assets.c', 'assets.h'):
                shutil.copy(REPO + '/src/' + f, d + '/src/' + f)
        t = d + '/lib/tinycc'
        os.makedirs(t)
        for f in os.listdir(REPO + '/lib/tinycc'):
            if f.endswith(('.c', '.h', '.def')) and f not in ('config.h', 'tccdefs_.h'):
                shutil.copy(REPO + '/lib/tinycc/' + f, t + '/' + f)
        for s in ('lib', 'include'):
            os.makedirs(t + '/' + s)
            for f in os.listdir(REPO + '/lib/tinycc/' + s):
                if f.endswith(('.c', '.h', '.S')):
                    shutil.copy(REPO + '/lib/tinycc/%s/%s' % (s, f), t + '/%s/%s' % (s, f))
        open(t + '/config.h', 'w').write(CONFIG_H)
        open(d + '/src/assets.h', 'w').write(ASSETS_H + '\n#endif\n')
        # generated header, made the way the Makefile makes it
        rc, o, e, _ = sh(['gcc', '-DC2STR', t + '/conftest.c', '-o', d + '/c2str'], 60, mem=None)
        if rc == 0:
            sh([d + '/c2str', t + '/include/tccdefs.h', t + '/tccdefs_.h'], 60, mem=None)

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def errs(t):
    l = [x for x in t.split('\n') if 'error' in x.lower()]
    return ' | '.join(l[:3])[:300] or t[-300:]


def scan_assumptions(path):
    """mechanical scan: every assume / trusted marker left in the harness"""
    out = []
    for n, l in enumerate(open(path), 1):
        if re.search(r'TRUSTED:', l):
            out.append('%s:%d %s' % (os.path.relpath(path, VERIF), n, l.split('TRUSTED:', 1)[1].strip(' */\n')))
    return out


def run_unit(w, u, deadline, bounded_variant=False):
    if os.environ.get("VERIF_T"):
        u.timeout = float(os.environ["VERIF_T"])
    r = Result(u)
    t0 = time.time()
    try:
        _run_unit(w, u, r, deadline, bounded_variant)
    except cparse.ExtractError as e:
        r.status, r.reason = 'undecided', 'extraction: %s' % e
    except Exception as e:  # machinery trouble is never a violation
        r.status, r.reason = 'undecided', 'machinery: %r' % (e,)
    r.t_all = time.time() - t0
    return r


def _run_unit(w, u, r, deadline, bv):
    ud = tempfile.mkdtemp(prefix='u_', dir=w.dir)
    loops = {} if bv else u.loops
    for f, ann in loops.items():
        txt = open(os.path.join(w.dir, f)).read()
        os.makedirs(os.path.dirname(os.path.join(ud, f)), exist_ok=True)
        open(os.path.join(ud, f), 'w').write(cparse.inject(txt, ann, open(w.dir + '/lib/tinycc/tcc.h').read()))
    for f, names in dict(u.removes).items():
        # slicing: drop the bodies of functions that are replaced by a contract/stub
        p = os.path.join(ud, f)
        txt = open(p if os.path.exists(p) else os.path.join(w.dir, f)).read()
        for nm in names:
            s, b, e = cparse.find_function(txt, nm)
            txt = txt[:b] + ';' + '\n' * txt[b:e].count('\n') + txt[e:]
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(txt)
    if u.prep:
        u.prep(w.dir, ud)
    fb = u.fallback or {}
    a, b, c = ud + '/a.gb', ud + '/b.gb', ud + '/c.gb'
    harness = os.path.join(VERIF, 'props', u.harness)
    cc = ['goto-cc', '-D__CPROVER', '-DVERIF'] + BASE_DEFS + list(u.defs) + \
         (['-DBOUNDED'] + list(fb.get('defs', [])) if bv else []) + \
         ['-I' + ud, '-I' + w.dir, '-I' + VERIF + '/vf', '-I' + VERIF + '/props',
          '-I' + ud + '/src', '-I' + w.dir + '/src', '-I' + w.dir + '/lib/tinycc',
          '--function', u.entry, harness, '-o', a]
    r.cmd = ' '.join(cc)

    def left():
        return min(u.timeout, deadline - time.time())
    rc, o, e, _ = sh(cc, left())
    if rc != 0 or not os.path.exists(a):
        r.reason = 'goto-cc: ' + errs(e or o)
        return
    cur = a
    if os.environ.get('VERIF_KEEP'):
        shutil.copy(cur, os.environ['VERIF_KEEP'] + '.' + u.name + '.a.gb')
    if not u.enforce and not u.replace:
        rc, o, e, _ = sh(['goto-instrument', '--drop-unused-functions', cur, c], left())
        if rc == 0 and os.path.exists(c):
            cur = c
    if u.dfcc:
        gi = ['goto-instrument', '--dfcc', u.entry]
        if u.enforce:
            gi += ['--enforce-contract', u.enforce]
        for x in u.replace:
            gi += ['--replace-call-with-contract', x]
        if any(a and not isinstance(a, cparse.Cut) for f in loops.values() for l in f.values() for a in l):
            gi += ['--apply-loop-contracts']
        gi += list(u.instrument)
        gi += [cur, b]
        r.cmd += ' && ' + ' '.join(gi)
        rc, o, e, _ = sh(gi, left())
        if rc != 0 or not os.path.exists(b):
            r.reason = 'goto-instrument: ' + errs(e + o)
            return
        cur = b
    if os.environ.get('VERIF_KEEP'):
        shutil.copy(cur, os.environ['VERIF_KEEP'] + '.' + u.name + '.gb')
    cb = ['cbmc', cur] + list(u.cbmc)
    if u.solver.startswith('smt') and not bv:
        return _run_smt(u, r, cc, a, ud, left)
    if bv:
        cb += ['--unwind', str(fb.get('unwind', 8)), '--no-unwinding-assertions']
        for x in fb.get('unwindset', ()):
            cb += ['--unwindset', x]
    else:
        if u.unwind is not None:
            cb += ['--unwind', str(u.unwind)]
        for x in u.unwindset:
            cb += ['--unwindset', x]
        if not u.unwind_assert:
            cb += ['--no-unwinding-assertions']
        elif not u.dfcc or u.unwind is not None or u.unwindset:
            cb += ['--unwinding-assertions']
    if u.solver == 'cvc5':
        cb += ['--cvc5']
    elif u.solver == 'z3':
        cb += ['--z3']
    elif u.solver == 'kissat':
        cb += ['--external-sat-solver', 'kissat']
    r.cmd += ' && ' + ' '.join(cb)
    env = dict(os.environ)
    env['PATH'] = VERIF + '/vf/bin:' + env['PATH']
    parts = [[]]
    if (u.split or u.select) and not bv:
        rc, o, e, _ = sh(cb + ['--show-properties'], left(), env=env)
        names = re.findall(r'^Property (\S+):\n.*\n\s+(.*)$', o, re.M)
        if not names:
            r.reason = 'no obligations generated'
            return
        sel = [n for n, d in names if not u.select or re.search(u.select, d) or d.startswith('CANARY')]
        # unwinding assertions are generated during unrolling, never listed: they go with the first part
        if u.split:
            parts = [['--property', n] for n in sel]
        else:
            parts = [sum((['--property', n] for n in sel), [])]
    with ThreadPoolExecutor(8 if u.split else 1) as ex:
        outs = list(ex.map(lambda pt: (SEM.acquire() if u.split else None, sh(cb + pt, left(), env=env), SEM.release() if u.split else None)[1], parts))
    res = []
    for rc, o, e, ts in outs:
        r.t_solve += ts
        if rc is None:
            r.reason = 'solver timeout after %.0fs' % ts
            return
        x = parse(o, e, r)
        if x is None:
            r.reason = 'cbmc gave no result (rc %s): %s' % (rc, (e + o)[-400:])
            return
        seen = set(p['property'] for p in res)
        res += [p for p in x if p['property'] not in seen]
    canary = 0
    unk = []
    for p in res:
        d, st = p.get('description', ''), p['status']
        if d.startswith('CANARY'):
            if st == 'FAILURE':
                canary += 1
            continue
        mo = re.search(r"\.no-body\.(.*)$", p['property'])
        if mo:
            if st == 'FAILURE':
                r.nobody.append(mo.group(1))
            continue
        if d == 'undefined function should be unreachable':
            if st == 'FAILURE':
                r.nobody.append(p['property'].split('.')[0])
            continue
        r.total += 1
        if st == 'SUCCESS':
            r.ok += 1
        elif st == 'FAILURE' and (u.known or {}).get(d) in KNOWN:
            r.known.append(u.known[d])
        elif st == 'FAILURE':
            loc = p.get('sourceLocation', {})
            r.failed.append({'id': p['property'], 'description': d,
                             'function': loc.get('function', ''), 'line': loc.get('line', ''),
                             'file': os.path.basename(loc.get('file', '')),
                             'trace': p.get('trace')})
        else:
            unk.append(p['property'])
    r.canary_ok = canary
    r.nobody = sorted(set(r.nobody))
    bad = [n for n in r.nobody if n not in u.nobody and not n.startswith(('nondet_', '__CPROVER', '__builtin'))]
    for f in r.failed:
        f.pop('trace', None)
    if r.failed and any('unwinding assertion' in f['description'] for f in r.failed) and \
       all('unwinding assertion' in f['description'] or '.recursion' in f['id'] for f in r.failed):
        r.status, r.reason = 'undecided', 'unwinding bound exceeded: ' + r.failed[0]['id']
        r.failed = []
        return
    if bad:
        r.status, r.reason = 'undecided', 'calls without body or contract: ' + ', '.join(bad)
        return
    if r.failed:
        r.status = 'failed'
        r.reason = '; '.join('%s (%s) in %s:%s' % (f['id'], f['description'], f['function'], f['line']) for f in r.failed[:5])
        # one textual trace for the replay file
        if not os.environ.get('VERIF_NOTRACE'):
            cb2 = cb + ['--trace', '--property', r.failed[0]['id']]
            rc, o, e, _ = sh(cb2, min(left(), 120), env=env)
            r.trace = (o or '')[-200000:]
        return
    if unk:
        r.status, r.reason = 'undecided', 'unknown: ' + ', '.join(unk[:5])
        return
    if r.total == 0:
        r.status, r.reason = 'undecided', 'no obligations generated'
        return
    if canary < u.canaries:
        r.status, r.reason = 'undecided', 'vacuous: %d of %d canaries reachable' % (canary, u.canaries)
        return
    if r.known:
        r.reason = 'known finding: ' + ', '.join(sorted(set(r.known)))
    r.status = 'proved' if not (u.bounded or bv) else 'bounded-ok'


SEM = threading.Semaphore(JOBS)


def parse(o, e, r):
    res = []
    fn = fl = ''
    done = False
    for l in o.split('\n'):
        mo = re.match(r'\[(\S+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if mo:
            res.append({'property': mo.group(1), 'description': mo.group(4), 'status': mo.group(5),
                        'sourceLocation': {'function': fn, 'line': mo.group(3) or '', 'file': mo.group(2) or fl}})
            continue
        mo = re.match(r'(\S+) function (\S+)$', l)
        if mo:
            fl, fn = mo.groups()
        if l.startswith(('VERIFICATION SUCCESSFUL', 'VERIFICATION FAILED')):
            done = True
    for l in (o + e).split('\n'):
        mo = re.search(r"WARNING: no body for (?:callee|function) '?([\w$.]+)", l)
        if mo:
            r.nobody.append(mo.group(1))
    return res if done and res else None


def _run_smt(u, r, cc, a, ud, left):
    """SMT back end for formulas CBMC cannot hand to z3/cvc5 itself: cbmc writes generic
    SMT-LIB2, z3 and cvc5 race on it.  Loop-free (or completely unwound) units only."""
    base = list(u.cbmc) + ['--unwinding-assertions'] + (['--unwind', str(u.unwind)] if u.unwind is not None else [])
    for x in u.unwindset:
        base += ['--unwindset', x]
    n = ud + '/n.gb'
    n2 = ud + '/n2.gb'
    cc2 = cc[:]
    cc2[cc2.index(a)] = n
    cc2.insert(1, '-DNOCANARY')
    rc, o, e, _ = sh(cc2, left())
    if rc != 0:
        r.reason = 'goto-cc: ' + errs(e or o)
        return
    rc, o, e, _ = sh(['goto-instrument', '--drop-unused-functions', n, n2], left())
    if rc != 0:
        n2 = n
    rc, o, e, _ = sh(['cbmc', n2, '--show-properties', '--json-ui'] + base, left())
    props = []
    try:
        for x in json.loads(o):
            if 'properties' in x:
                props = x['properties']
    except ValueError:
        pass
    if not props:
        r.reason = 'no obligations generated'
        return
    nb = [p for p in props if '.no-body.' in p['name']]
    props = [p for p in props if '.no-body.' not in p['name']]
    r.nobody = sorted(set(p['name'].split('.no-body.')[1] for p in nb))

    def solve(extra, tag):
        f = '%s/%s.smt2' % (ud, tag)
        cmd = ['cbmc', n2] + base + extra + ['--smt2', '--outfile', f]
        rc, o, e, _ = sh(cmd, left())
        if not os.path.exists(f):
            return 'unsat' if 'VERIFICATION SUCCESSFUL' in o else 'error ' + (o + e)[-200:]
        txt = open(f).read()
        i = txt.find('(check-sat)')
        if i > 0:
            open(f, 'w').write(txt[:i] + '(check-sat)\n')
        t0 = time.time()
        ps = []
        for c in (['z3-new', f], ['cvc5', '--lang', 'smt2', f], ['bitwuzla', f]):
            if shutil.which(c[0]):
                ps.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                           start_new_session=True,
                                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))))
        ans = 'timeout'
        lim = left()
        alive = list(ps)
        while alive and time.time() - t0 < lim and ans == 'timeout':
            for p in list(alive):
                if p.poll() is not None:
                    alive.remove(p)
                    l = (p.stdout.read().split() or [''])[0]
                    if l in ('sat', 'unsat'):
                        ans = l
                        break
            time.sleep(0.05)
        for p in ps:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        r.t_solve += time.time() - t0
        return ans
    r.cmd = ' '.join(cc2) + ' && cbmc ' + ' '.join(base) + ' --smt2 --outfile f.smt2; z3/cvc5 f.smt2'
    r.total = len(props)
    sel = sum((['--property', p['name']] for p in props), []) if nb else []
    ans = solve(sel, 'all')
    if ans == 'sat':
        # an unwinding assertion may be the only failure: it is not in the property list
        for i, p in enumerate(props):
            x = solve(['--property', p['name'], '--no-unwinding-assertions'], 'p%d' % i)
            if x == 'sat':
                loc = p.get('sourceLocation', {})
                r.failed.append({'id': p['name'], 'description': p['description'], 'function': loc.get('function', ''),
                                 'line': loc.get('line', ''), 'file': os.path.basename(loc.get('file', ''))})
            elif x == 'unsat':
                r.ok += 1
        if r.failed:
            r.status = 'failed'
            r.reason = '; '.join('%s (%s) in %s:%s' % (f['id'], f['description'], f['function'], f['line']) for f in r.failed[:5])
        else:
            r.reason = 'unwinding bound exceeded'
        return
    if ans != 'unsat':
        r.reason = 'solver: ' + ans
        return
    r.ok = r.total
    bad = [x for x in r.nobody if x not in u.nobody and not x.startswith(('nondet_', '__CPROVER', '__builtin'))]
    if bad:
        r.reason = 'calls without body or contract: ' + ', '.join(bad)
        return
    # canaries with the SAT back end (must fail)
    rc, o, e, _ = sh(['cbmc', a, '--show-properties', '--json-ui'] + base, left())
    can = [p['name'] for x in json.loads(o) if 'properties' in x for p in x['properties'] if p['description'].startswith('CANARY')]
    for c in can:
        rc, o, e, _ = sh(['cbmc', a, '--property', c, '--no-unwinding-assertions'] + [x for x in base if x != '--unwinding-assertions'] + list(u.unwindset and ()), left())
        if rc == 10:
            r.canary_ok += 1
    if r.canary_ok < u.canaries:
        r.reason = 'vacuous: %d of %d canaries reachable' % (r.canary_ok, u.canaries)
        return
    r.status = 'proved' if not u.bounded else 'bounded-ok'


def run_units(w, units, deadline, bv=False):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda u: run_unit(w, u, deadline, bv), units))
