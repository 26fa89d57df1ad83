"""Looks for a concrete failing input on the real code once the verifier has
refused (or could not decide) an obligation.  Never decides a property alone."""
import os, shutil, subprocess, tempfile, time, re
from .engine import sh, BASE_DEFS, VERIF, REPO


class Refuter:
    """C file with LLVMFuzzerTestOneInput calling the real code (by #include) and
    aborting with a line 'REFUTED: ...' when the property's oracle is contradicted."""
    def __init__(self, name, src, seconds=60, max_len=4096, flags=(), ubsan='', seeds=None,
                 link=(), dict=None, workers=4, cc='clang', libs=(), timeout=10, asan=True, pre=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


def run_refuter(w, rf, seed, deadline, pid):
    """returns dict(found=bool, ...)"""
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='r_', dir=w.dir)
    exe = d + '/fuzz'
    san = 'fuzzer' + (',address' if rf.asan else '') + ((',' + rf.ubsan) if rf.ubsan else '')
    cmd = [rf.cc, '-g', '-O1', '-w', '-DREFUTE', '-fsanitize=' + san] + \
          (['-fno-sanitize-recover=' + rf.ubsan] if rf.ubsan else []) + BASE_DEFS + list(rf.flags) + \
          ['-I' + d, '-I' + d + '/src', '-I' + d + '/lib/tinycc', '-I' + w.dir, '-I' + VERIF + '/vf', '-I' + VERIF + '/props', '-I' + w.dir + '/src',
           '-I' + w.dir + '/lib/tinycc', os.path.join(VERIF, 'props', rf.src)] + \
          [x.replace('@W', w.dir) for x in rf.link] + ['-o', exe, '-lm'] + list(rf.libs)
    for f, names in dict(getattr(rf, 'removes', None) or {}).items():
        from . import cparse
        p = os.path.join(d, f)
        txt = open(os.path.join(w.dir, f)).read()
        for nm in names:
            a, b, e = cparse.find_function(txt, nm)
            txt = txt[:b] + ';' + '\n' * txt[b:e].count('\n') + txt[e:]
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(txt)
    if getattr(rf, 'prep', None):
        rf.prep(w.dir, d)
    for c in rf.pre:
        c = [x.replace('@W', w.dir).replace('@D', d).replace('@V', VERIF) for x in c]
        rc, o, e, _ = sh(c, 120, mem=None, cwd=d)
        if rc != 0:
            return {'name': rf.name, 'found': False, 'note': 'refuter step failed: %s %s' % (' '.join(c), e[-300:])}
    cmd = [x.replace('@D', d) for x in cmd]
    rc, o, e, _ = sh(cmd, min(180, max(5, deadline - time.time())), mem=None)
    if rc != 0:
        return {'name': rf.name, 'found': False, 'note': 'refuter does not build: ' + e[-300:]}
    os.makedirs(d + '/corpus')
    os.makedirs(d + '/scratch')
    if rf.seeds:
        rf.seeds(d + '/corpus', seed)
    else:
        open(d + '/corpus/s0', 'wb').write(bytes(64))
    secs = int(max(5, min(rf.seconds, deadline - time.time() - 10)))
    procs = []
    for i in range(rf.workers):
        os.makedirs('%s/a%d' % (d, i))
        os.makedirs('%s/c%d' % (d, i))
        c = [exe, '%s/c%d' % (d, i), d + '/corpus', '-max_total_time=%d' % secs, '-seed=%d' % (seed * 16 + i + 1),
             '-max_len=%d' % rf.max_len, '-artifact_prefix=%s/a%d/' % (d, i), '-timeout=%d' % rf.timeout,
             '-rss_limit_mb=4000', '-print_final_stats=1', '-len_control=0', '-detect_leaks=0']
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1')
        lf = open('%s/log%d' % (d, i), 'w')
        procs.append(subprocess.Popen(c, stdout=lf, stderr=lf, cwd=d + '/scratch', env=env, start_new_session=True,
                                      stdin=subprocess.DEVNULL))
    end = time.time() + secs + 30
    hit = None
    while time.time() < end:
        alive = [p for p in procs if p.poll() is None]
        for i in range(rf.workers):
            l = [x for x in os.listdir('%s/a%d' % (d, i)) if x.startswith(('crash-', 'timeout-', 'oom-'))]
            if l and hit is None and procs[i].poll() is not None:
                hit = (i, '%s/a%d/%s' % (d, i, l[0]))
        if hit or not alive:
            break
        time.sleep(0.2)
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        p.wait()
    execs = 0
    for i in range(rf.workers):
        t = open('%s/log%d' % (d, i), errors='replace').read()
        m = re.findall(r'#(\d+)\s', t)
        if m:
            execs += int(m[-1])
        if hit is None:
            l = [x for x in os.listdir('%s/a%d' % (d, i)) if x.startswith(('crash-', 'timeout-', 'oom-'))]
            if l:
                hit = (i, '%s/a%d/%s' % (d, i, l[0]))
    res = {'name': rf.name, 'found': False, 'execs': execs, 'seconds': round(time.time() - t0, 1)}
    if hit and 'oom-' in os.path.basename(hit[1]):
        hit = None
    if hit:
        # replay on a fresh run of the same real code; must fail again
        rc, o, e, _ = sh([exe, hit[1]], rf.timeout + 20, mem=None, cwd=d + '/scratch',
                         env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=1'))
        if rc not in (0,):
            txt = o + e
            m = re.search(r'REFUTED:.*|SUMMARY:.*|.*runtime error:.*', txt)
            res.update(found=True, message=(m.group(0) if m else 'crash/timeout'), data=open(hit[1], 'rb').read(),
                       log=txt[-6000:], build=' '.join(cmd))
        else:
            res['note'] = 'artifact did not reproduce'
    shutil.rmtree(d, ignore_errors=True)
    return res


def trace_input(trace):
    """the sequence of nondet values of a CBMC trace, as the bytes the native harness reads"""
    out = b''
    for mo in re.finditer(r'return_value_nondet_\w+(?:\$\d+)?=[^\n]*\(([01 ]+)\)\s*$', trace, re.M):
        bits = mo.group(1).replace(' ', '')
        if len(bits) == 1:
            bits = '0000000' + bits
        out += int(bits, 2).to_bytes(len(bits) // 8, 'little')
    return out


def native_refuter(w, u, trace):
    """the unit's own harness, compiled natively against the real code"""
    from . import cparse
    o = dict(u.native)
    tr = trace_input(trace or '')

    def seeds(d, seed):
        open(d + '/s0', 'wb').write(bytes(64))
        open(d + '/s1', 'wb').write(bytes(range(256)))
        if tr:
            open(d + '/trace', 'wb').write(tr)
            open(d + '/trace2', 'wb').write(tr + bytes(range(1, 200)))
    rf = Refuter('native.' + u.name, u.harness, seconds=o.get('secs', 20), max_len=o.get('max_len', 4096),
                 flags=['-fwrapv', '-ffunction-sections', '-fdata-sections', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-DNATIVE'] + list(u.defs) + list(o.get('flags', ())),
                 seeds=seeds, workers=o.get('workers', 2), libs=o.get('libs', ()), asan=o.get('asan', True), ubsan=o.get('ubsan', ''), timeout=10)
    rf.removes = u.removes
    rf.prep = u.prep
    return rf
