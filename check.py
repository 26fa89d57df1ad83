#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree.
exit 0: every obligation accepted (or, labelled so in the evidence, not decided and
no failing input known); exit 1: VIOLATION line."""
import importlib, json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from vf import engine, refute


def known_findings(pid):
    out = []
    f = V + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split('property=%s ' % pid, 1)[1])
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (820 if tier == 'quick' else 6 * 3600)
    mod = importlib.import_module('props.%s.spec' % pid)
    units = [u for u in mod.UNITS if tier == 'thorough' or not getattr(u, 'thorough_only', False)]
    only = os.environ.get('VERIF_ONLY')
    if only:
        units = [u for u in units if any(o in u.name for o in only.split(','))]
    w = engine.Work()
    try:
        w.copy()
        rc = decide(pid, tier, seed, t0, deadline, mod, units, w)
    finally:
        w.clean()
    sys.exit(rc)


def decide(pid, tier, seed, t0, deadline, mod, units, w):
    engine.KNOWN.update(k.split()[0] for k in known_findings(pid))
    units = sorted(units, key=lambda u: -u.timeout)
    proof_dl = t0 + (560 if tier == 'quick' else 5 * 3600)
    rs = engine.run_units(w, units, proof_dl)
    for r in rs:
        print('%-10s %-34s %4d/%-4d obligations %6.1fs %s' % (r.status, r.unit.name, r.ok, r.total, r.t_all, r.reason[:300]), flush=True)
    failed = [r for r in rs if r.status == 'failed']
    und = [r for r in rs if r.status == 'undecided']
    bv = []
    ref = []
    violation = None
    if failed or und or os.environ.get('VERIF_FORCEREFUTE') or os.environ.get('VERIF_FORCEBV'):
        need = [r.unit for r in failed + und if r.unit.fallback and not os.environ.get('VERIF_NOFALLBACK')]
        if os.environ.get('VERIF_FORCEBV'):
            need = [u for u in units if u.fallback]
        if need:
            bv = engine.run_units(w, need, min(deadline - 120, time.time() + 120), bv=True)
            for r in bv:
                print('  fallback %-10s %-25s %s' % (r.status, r.unit.name, r.reason[:300]), flush=True)
        if not os.environ.get('VERIF_NOREFUTE'):
            nat = [r for r in failed + und if r.unit.native is not None]
            rfs = [refute.native_refuter(w, r.unit, r.trace or ''.join(b.trace for b in bv if b.unit is r.unit)) for r in nat]
            if os.environ.get('VERIF_FORCEREFUTE'):
                rfs = [refute.native_refuter(w, u, '') for u in units if u.native is not None]
            # counterexample replays first, in parallel; then the property's own refuters
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(4) as ex:
                for x in ex.map(lambda rf: refute.run_refuter(w, rf, seed, deadline, pid) if time.time() < deadline - 60 else
                                {'name': rf.name, 'found': False, 'note': 'no time'}, rfs[:8] if not os.environ.get('VERIF_FORCEREFUTE') else rfs):
                    ref.append(x)
                    print('  refuter %s: %s' % (x['name'], {k: v for k, v in x.items() if k not in ('data', 'log', 'build')}), flush=True)
            for rf in getattr(mod, 'REFUTERS', []):
                if any(x['found'] for x in ref) or time.time() > deadline - 20:
                    break
                x = refute.run_refuter(w, rf, seed, deadline, pid)
                ref.append(x)
                print('  refuter %s: %s' % (rf.name, {k: v for k, v in x.items() if k not in ('data', 'log', 'build')}), flush=True)
                if x['found']:
                    break
        hit = [x for x in ref if x['found']]
        # a loop whose invariant no longer fits (the loop was rewritten) is not a violation by
        # itself: the same contract, checked without invariants up to the stated bound, decides
        if not hit:
            okb = set(id(r.unit) for r in bv if r.status == 'bounded-ok')
            for r in list(failed):
                if id(r.unit) in okb and r.unit.loops:
                    r.status, r.reason = 'undecided', 'loop invariant no longer fits (bounded run clean): ' + r.reason
                    failed.remove(r)
                    und.append(r)
        bfail = [r for r in bv if r.status == 'failed']
        rd = V + '/out/replay'
        os.makedirs(rd, exist_ok=True)
        path = '%s/%s.txt' % (rd, pid)
        if hit or failed or bfail:
            with open(path, 'w') as f:
                f.write('property %s\n' % pid)
                for r in failed + bfail:
                    f.write('failed obligation(s) in %s (contract of %s):\n' % (r.unit.name, ', '.join(r.unit.functions)))
                    for x in r.failed:
                        f.write('  %(id)s: %(description)s at %(file)s:%(line)s in %(function)s\n' % x)
                    f.write('command: %s\n' % r.cmd)
                for r in und:
                    f.write('undecided: %s: %s\n' % (r.unit.name, r.reason))
                if hit:
                    x = hit[0]
                    open('%s/%s.input' % (rd, pid), 'wb').write(x['data'])
                    f.write('\nfailing input on the real code: %s/%s.input\n%s\nbuild: %s\nlog:\n%s\n' % (rd, pid, x['message'], x['build'], x['log']))
                for r in failed + bfail:
                    if r.trace:
                        f.write('\nverifier output for %s:\n%s\n' % (r.unit.name, r.trace))
            violation = path if hit else path + ' no-failing-input-found'
    proved = [r for r in rs if r.status == 'proved']
    bnd = [r for r in rs if r.status == 'bounded-ok']
    obl = sum(r.total for r in proved) + sum(r.total for r in rs if r.status in ('failed', 'undecided'))
    dis = sum(r.ok for r in proved) + sum(r.ok for r in rs if r.status == 'failed')
    tb = list(getattr(mod, 'TRUSTED', []))
    for f in sorted(set(r.unit.harness for r in rs)):
        tb += engine.scan_assumptions(os.path.join(V, 'props', f))
    for r in rs:
        if r.nobody:
            tb.append('%s: external calls given nondeterministic results: %s' % (r.unit.name, ', '.join(r.nobody)))
        tb += ['%s: %s' % (r.unit.name, a) for a in r.unit.assumes]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3 check.py %s  (goto-cc, goto-instrument --dfcc, cbmc 6.11 per unit)' % pid,
            'trusted_base': tb + ['CBMC 6.11 (goto-cc, goto-instrument --dfcc, SAT/SMT back ends) and its C semantics for x86-64'],
            'functions_under_contract': sorted(set(f for r in proved for f in r.unit.functions)),
            'functions_bounded_only': sorted(set('%s [%s]' % (f, r.unit.bounded) for r in bnd for f in r.unit.functions)),
            'bounded_obligations': sum(r.total for r in bnd),
            'bounded_discharged': sum(r.ok for r in bnd),
            'known_findings_hit': sorted(set('%s: %s' % (r.unit.name, k) for r in rs for k in r.known)),
            'undecided': ['%s: %s' % (r.unit.name, r.reason[:400]) for r in und],
            'failed': ['%s: %s' % (r.unit.name, r.reason[:400]) for r in failed],
            'units': [{'name': r.unit.name, 'status': r.status, 'obligations': r.total, 'discharged': r.ok,
                       'back_end': r.unit.solver if r.unit.solver != 'sat' else 'cbmc SAT (MiniSat)',
                       'vacuity_canaries_reached': r.canary_ok,
                       'solver_s': round(r.t_solve, 2)} for r in rs],
            'solver_s_total': round(sum(r.t_solve for r in rs), 2),
            'fallback_runs': [{'name': r.unit.name, 'status': r.status, 'label': 'bounded, not a proof'} for r in bv],
            'refuter_runs': [{k: v for k, v in x.items() if k not in ('data', 'log', 'build')} for x in ref],
            'explanation': getattr(mod, 'EXPLANATION', ''),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d/%d obligations discharged, %d units proved, %d bounded, %d undecided, %.1fs' % (
        pid, dis, obl, len(proved), len(bnd), len(und), time.time() - t0))
    if violation:
        print('VIOLATION property=%s replay=%s' % (pid, violation))
        return 1
    return 0


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
