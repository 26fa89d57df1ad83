#!/usr/bin/env python3
"""Writes MANIFEST.json from the spec modules present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 'C23': 'whole-history property over kill points and schedules of several processes and a real file system: no function contract expresses it (the code relies on no protocol that could be stated as an invariant)',
 'C24': 'correctness of the whole compiler against the C standard is not expressible as contracts within reach; the decidable kernels (constant folding, relocation, literals, symbol resolution, buffers, runtime helpers) are C17-C22',
}
PENDING = 'check not built yet'
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if os.path.exists('%s/props/%s/spec.py' % (V, p)) and p not in NA:
        m = importlib.import_module('props.%s.spec' % p)
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                       'technique': getattr(m, 'TECHNIQUE', 'contract-based deductive verification (CBMC code contracts on the real source)'),
                       'level': getattr(m, 'LEVEL', 'proof'), 'level_note': getattr(m, 'LEVEL_NOTE', getattr(m, 'EXPLANATION', ''))[:1500] or 'see DESIGN.md'})
    else:
        na.append({'property': p, 'reason': NA.get(p, PENDING)})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'no hooks in /repo are needed: contracts live in /verif, loop contracts are injected into a scratch copy of the source on every run'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
