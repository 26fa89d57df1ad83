#!/usr/bin/env python3
"""mkseed.py ID PID file old new needs breaks: writes seeded/ID/patch.diff and meta.json (demo.sh is written by hand)"""
import sys, os, json, subprocess, tempfile, shutil
i, pid, f, old, new, needs, breaks = sys.argv[1:8]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='ms.', dir='/tmp')
subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
os.makedirs(os.path.dirname(t + '/a/' + f)); os.makedirs(os.path.dirname(t + '/b/' + f))
s = open('/repo/' + f).read()
assert s.count(old) == 1, 'count %d' % s.count(old)
open(t + '/a/' + f, 'w').write(s); open(t + '/b/' + f, 'w').write(s.replace(old, new))
r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write('\n'.join(l.split('\t')[0] if l.startswith(('---', '+++')) else l for l in r.split('\n')))
json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(t)
print(subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], capture_output=True, text=True))
