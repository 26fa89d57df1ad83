#!/usr/bin/env python3
"""mr.py PID file old new: runs the check on a scratch copy of /repo's sources with one text replacement"""
import sys, os, shutil, subprocess, tempfile
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mr.', dir='/tmp')
os.makedirs(d + '/lib')
shutil.copytree('/repo/src', d + '/src'); shutil.copytree('/repo/lib/tinycc', d + '/lib/tinycc', ignore=shutil.ignore_patterns('tests', '*.o', '*.a', 'tcc', 'win32'))
p = d + '/' + f
s = open(p).read()
assert s.count(old) >= 1, 'not found'
open(p, 'w').write(s.replace(old, new, 1))
r = subprocess.run(['python3', '/verif/check.py', pid], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
print('== %s %r -> %r' % (pid, old[:60], new[:60]))
print('\n'.join(l[:300] for l in (r.stdout + r.stderr).split('\n') if l and not l.startswith('proved')))
print('rc', r.returncode, flush=True)
shutil.rmtree(d)
