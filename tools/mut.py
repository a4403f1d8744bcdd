#!/usr/bin/env python3
"""tools/mut.py FILE OLD NEW PROP[:facet]... : run checks on a scratch copy with one textual change."""
import os, shutil, subprocess, sys, tempfile
fn, old, new = sys.argv[1:4]
w = tempfile.mkdtemp(prefix='mut.')
try:
    shutil.copytree('/repo', w + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
    p = os.path.join(w, 'repo', 'cpnest', fn)
    s = open(p).read()
    if s.count(old) < 1:
        print('PATTERN NOT FOUND', old); sys.exit(2)
    open(p, 'w').write(s.replace(old, new, 1))
    for a in sys.argv[4:]:
        prop, _, facet = a.partition(':')
        r = subprocess.run(['./run.sh', prop] + (['--facet', facet] if facet else []), env=dict(os.environ, VERIF_REPO=w + '/repo'),
                           capture_output=True, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        lines = [l for l in r.stdout.splitlines() if l and not l.startswith('VIOLATION')]
        print('%-6s exit %d | %s => %s' % (a, r.returncode, new.strip()[:60], (lines[0] if r.returncode == 1 else lines[-1] if lines else r.stderr[-300:])[:200]))
finally:
    shutil.rmtree(w)
