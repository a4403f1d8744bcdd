#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in plants_*.py (ID, property, edits, needs, breaks, demo)."""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), 'seeded')
sys.path.insert(0, here)
DEFS = []
for f in sorted(glob.glob(os.path.join(here, 'plants_*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    DEFS += ns['PLANTS']
only = sys.argv[1:]
w = tempfile.mkdtemp(prefix='plants.')
repo = os.path.join(w, 'repo')
subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
try:
    for d in DEFS:
        if only and d['id'] not in only:
            continue
        for fn, old, new in d['edits']:
            p = os.path.join(repo, fn)
            s = open(p).read()
            k = s.count(old)
            if k != 1:
                print(d['id'], 'pattern found', k, 'times in', fn); sys.exit(1)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', repo, 'diff']).decode()
        subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        t = os.path.join(out, d['id'])
        os.makedirs(t, exist_ok=True)
        open(os.path.join(t, 'patch.diff'), 'w').write(diff)
        open(os.path.join(t, 'demo.py'), 'w').write(d['demo'].lstrip('\n'))
        open(os.path.join(t, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        if 'nsim' in d['demo']:
            shutil.copy(os.path.join(here, 'plantsrc', 'nsim.py'), t)
        json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(os.path.join(t, 'meta.json'), 'w'), indent=1)
        print(d['id'], 'written')
finally:
    shutil.rmtree(w)
