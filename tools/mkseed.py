"""Make a planted bug: python tools/mkseed.py SPEC.py
SPEC.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS and DEMO (python source of the demo).
The change is tried in a scratch copy of /repo: the demo has to pass without and fail with it."""
import json, os, runpy, shutil, subprocess, sys
S = '/tmp/seedrepo'
R = os.environ.get('SEEDFROM', '/repo')
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
HEAD = '''#!/bin/bash
# exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python -W ignore "$D/demo.py"
'''
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import matplotlib
matplotlib.use('Agg')
_use, matplotlib.use = matplotlib.use, lambda *a, **k: None
import numpy as np
from omgtools import *
'''
for spec in sys.argv[1:]:
    m = runpy.run_path(spec)
    d = '/verif/seeded/' + m['ID']
    if os.path.isdir(S):
        shutil.rmtree(S)
    sh('cp -a %s %s' % (R, S))
    for f, old, new in m['EDITS']:
        p = os.path.join(S, f)
        t = open(p).read()
        assert t.count(old) == 1, (m['ID'], f, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % S).stdout)
    open(d + '/demo.sh', 'w').write(HEAD)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write((PRE if m.get('PRE', True) else '') + m['DEMO'])
    json.dump({'property': m['PROP'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, cwd=R)
    b = sh('bash %s/demo.sh' % d, cwd=S)
    print(m['ID'], 'clean', a.returncode, 'bug', b.returncode)
    if a.returncode or not b.returncode:
        print(a.stdout[-1500:], b.stdout[-1500:])
    if '-c' in os.environ.get('SEEDCHECK', '-c'):
        r = sh('VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/check.sh %s' % (S, m['PROP']), cwd='/verif')
        print('   check', m['PROP'], 'rc', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:2])
        if r.returncode == 2:
            print(r.stdout[-1500:])
