"""Plant one bug and confirm it in a scratch copy.

spec: dict(id, property, file, edits=[(old, new), ...] or {file: [...]}, needs, breaks, demo=<python text>)
usage as a module: plant(spec).  Confirms: original lines only, demo 0 before / non-zero after, the stable tests pass, which check fires.
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = os.environ.get('BASE_COMMIT') or subprocess.run(
    "git -C /repo log --format='%H %s' | grep -v ' fix:' | head -1 | cut -d' ' -f1", shell=True, capture_output=True, text=True).stdout.strip()
PRE = '''import os
import sys
import warnings
warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), HERE]
import lenstronomy_standin
lenstronomy_standin.install()
import numpy as np


def same(got, want, what, rtol=1e-6):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.all(np.abs(got - want) <= rtol * np.abs(want)):
        print('BROKEN', what, 'got', got, 'want', want)
        sys.exit(1)


def true(cond, what):
    if not cond:
        print('BROKEN', what)
        sys.exit(1)


'''
SH = '''#!/bin/bash
# runs in /repo: 0 when the property holds, non-zero when it is broken
S="$(mktemp -d)"; trap 'rm -rf "$S"' EXIT
export PYTHONDONTWRITEBYTECODE=1 HOME="$S" TMPDIR="$S" OMP_NUM_THREADS=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), capture_output=True, text=True, timeout=890)


def plant(s, check=True):
    d = os.path.join(VERIF, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='pl_', dir='/tmp')
    r = w + '/r'
    out = [s['id']]
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        edits = s['edits'] if isinstance(s['edits'], dict) else {s['file']: s['edits']}
        open(d + '/demo.py', 'w').write(PRE + s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        shutil.copy(VERIF + '/lib/lenstronomy_standin.py', d)
        a = run([d + '/demo.sh'], r)
        out.append('clean=%d' % a.returncode)
        if a.returncode:
            out.append((a.stdout + a.stderr)[-600:])
        for f, es in edits.items():
            t = open(r + '/' + f).read()
            blame = run(['git', 'blame', '-l', '-s', 'HEAD', '--', f], r).stdout.splitlines()
            for old, new in es:
                assert t.count(old) >= 1, (s['id'], f, old)
                if t.count(old) > 1:
                    out.append('AMBIGUOUS x%d' % t.count(old))
                t = t.replace(old, new, 1)
            open(r + '/' + f, 'w').write(t)
        p = run(['git', 'diff'], r).stdout
        # the lines taken away belong to the original
        for f in edits:
            cur = run(['git', 'diff', '-U0', '--', f], r).stdout
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', cur, re.M):
                n0, k = int(m.group(1)), int(m.group(2) or 1)
                for i in range(n0, n0 + k):
                    h = blame[i - 1].split()[0].lstrip('^')
                    if run(['git', 'merge-base', '--is-ancestor', h, BASE], '/repo').returncode:
                        out.append('MY-LINE %s:%d' % (f, i))
        open(d + '/patch.diff', 'w').write(p)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        b = run([d + '/demo.sh'], r)
        out.append('patched=%d %s' % (b.returncode, (b.stdout + b.stderr)[-150:].strip()))
        t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/test_concentration_models.py',
                 'tests/test_rendering/test_mass_functions/test_gaussian.py', 'tests/test_rendering/test_spatial_distribution/test_correlated.py'], r,
                PYTHONPATH=r)
        out.append('tests: ' + t.stdout.strip().splitlines()[-1])
        if check:
            c = run([PY, VERIF + '/checks/%s.py' % s['property']], VERIF, PYHALO_REPO=r, VERIF_EVIDENCE_SKIP='1', OMP_NUM_THREADS='1',
                    OPENBLAS_NUM_THREADS='1')
            out.append('check=%d %s' % (c.returncode, [l[:150] for l in c.stdout.splitlines() if l.startswith('  broken')][:3]))
    finally:
        shutil.rmtree(w)
    print('\n   '.join(out), flush=True)


def plant_all(specs, check=True):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", 3))) as ex:
        for f in [ex.submit(plant, s, check) for s in specs]:
            try:
                f.result()
            except Exception as e:
                print('ERROR', repr(e)[:500])
