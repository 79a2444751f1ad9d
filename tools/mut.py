"""try a change against a check in a scratch copy: mut.py <check> <file> <old> <new>   (old/new are literal text)"""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
shutil.copytree(os.environ.get('BASE', '/repo'), d + '/r', ignore=shutil.ignore_patterns('.git', 'tests', '*.png', '*.pdf', 'example_notebooks'))
p = os.path.join(d, 'r', f)
s = open(p).read()
assert old in s, 'text not found'
open(p, 'w').write(s.replace(old, new, int(os.environ.get('N', '1'))))
r = subprocess.run(['/opt/venv/bin/python', '/verif/checks/%s.py' % pid], env=dict(os.environ, PYHALO_REPO=d + '/r', VERIF_EVIDENCE_SKIP='1'),
                   capture_output=True, text=True)
print('exit', r.returncode, '|', f, '|', old[:60].replace('\n', ' '), '->', new[:60].replace('\n', ' '))
print('\n'.join('   ' + l[:260] for l in (r.stdout + r.stderr[-500:]).splitlines() if l.startswith('  broken') or 'HARNESS' in l)[:1200])
shutil.rmtree(d)
