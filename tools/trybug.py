"""Runs checks against bugs described in a python file (as for plant.py), without planting them.
  trybug.py FILE [--seed N] [id ...]"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
a = sys.argv[1:]
seed = '1'
if '--seed' in a:
    i = a.index('--seed'); seed = a[i + 1]; del a[i:i + 2]
ns = {}
exec(open(a[0]).read(), ns)
for b in ns['BUGS']:
    if a[1:] and b['id'] not in a[1:]: continue
    tmp = tempfile.mkdtemp(prefix='trybug-')
    try:
        w = tmp + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        ok = True
        for f, old, new in b['edits']:
            s = open(w + '/' + f).read()
            if s.count(old) != 1: print(b['id'], 'edit matches', s.count(old)); ok = False
            open(w + '/' + f, 'w').write(s.replace(old, new))
        if not ok: continue
        env = dict(os.environ, PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1')
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for p in b['prop'].split():
            r = subprocess.run([sys.executable, V + '/harness/check.py', p, '--tier', 'quick', '--seed', seed], env=dict(os.environ, SATISFY_SRC=w + '/src'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = r.stdout.strip().splitlines()
            cl = next((l[:170] for l in last if l.startswith('violated')), last[-1][:300] if last else '')
            print('%-26s tests=%d %s %s %s' % (b['id'], t.returncode, p, {0: 'MISSED', 1: 'CAUGHT'}.get(r.returncode, 'ERROR'), cl), flush=True)
    finally:
        shutil.rmtree(tmp)
