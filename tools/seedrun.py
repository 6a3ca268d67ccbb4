"""Runs checks against the planted bugs, each in a scratch copy: which are caught.
  seedrun.py [--seed N] [--all] [id ...]      --all: every check, not only the bug's own property"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
seed = a[a.index('--seed') + 1] if '--seed' in a else '1'
ids = [x for x in a if not x.startswith('--') and x != seed] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seedrun-')
    try:
        w = tmp + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, check=True)
        props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')] if '--all' in a else [prop]
        for p in props:
            r = subprocess.run([sys.executable, V + '/harness/check.py', p, '--tier', 'quick', '--seed', seed], env=dict(os.environ, SATISFY_SRC=w + '/src'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = r.stdout.strip().splitlines()
            cl = next((l[:160] for l in last if l.startswith('violated')), last[-1][:300] if last else '')
            if p == prop or r.returncode:
                print('%-28s %s %s rc=%d %s' % (i, p, 'CAUGHT' if r.returncode == 1 else 'ERROR' if r.returncode else 'MISSED', r.returncode, cl), flush=True)
    finally:
        shutil.rmtree(tmp)
