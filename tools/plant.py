"""Writes /verif/seeded/<id>/ for every bug listed in the files given, after
confirming in a scratch copy that it applies, the unit tests still pass, and
its demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/sh
# exit 0 when the property holds on the demonstrated input (run with cwd = the repository)
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore FORCE_COLOR=1 exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(b):
    d = os.path.join(V, 'seeded', b['id'])
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        w = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', w], check=True)
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1: return 'edit of %s matches %d times' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=w).stdout
        # original lines only
        base = {}
        for f in {e[0] for e in b['edits']}:
            base[f] = set(sh(['git', 'show', '23cc525:' + f], cwd=w).stdout.splitlines())
        cur = None
        touched = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if touched and not any(t in set().union(*base.values()) for t in touched): return 'touches no original line'
        env = dict(os.environ, PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1')
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=env)
        if t.returncode: return 'unit tests fail:\n' + t.stdout[-600:]
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'].strip() + '\n')
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        bad = sh(['sh', d + '/demo.sh'], cwd=w)
        good = sh(['sh', d + '/demo.sh'], cwd='/repo')
        if good.returncode: return 'demo fails on the unchanged tree:\n' + good.stdout[-600:]
        if not bad.returncode: return 'demo passes with the bug'
        return None
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for b in ns['BUGS']:
            r = plant(b)
            if r:
                shutil.rmtree(os.path.join(V, 'seeded', b['id']), ignore_errors=True)
            print(b['id'], b['prop'], r or 'ok', flush=True)
