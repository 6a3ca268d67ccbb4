#!/usr/bin/env python3
"""Systematic small changes of /repo's sources, run against the recorders: which ones leave every recorded trace as it
was (a gap, or an equivalent change), which ones change traces without the specification objecting, which are caught.

  mutants.py OUT FILE[:from-to]...     e.g. mutants.py /tmp/mut/solver.json solver.py:158-312

Works on copies under /tmp; nothing here is used by the checks."""
import ast, atexit, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
# a frozen copy, so that the checks can be edited while this runs
FROZEN = tempfile.mkdtemp(prefix='mutfrozen-')
for _d in ('harness', 'spec'): shutil.copytree(os.path.join(os.path.dirname(HERE), _d), os.path.join(FROZEN, _d))
atexit.register(shutil.rmtree, FROZEN, True)
HARNESS = os.path.join(FROZEN, 'harness')
sys.path.insert(0, HARNESS)
import suites as S
from tlcrun import tlc
PY = '/opt/venv/bin/python'
SRC = '/repo/src'

SOLVE = ['small-C01', 'small-C04', 'small-C06', 'small-C07', 'small-C08', 'settings', 'schedules', 'parameters'] + \
        ['session-' + p for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C11 C13 C15'.split()]
FORM = ['small-val', 'small-vars', 'small-eq', 'formulas-val', 'formulas-vars', 'formulas-eq', 'formulas-big']
RELEVANT = {
    'solver.py': SOLVE + ['cli'], 'constraint.py': ['formulas-vars', 'formulas-val', 'model-all'] + SOLVE, 'expression.py': FORM + ['parameters', 'session-C01', 'session-C07', 'session-C11'],
    'model.py': ['model-all', 'model-random'] + SOLVE, 'objective.py': ['small-C07', 'small-C08', 'parameters', 'schedules', 'session-C07', 'session-C08', 'session-C13'],
    'utils.py': ['timer-all', 'timer-random', 'settings', 'small-C06', 'session-C06', 'session-C05', 'session-C15'],
    'sudoku.py': ['sudoku'], 'nonogram.py': ['nonogram', 'clues'], 'knapsack.py': ['knapsack'], 'cryptarithm.py': ['crypt'],
    'graph_labeling.py': ['graph', 'mapcoloring'], 'tool/ascii_map_coloring.py': ['mapcoloring', 'cli'], 'tool/queens.py': ['queens', 'cli'],
    'tool/einstein_riddle.py': ['einstein', 'cli'],
}
OWNERS = {}
for p, e in S.PROPS.items():
    for s in e['suites']: OWNERS.setdefault(s, []).append(p)

CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Mod: ['//'], ast.Pow: ['*']}


def mutants(src):
    lines = src.split('\n')
    off = [0]
    for l in lines: off.append(off[-1] + len(l) + 1)
    # columns are bytes; the sources are ASCII but for a few strings
    pos = lambda ln, col: off[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
    tree = ast.parse(src)
    par = {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}
    out = []

    def rep(n, text, what):
        a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        if src[a:b] != text: out.append((n.lineno, what, src[:a] + text + src[b:]))

    def mid(a, b, text, what, ln):
        """replace the source between nodes a and b"""
        x, y = pos(a.end_lineno, a.end_col_offset), pos(b.lineno, b.col_offset)
        out.append((ln, what, src[:x] + text + src[y:]))
    for n in ast.walk(tree):
        seg = lambda m: ast.get_source_segment(src, m)
        infn = n
        while infn in par and not isinstance(infn, (ast.FunctionDef, ast.Lambda)): infn = par[infn]
        if not isinstance(infn, (ast.FunctionDef, ast.Lambda)) and not isinstance(n, ast.Constant): continue
        if isinstance(infn, ast.FunctionDef) and infn.name in ('__repr__', '__str__', '_solve_forbidden'): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for t in CMP.get(type(n.ops[0]), []):
                a, b = seg(n.left), seg(n.comparators[0])
                rep(n, '(%s) %s (%s)' % (a, t, b), 'cmp ' + t)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str): continue
            for t in BIN[type(n.op)]: rep(n, '((%s) %s (%s))' % (seg(n.left), t, seg(n.right)), 'bin ' + t)
        elif isinstance(n, ast.BoolOp):
            t = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + t.join('(%s)' % seg(v) for v in n.values) + ')', 'bool' + t)
            for i in range(len(n.values)):
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand %d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, '(%s)' % seg(n.operand), 'neg')
        elif isinstance(n, ast.Constant) and not isinstance(par.get(n), ast.Expr):
            v = n.value
            if v is True or v is False: rep(n, str(not v), 'const')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'const+1'); rep(n, '(%d)' % (v - 1), 'const-1')
            elif v is None: pass
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, '(True)' if isinstance(n, ast.If) else seg(n.test), 'if true')
            rep(n.test, '(False)', 'if false')
        elif isinstance(n, ast.IfExp):
            rep(n, '(%s)' % seg(n.body), 'ifexp body'); rep(n, '(%s)' % seg(n.orelse), 'ifexp else')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs: rep(t, 'True', 'comp if')
        elif isinstance(n, ast.Continue): rep(n, 'break', 'break'); rep(n, 'pass', 'pass')
        elif isinstance(n, ast.Break): rep(n, 'continue', 'continue'); rep(n, 'pass', 'pass')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): rep(n, 'return None', 'return None')
        elif isinstance(n, ast.Raise): rep(n, 'pass', 'no raise')
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)): rep(n, 'pass', 'delete')
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.AugAssign):
                rep(n, '%s = %s' % (seg(n.target), seg(n.value)), 'no aug')
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice): rep(n, seg(n.value), 'no slice')
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            for a, b in (('min', 'max'), ('max', 'min'), ('any', 'all'), ('all', 'any')):
                if f == a: rep(n.func, b, a + '>' + b)
            if f in ('sorted', 'reversed', 'list', 'set', 'tuple', 'bool', 'abs', 'sum') and n.args: rep(n, '(%s)' % seg(n.args[0]), 'no ' + f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'upper', 'strip') and not n.args: rep(n, seg(n.func.value), 'no ' + n.func.attr)
            for i, k in enumerate(n.keywords):
                rest = [seg(a) for a in n.args] + [(x.arg + '=' if x.arg else '**') + seg(x.value) for x in n.keywords if x is not k]
                rep(n, '%s(%s)' % (f, ', '.join(rest)), 'no arg %s' % k.arg)
    seen, res = set(), []
    for ln, what, text in out:
        if text in seen: continue
        seen.add(text)
        try: compile(text, 'x', 'exec')
        except SyntaxError: continue
        res.append((ln, what, text))
    return res


def rec(kind, cases, src, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', FORCE_COLOR='1', PYTHONWARNINGS='ignore', SATISFY_SRC=src)
    p = subprocess.Popen([PY, os.path.join(HARNESS, 'worker.py'), kind], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, env=env)
    try:
        out, err = p.communicate(''.join(json.dumps(c) + '\n' for c in cases), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        return None
    tr = [json.loads(l) for l in out.splitlines() if l.endswith('}')]
    return tr if len(tr) == len(cases) else None


def validate(s, prop, traces):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        f = os.path.join(d, 't.ndjson')
        with open(f, 'w') as h:
            for t in traces: h.write(json.dumps(t) + '\n')
        cfg = 'CONSTANT Prop = "%s"\nINIT Init\nNEXT Next\nINVARIANT NoViolation\nCHECK_DEADLOCK FALSE\nALIAS Report\n' % prop
        for c in S.SUITES[s].get('constants', []): cfg += 'CONSTANT %s\n' % c
        out = tlc(S.SUITES[s]['spec'], cfg, d, env={'CASES': f}, workers=1, heap='1500m', timeout=300)['out']
    finally:
        shutil.rmtree(d)
    return 'No error has been found' not in out


CASES, BASE = {}, {}
STAGES = [120, 10 ** 6]


def prepare(names):
    def one(s):
        r = random.Random(s)
        p = OWNERS[s][0]
        cs = S.SUITES[s]['gen'](p, 1, 'quick')
        r.shuffle(cs)
        if len(cs) > 2600: cs = cs[:2600]
        CASES[s] = cs
        k = 300
        BASE[s] = []
        for i in range(0, len(cs), k): BASE[s] += rec(S.SUITES[s]['rec'], cs[i:i + k], SRC, 900)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, names))


def judge(fn, m):
    ln, what, text = m
    d = tempfile.mkdtemp(prefix='mutsrc-')
    try:
        shutil.copytree(SRC, d + '/src', dirs_exist_ok=True)
        with open(os.path.join(d, 'src/satisfy', fn), 'w') as f: f.write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d + '/src', PYTHONHASHSEED='0')
        try:
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '/repo/tests/unit/test_expression.py', '/repo/tests/unit/test_utils.py'], env=env, cwd='/tmp',
                               capture_output=True, timeout=60)
            if t.returncode: return (ln, what, 'tests', '')
        except subprocess.TimeoutExpired:
            return (ln, what, 'tests', 'timeout')
        differed = []
        start = 0
        for n in STAGES:
            for s in RELEVANT[fn] if fn in RELEVANT else ['cli']:
                part, base = CASES[s][start:n], BASE[s][start:n]
                for i in range(0, len(part), 300):
                    tr = rec(S.SUITES[s]['rec'], part[i:i + 300], d + '/src', 120)
                    if tr is None: return (ln, what, 'caught', s + ' crash/hang')
                    diff = [x for x, y in zip(tr, base[i:i + 300]) if x != y]
                    if diff:
                        diff.sort(key=lambda t: len(json.dumps(t)))
                        ps = OWNERS[s]
                        for p in ps[:4]:
                            if validate(s, p, diff[:60] + diff[60::7]): return (ln, what, 'caught', '%s %s' % (s, p))
                        differed.append(s)
                        break
                if len(differed) >= 12: break
            start = n
        return (ln, what, 'accepted' if differed else 'same', ','.join(differed))
    except Exception as e:
        return (ln, what, 'error', repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    outf, files = sys.argv[1], sys.argv[2:]
    need = sorted({s for f in files for s in RELEVANT.get(f.partition(':')[0], ['cli'])})
    t0 = time.time()
    prepare(need)
    print('baseline', len(need), 'suites', sum(map(len, CASES.values())), 'cases', round(time.time() - t0), 's', flush=True)
    results = []
    with cf.ThreadPoolExecutor(8) as ex:
        for fn in files:
            fn, _, span = fn.partition(':')
            ms = mutants(open(os.path.join(SRC, 'satisfy', fn)).read())
            if span:
                a, b = map(int, span.split('-'))
                ms = [m for m in ms if a <= m[0] <= b]
            print(fn, len(ms), 'mutants', flush=True)
            for r in ex.map(lambda m: judge(fn, m), ms):
                results.append((fn,) + r)
                if r[2] in ('same', 'accepted', 'error'): print(fn, *r, flush=True)
            n = {}
            for r in results:
                if r[0] == fn: n[r[3]] = n.get(r[3], 0) + 1
            print(fn, n, round(time.time() - t0), 's', flush=True)
            json.dump(results, open(outf, 'w'))


if __name__ == '__main__':
    main()
