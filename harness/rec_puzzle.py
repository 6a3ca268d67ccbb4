"""Records runs of the puzzle solvers and of the command line tool."""
import ast as _ast, contextlib, io, re, shutil, subprocess, tempfile
from rt import *
install_clock()
import networkx as nx
from text import text
from satisfy.solver import VarSelectionPolicy
from satisfy.utils import INFINITY

POL = {p.name: p for p in VarSelectionPolicy}
LIMITSEC = 120
COLORCODE = {'31': 'red', '32': 'green', '33': 'yellow', '34': 'blue', '35': 'magenta', '36': 'cyan', '30': 'black', '97': 'white',
             '37': 'light_grey', '90': 'dark_grey', '91': 'light_red', '94': 'light_blue', '96': 'light_cyan'}
CELL = re.compile('\x1b\\[(\\d+)m(.)\x1b\\[0m|(.)', re.S)
ATTRS = (('owner', ['English', 'Swede', 'Dane', 'Norwegian', 'German']), ('color', ['red', 'green', 'white', 'yellow', 'blue']),
         ('drink', ['water', 'coffee', 'tea', 'milk', 'beer']), ('smoke', ['Pall Mall', 'Prince', 'Dunhill', 'Blend', 'Blue Master']),
         ('animal', ['cats', 'a dog', 'birds', 'a horse', 'a zebra']))


def index(lst, x):
    """1-based position of x (same type, same value), or a sentinel"""
    for i, y in enumerate(lst):
        if type(y) is type(x) and y == x:
            return i + 1
    return NONINT


def matrix(m):
    return [[enc(x) for x in row] for row in m]


def solverargs(a):
    r = {}
    if 'pol' in a: r['var_selection_policy'] = POL[a['pol']]
    if 'comp' in a: r['compile_constraints'] = a['comp']
    for k in ('limit', 'timeout'):
        if k in a: r[k] = INFINITY if a[k] == 'inf' else a[k]
    return r


def container(kind, items):
    return list(items) if kind == 'list' else tuple(items) if kind == 'tuple' else iter(list(items)) if kind == 'iter' else (x for x in list(items))


# ------------------------------------------------------------ node / labels
def nodes_of(kind, n):
    if kind == 'int': return list(range(n))
    if kind == 'rint': return [7 * (n - i) for i in range(n)]
    if kind == 'str': return ['node %d' % i for i in range(n)]
    if kind == 'tuple': return [(i // 2, i % 2) for i in range(n)]
    return ([5, '5', (1, 2), frozenset({1}), 'n_0', 0, 'n_1', '(1, 2)', 'x', -3, 'X', '0', (), 1.5, '', 'n_10', 10 ** 20] + ['%d.' % i for i in range(n)])[:n]


def graph_of(I, cls, nodekind):
    nodes = nodes_of(nodekind, I['n'])
    g = getattr(nx, cls)()
    g.add_nodes_from(nodes)
    for a, b in I['edges']:
        g.add_edge(nodes[a - 1], nodes[b - 1])
    return g, nodes


# ------------------------------------------------------------------- solvers
def make(case):
    """the solver and a function turning what it yields into plain data"""
    kind, I, a = case['kind'], case['I'], solverargs(case.get('args', {}))
    if kind == 'sudoku':
        from satisfy.sudoku import SudokuSolver
        sub = case.get('sub', {})
        rows = [[sub.get('%d,%d' % (r, c), v) for c, v in enumerate(row)] for r, row in enumerate(I['grid'])]
        outer, inner = case.get('cont', ('list', 'list'))
        return SudokuSolver(container(outer, [container(inner, r) for r in rows]), **a), matrix
    if kind == 'nonogram':
        from satisfy.nonogram import NonogramSolver
        return NonogramSolver({'rows': I['rows'], 'columns': I['cols']}, **a), matrix
    if kind == 'graph':
        from satisfy.graph_labeling import GraphLabelingSolver
        g, nodes = graph_of(I, case['cls'], case['nodes'])
        labels = [tuple(x) if isinstance(x, list) else x for x in case['labels']]

        def conv(sol):
            if not isinstance(sol, dict) or len(sol) != len(nodes) or any(n not in sol for n in nodes):
                return []
            return [index(labels, sol[n]) for n in nodes]
        return GraphLabelingSolver(g, container(case.get('cont', 'list'), labels), **a), conv
    if kind == 'map':
        from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
        rows = [''.join(map(chr, r)) for r in I['map']]
        m = {'text': '\n'.join(rows), 'rows': rows, 'chars': [list(r) for r in rows]}[case['form']]
        if 'colors' in case:
            return AsciiMapColoringSolver(m, tuple(case['colors']), **a), lambda s: drawn(s, case['colors'])
        return AsciiMapColoringSolver(m, **a), lambda s: drawn(s, ['red', 'green', 'blue', 'yellow'])
    if kind == 'crypt':
        from satisfy.cryptarithm import CryptarithmSolver
        src = text(I['f'], case['case'], case.get('sp', ''))
        kw = {} if case.get('z') is None else {'avoid_leading_zeros': bool(case['z'])}
        return CryptarithmSolver(src, **kw, **a), letters
    if kind == 'queens':
        from satisfy.tool.queens import QueensSolver
        return QueensSolver(I['n'], **a), matrix
    if kind == 'einstein':
        from satisfy.tool.einstein_riddle import EinsteinRiddleSolver

        def conv(sol):
            if sorted(sol) != [1, 2, 3, 4, 5] or any(sorted(sol[h]) != sorted(n for n, _ in ATTRS) for h in sol):
                return []
            return [[index(vals, sol[h][n]) for n, vals in ATTRS] for h in range(1, 6)]
        return EinsteinRiddleSolver(**a), conv
    raise AssertionError(kind)


def letters(sol):
    out = []
    for k, v in sol.items():
        ok = isinstance(k, str) and len(k) == 1 and 'A' <= k <= 'Z'
        out.append([ord(k) - ord('A') + 10 if ok else NONINT, enc(v) if type(v) is int else NONINT])
    return sorted(out)


def drawn(rows, colors):
    out = []
    for row in rows:
        line = []
        for m in CELL.finditer(''.join(row)):
            if m.group(3) is not None:
                line.append(0 if m.group(3) == ' ' else NONINT)
            else:
                line.append(index(list(colors), COLORCODE.get(m.group(1))) if m.group(2) not in ' .' else NONINT)
        out.append(line)
    return out


def limval(a, default):
    l = a.get('limit')
    return default if l is None else -1 if l == 'inf' else l


def record(case):
    CLOCK.reset()
    CLOCK.auto = 0
    ev = []
    try:
        with guard(case.get('guard', LIMITSEC)):
            {'solve': solve, 'knap': knap, 'clues': clues, 'cli': cli}[case['do']](case, ev)
    except Hang:
        if not case.get('soft'):
            ev.append({'op': 'fail', 'out': 'hang'})
    except Exception as e:
        import traceback
        ev.append({'op': 'fail', 'out': excname(e), 'msg': traceback.format_exc()[-600:]})
    return {'id': case['id'], 'events': ev}


def opened(case, out, lim):
    I = case['I']
    if 'big' in I:
        I = dict(I, values=[bigenc(v) for v in I['values']], caps=[bigenc(v) for v in I['caps']], weights=[[bigenc(v) for v in w] for w in I['weights']])
    return {'op': 'open', 'kind': case['kind'], 'I': I, 'lim': lim, 'cut': case.get('cut', 0), 'full': case.get('full', 1), 'out': out}


def solve(case, ev):
    lim = limval(case.get('args', {}), 1 if case['kind'] in ('sudoku', 'map') else -1)
    for n in range(case.get('times', 1)):
        if n == 0 or not case.get('reuse'):
            try:
                solver, conv = make(case)
            except Exception as e:
                ev.append(opened(case, excname(e), lim))
                return
        ev.append(opened(case, 'ok', lim))
        for s in solver:
            ev.append({'op': 'yield', 'sol': conv(s), 'num': -1})
            if len(ev) > 3000: break
        st = solver.get_stats()
        ev.append({'op': 'end', 'intr': st.interrupt or 'none', 'cnt': enc(st.count), 'sum': ''})


def knap(case, ev):
    from satisfy.knapsack import KnapsackOptimizer
    I, c = case['I'], case.get('cont', ['list'] * 4)
    lim = limval(case.get('args', {}), -1)
    raw = case.get('raw', I)
    try:
        k = KnapsackOptimizer(container(c[0], raw['values']), container(c[1], raw['caps']),
                              container(c[2], [container(c[3], w) if isinstance(w, list) else w for w in raw['weights']]), **solverargs(case.get('args', {})))
    except Exception as e:
        ev.append(opened(case, excname(e), lim))
        return
    for _ in range(case.get('times', 1)):
        ev.append(opened(case, 'ok', lim))
        r = k()
        st = k.get_stats()
        has = r.solution is not None
        num = bigenc if 'big' in I else enc
        ev.append({'op': 'result', 'opt': enc(r.is_optimal) if isinstance(r.is_optimal, bool) else NONINT, 'has': int(has), 'cnt': enc(st.count),
                   'sol': [enc(x) for x in r.solution] if has else [], 'value': num(r.value) if has else (0 if r.value is None else NONINT),
                   'ws': [num(x) for x in r.weights] if has else []})


def clues(case, ev):
    from satisfy.nonogram import pixmap_to_nonogram
    from satisfy.tool import demo_nonogram as D
    if 'text' in case:
        txt = '\n'.join(''.join(map(chr, r)) for r in case['text'])
        kw = {} if case.get('blanks') is None else {'zeroes': set(map(chr, case['blanks']))}
        blanks = case.get('blanks') or [32, 95]
        pic = D.image_to_pixmap(txt, **kw)
        ev.append({'op': 'image', 'text': case['text'], 'blanks': blanks, 'pic': matrix(pic)})
        n = D.image_to_nonogram(txt, **kw)
    else:
        conv = case.get('cells')         # how cells are written: any truth value
        pic = [[(conv[x] if conv else x) for x in row] for row in case['pic']]
        n = pixmap_to_nonogram(pic)
        pic = case['pic']
    rows, cols = n['rows'], n['columns']
    ev.append({'op': 'clues', 'pic': matrix(pic), 'rows': matrix(rows), 'cols': matrix(cols)})
    if pic:
        if case.get('zo'):
            z, o = case['zo']
            again = D.image_to_pixmap(D.pixmap_to_image(pic, zero=z, one=o), zeroes={z})
        else:
            again = D.image_to_pixmap(D.pixmap_to_image(pic))
        ev.append({'op': 'back', 'pic': matrix(pic), 'again': matrix(again)})
    if case.get('solve'):
        from satisfy.nonogram import NonogramSolver
        ns = NonogramSolver(n, **solverargs(case.get('args', {})))
        ev.append({'op': 'open', 'kind': 'nonogram', 'I': {'rows': matrix(rows), 'cols': matrix(cols)}, 'lim': -1, 'cut': 0, 'full': 1, 'out': 'ok'})
        for s in ns:
            ev.append({'op': 'yield', 'sol': matrix(s), 'num': -1})
        st = ns.get_stats()
        ev.append({'op': 'end', 'intr': st.interrupt or 'none', 'cnt': enc(st.count), 'sum': ''})


# ------------------------------------------------------------- command line
BUILT = []


def watch():
    """remember the solver a run of the command line builds"""
    from satisfy import solver
    base = solver.ModelSolverBase
    if getattr(base, '_watched', False): return
    init = base.__init__

    def wrapped(self, *a, **k):
        init(self, *a, **k)
        BUILT.append(self)
    base.__init__, base._watched = wrapped, True


def listing(lines, ev):
    """the variables (with their values in order of size) and constraints listed, and those of the model; names and texts by number"""
    ids = {}
    num = lambda t: ids.setdefault(t, len(ids) + 1)
    vs, cs, at = [], [], None
    for l in lines:
        if l == '=== model variables: ===': at = vs
        elif l == '=== model constraints: ===': at = cs
        elif at is not None:
            m = re.fullmatch(r' *(\d+)\) (.*)', l)
            if not m and l == '' and at is vs: continue
            if not m: break
            if at is cs: cs.append([int(m.group(1)), num(m.group(2))])
            else:
                v = re.fullmatch(r'''('.*'|".*") domain: (.*)''', m.group(2))
                try: dom = sorted(enc(x) for x in eval(v.group(2), {'range': range, 'set': set, 'frozenset': frozenset, '__builtins__': {}}) or ())
                except Exception: dom = [NONINT]
                vs.append([int(m.group(1)), num(_ast.literal_eval(v.group(1)) if v else m.group(2))] + dom)
    model = BUILT[-1].model
    ev.append({'op': 'listing', 'vars': vs, 'cons': cs, 'mvars': [[num(n)] + sorted(enc(x) for x in i.domain) for n, i in model.variables().items() if i.domain is not None],
               'mcons': [num(str(c)) for c in model.constraints()]})


def cli(case, ev):
    tmp = tempfile.mkdtemp(prefix='vcli-')
    spent = -1
    try:
        argv = list(case['argv'])
        for i, a in enumerate(argv):
            if a.endswith('@file'):
                path = os.path.join(tmp, 'input.txt')
                argv[i] = a[:-5] + path
                with open(path, 'w') as f:
                    f.write(case['file'])
        if case.get('sub'):
            env = dict(os.environ, PYTHONPATH=SRC, PYTHONIOENCODING='utf-8')
            p = subprocess.run([sys.executable, '-c', 'from satisfy.tool import main; main()'] + argv, env=env, cwd=tmp,
                               stdin=subprocess.DEVNULL, capture_output=True, timeout=100)
            out, rc = p.stdout.decode('utf-8'), p.returncode
        else:
            from satisfy.tool import main
            watch()
            BUILT.clear()
            CLOCK.auto = case.get('tick', 0)
            buf, old, oldin = io.StringIO(), sys.argv, sys.stdin
            sys.argv = ['satisfy'] + argv
            if '-' in argv: sys.stdin = io.StringIO(case['file'])
            rc, spent = 0, CLOCK.now
            try:
                with contextlib.redirect_stdout(buf):
                    main()
            except SystemExit as e:
                rc = e.code or 0
            finally:
                sys.argv, sys.stdin = old, oldin
                CLOCK.auto = 0
                spent = CLOCK.now - spent
            out = buf.getvalue()
    finally:
        shutil.rmtree(tmp)
    if rc:
        ev.append({'op': 'fail', 'out': 'exit:%s' % rc})
        return
    if case.get('defmap'):
        from satisfy.tool.demo_ascii_map_coloring import default_ascii_map_coloring_source
        case['I']['map'] = [[ord(c) for c in l] for l in default_ascii_map_coloring_source().split('\n')]
    ev.append(opened(case, 'ok', case['lim']))
    asked = bool({'-s', '--show-model'} & set(argv))
    if BUILT and not case.get('sub') and (asked or '=== model variables: ===' in out):
        listing(out.split('\n'), ev)
        ev[-1]['asked'] = int(asked)
    parse(case, out, ev, spent)


SUMMARY = re.compile(r'Found (?:(\d+) (partial) solutions?|(unique) solution|all (\d+) solutions?) in (\d+\.\d+) seconds(?: \[(\w+) reached\])?')
KSUMMARY = re.compile(r'Found (optimal|sub-optimal) solution in (\d+\.\d+) seconds after (\d+) solve iterations?(?: \[(\w+) reached\])?')


def timing(case, printed, spent):
    """milliseconds printed, those that passed during the run, those of the timeout; -1: not known"""
    if spent < 0: return {'el': -1, 'spent': -1, 'tick': 0, 'tmo': -1}
    return {'el': min(10 ** 9, round(float(printed) * 1000)), 'spent': min(10 ** 9, spent * 1000), 'tick': case.get('tick', 0), 'tmo': case.get('tmo', -1)}


def parse(case, out, ev, spent):
    lines = out.split('\n')
    if case['kind'] == 'knapsack':
        return parse_knap(case, lines, ev, spent)
    heads = [i for i, l in enumerate(lines) if re.fullmatch(r'=== solution \d+ ===', l)]
    ends = [i for i, l in enumerate(lines) if l.startswith('Found ')]
    if len(ends) != 1 or (heads and heads[-1] > ends[0]):
        ev.append({'op': 'fail', 'out': 'summary'})
        return
    for a, b in zip(heads, heads[1:] + ends):
        body = lines[a + 1:b]
        if body and body[-1] == '': body = body[:-1]
        words = []
        try:
            sol = READ[case['kind']](case, body, words)
        except Exception as e:
            sol = []
        ev.append({'op': 'yield', 'sol': sol, 'num': int(lines[a].split()[2])})
        if words:
            ev.append({'op': 'subst', 'words': words})
    m = SUMMARY.fullmatch(lines[ends[0]])
    if not m:
        ev.append({'op': 'fail', 'out': 'summary'})
        return
    kind = m.group(2) or m.group(3) or 'all'
    ev.append({'op': 'end', 'intr': m.group(6) or 'none', 'cnt': int(m.group(1) or m.group(4) or 1), 'sum': kind})
    ev.append(dict(timing(case, m.group(5), spent), op='took', intr=m.group(6) or 'none', cnt=ev[-1]['cnt']))


def parse_knap(case, lines, ev, spent):
    d = {}
    for l in lines:
        for k in ('is_optimal', 'solution', 'value', 'weights'):
            if l.startswith(k + ': '):
                d[k] = _ast.literal_eval(l[len(k) + 2:])
    has = 'no solution found' not in lines
    s = [KSUMMARY.fullmatch(l) for l in lines if l.startswith('Found ')]
    if len(s) != 1 or not s[0] or 'is_optimal' not in d or (has and len(d) != 4):
        ev.append({'op': 'fail', 'out': 'summary'})
        return
    ev.append({'op': 'result', 'opt': int(d['is_optimal'] is True), 'has': int(has), 'cnt': int(s[0].group(3)),
               'sol': [{'X': 1, '_': 0}.get(x, NONINT) for x in d['solution'].split()] if has else [],
               'value': (bigenc if 'big' in case['I'] else enc)(d['value']) if has else 0,
               'ws': [(bigenc if 'big' in case['I'] else enc)(x) for x in d['weights']] if has else []})
    ev.append({'op': 'ksum', 'sum': s[0].group(1), 'opt': int(d['is_optimal'] is True), 'has': int(has), 'cnt': int(s[0].group(3)), 'intr': s[0].group(4) or 'none'})
    ev.append(dict(timing(case, s[0].group(2), spent), op='took', intr=ev[-1]['intr'], cnt=ev[-1]['cnt']))


def read_sudoku(case, body, words):
    return [[0 if t == '.' else int(t) for t in l.replace('│', ' ').split()] for l in body if l.startswith('│')]


def read_nonogram(case, body, words):
    return [[{'#': 1, ' ': 0}.get(c, NONINT) for c in l] for l in body]


def read_graph(case, body, words):
    d = _ast.literal_eval('\n'.join(body))
    nodes = case['nodelist']
    if len(d) != len(nodes): return []
    return [index(case['labels'], d[n]) for n in nodes]


def read_map(case, body, words):
    return drawn(body, case['colors'])


def read_queens(case, body, words):
    return [[{' ♛ ': 1, '   ': 0}.get(c, NONINT) for c in l.split('│')[1:-1]] for l in body if l.startswith('│')]


EIN = re.compile(r'(\[\*\]|   ) The (.+), who lives in the (\w+) (\w+) house, drinks (\w+), smokes (.+) and has (.+)\.')


def read_einstein(case, body, words):
    out = []
    for i, l in enumerate(body):
        m = EIN.fullmatch(l)
        if m.group(3) != ['first', 'second', 'third', 'fourth', 'fifth'][i]: return []
        if (m.group(1) == '[*]') != (m.group(7) == 'a zebra'): return []
        out.append([index(v, m.group(j)) for (n, v), j in zip(ATTRS, (2, 4, 5, 6, 7))])
    return out


def read_crypt(case, body, words):
    sol = []
    for l in body:
        m = re.fullmatch(r'([A-Z]) = (\d+)', l)
        if m:
            sol.append([ord(m.group(1)) - ord('A') + 10, int(m.group(2))])
        elif l.startswith('==> '):
            words.extend([[int(c) if c.isdigit() else NONINT for c in w] for w in re.findall(r'\w+', l[4:])])
    if not words: words.append([NONINT])
    return sorted(sol)


READ = {k[5:]: v for k, v in globals().items() if k.startswith('read_')}
