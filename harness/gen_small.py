"""Session programs over the finite family of problems of spec/Instances.tla, written out by TLC:
every problem, under the settings a property is about."""
import itertools, random
from tlcrun import generate
from gen import POL, compare, constraints, holds, names, objectives, setup, vars_of

DET = [p for p in POL if p != 'RANDOM']


def instances(tier, maxcons=2):
    return generate('CspGen', 'CONSTANTS MaxVars = 3\nMaxCons = %d\nDomSet = "%s"\nINIT Init\nNEXT Next\n' % (maxcons, 'few' if tier == 'quick' else 'all'))


def build(P, cost=None, nm=('a', 'b', 'c')):
    prog = [['addvar', nm[i], d, 'list'] for i, d in enumerate(P['dom'])]
    for c in P['cons']:
        many = len(vars_of(c[1]) if c[0] == 'e' else set(c[1])) > 1
        prog.append(['addcon', c, cost if cost and many else None])
    return prog + [['solver', dict(comp=True)], ['solver', dict(comp=False)]]


def plan(prop, P, r, tier):
    """the enumerations to run"""
    deep = tier == 'thorough'
    n = P['total']
    if prop in ('C01', 'C02'):
        grid = list(itertools.product((1, 2), POL))
        for s, p in grid if deep else r.sample(grid, 5): yield dict(s=s, pol=p)
    elif prop == 'C03':
        for p in ['ORDERED', 'REVERSED', r.choice(DET[2:])] * 2: yield dict(s=r.choice([1, 2]), pol=p)
    elif prop == 'C04':
        p = r.choice(DET)
        yield dict(s=1, pol=p)
        for l in range(n + 2): yield dict(s=r.choice([1, 2]), pol=p, lim=l)
    elif prop in ('C05', 'C06'):
        p = r.choice(DET)
        yield dict(s=1, pol=p)
        for t in range(12) if deep else r.sample(range(12), 4): yield dict(s=1, pol=p, to=t)
        if prop == 'C06':
            for l in range(n + 1): yield dict(s=1, pol=p, lim=l)
    elif prop in ('C07', 'C08'):
        for o in P['objs']: yield dict(s=r.choice([1, 2]), pol=r.choice(POL), objs=o)


def cases(prop, seed, tier):
    out = []
    for i, P in enumerate(instances(tier)):
        r = random.Random('small/%s/%s/%d' % (prop, seed, i))
        prog = build(P, r.choice([[1], [1, 0], [2, 0, 1]]) if prop in ('C05', 'C06') else None)
        g = 0
        for a in plan(prop, P, r, tier):
            if prop == 'C08' and g % 2:
                prog.append(['best', a])
            g += 1
            prog += [['start', a], ['drain', g, r.choice([0, 2]) if prop in ('C05', 'C06') else 0]]
            if prop in ('C04', 'C05', 'C06'): prog.append(['stats', a['s']])
            if prop == 'C08': prog.append(['best', dict(a, s=3 - a['s'])])
        out.append({'id': '%s-small-%d' % (prop, i), 'kind': 'session', 'prog': prog})
    return out


# ------------------------------------------------------------------ settings
UNSET, NONE, INF = -2, -1, -3


def settings(prop, seed, tier):
    """every combination of a limit (timeout) given to the constructor, assigned later and given to a call"""
    out = []
    vals = [UNSET, NONE, INF, 0, 2]
    for k, (what, ctor, later, call) in enumerate(itertools.product(('lim', 'to'), vals, vals, vals)):
        r = random.Random('set/%s/%d' % (seed, k))
        prog = [['addvar', 'x', [0, 1, 2], 'list'], ['addvar', 'y', [2, 0], 'list'], ['addcon', ['e', ['<=', ['-', ['v', 1], ['v', 2]], ['i', 1]]], [1]]]
        a = dict(pol=r.choice(DET), comp=r.random() < .5)
        if ctor != UNSET: a[what] = ctor
        if r.random() < .3: a['to' if what == 'lim' else 'lim'] = r.choice([NONE, INF, 3])
        prog += [['solver', a], ['get', 1]]
        if later != UNSET: prog += [['set', 1, what, later], ['get', 1]]
        b = dict(s=1)
        if call != UNSET: b[what] = call
        if r.random() < .5: b['pol'] = r.choice(POL)
        prog += [['start', b], ['drain', 1], ['stats', 1], ['get', 1], ['start', dict(s=1)], ['drain', 2], ['stats', 1], ['get', 1]]
        out.append({'id': '%s-settings-%d' % (prop, k), 'kind': 'session', 'prog': prog})
    for k, (p, q, s) in enumerate(itertools.product(POL, [''] + POL, [''] + POL)):
        r = random.Random('pol/%s/%d' % (seed, k))
        prog = [['addvar', 'x', [0, 1, 2], 'list'], ['addvar', 'y', [2, 0], 'list'], ['addcon', ['e', ['<=', ['-', ['v', 1], ['v', 2]], ['i', 1]]], None],
                ['solver', dict(pol=p)]]
        if q: prog.append(['set', 1, 'pol', q])
        prog += [['start', dict(s=1, pol=s)], ['drain', 1], ['get', 1], ['set', 1, 'pol', '', r.choice(['ORDERED', 'None', 0, 3, 1.5])], ['get', 1], ['start', dict(s=1)], ['drain', 2]]
        out.append({'id': '%s-policies-%d' % (prop, k), 'kind': 'session', 'prog': prog})
    return out


# ----------------------------------------------------------------- schedules
def schedules(prop, seed, tier):
    """every interleaving of two enumerations that spec/Schedules.tla writes"""
    out = []
    for i, s in enumerate(generate('Schedules', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\n' % (7 if tier == 'quick' else 9))):
        r = random.Random('sched/%s/%d' % (seed, i))
        prog = [['addvar', 'x', [2, 0, 1], 'list'], ['addvar', 'y', [0, 1, 2], 'range'], ['addvar', 'z', [0, 1], 'tuple'],
                ['addcon', ['e', ['!=', ['v', 1], ['v', 2]]], None], ['addcon', ['e', ['<=', ['v', 3], ['+', ['v', 1], ['v', 2]]]], None]]
        prog += [['solver', dict(comp=r.random() < .5)], ['solver', dict(comp=r.random() < .5)]]
        ex = [[], [[['e', ['<', ['v', 1], ['v', 2]]], None]], [[['ad', [1, 3]], None]], [[['e', ['==', ['v', 2], ['i', 1]]], None]]]
        obj = [[[1, ['+', ['v', 1], ['v', 3]]]], [[-1, ['*', ['v', 2], ['v', 1]]]]]
        p = r.choice(DET)
        two = r.random() < .5
        args = {'A': dict(s=1, pol=p, extra=r.choice(ex)), 'B': dict(s=2 if two else 1, pol=r.choice([p, r.choice(POL)]), extra=r.choice(ex))}
        if r.random() < .3: args[r.choice('AB')]['objs'] = r.choice(obj)
        if r.random() < .3: args[r.choice('AB')]['lim'] = r.randint(0, 3)
        g = {}
        prog.append(['snap'])
        for o in s['s']:
            k, w = o[0], o[1:]
            if k == 's':
                g[w] = len(g) + 1
                prog.append(['start', args[w]])
            elif k == 'n': prog.append(['next', g[w], 1])
            elif k == 'd': prog += [['drain', g[w]], ['kept', g[w]]]
            elif k == 'c': prog.append(['close', g[w]])
            elif k == 'm': prog.append(['mutate', g[w], r.randint(0, 2)])
            elif k == 'o': prog.append(['best', dict(s=1, objs=r.choice(obj), pol=p)])
        prog += [['kept', x] for x in g.values()] + [['snap'], ['start', dict(args['A'])], ['drain', len(g) + 1]]
        out.append({'id': '%s-sched-%d' % (prop, i), 'kind': 'session', 'prog': prog})
    return out


# ---------------------------------------------------------------- parameters
V1, V2, V3, P1, P2 = ['v', 1], ['v', 2], ['v', 3], ['p', 1], ['p', 2]
I = lambda n: ['i', n]
#           constraints of the model, additional constraint, objective, expression
PARFORMS = [
    ([['<=', ['+', V1, P1], V2]], ['!=', V1, P1], [1, ['-', V1, V2]], ['+', ['*', V1, P1], V2]),
    ([['==', ['%', ['+', V1, V2], I(3)], P1]], ['<', P1, V2], [-1, ['+', V1, V2]], ['-', P1, V1]),
    ([['!=', V1, P1], ['!=', V2, P1]], ['|', ['==', V1, P1], ['>', V2, P1]], [1, ['*', V1, V2]], ['*', P1, P1]),
    ([['>', ['+', ['+', V1, V2], V3], ['*', P1, I(2)]]], ['==', ['-', V3, P1], V1], [-1, V2], ['+', ['+', P1, P1], I(1)]),
    ([['<', V1, ['+', V2, ['neg', P1]]]], ['!=', ['abs', ['-', V1, V2]], P1], [1, V3], ['neg', P1]),
    ([['==', ['*', V1, P1], ['*', V2, P2]]], ['<=', V3, P2], [1, ['+', V1, V3]], ['**', P1, P2]),
    ([['&', ['>=', V1, P1], ['<=', V2, P2]], ['!=', V1, V2]], ['>=', ['-', V1, ['-', V2, P1]], I(0)], [-1, ['-', V1, V2]], ['+', P1, ['*', I(0), V1]]),
    ([['!=', ['/', V1, ['+', P1, I(1)]], V2]], ['==', ['**', P1, V1], I(1)], [1, ['-', I(0), V2]], ['/', V1, ['+', P1, I(1)]]),
]


def params(prop, seed, tier):
    """every history of parameter changes and solves that spec/ParamGen.tla writes"""
    out = []
    for i, h in enumerate(generate('ParamGen', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\n' % (4 if tier == 'quick' else 5))):
        r = random.Random('par/%s/%d' % (seed, i))
        cons, extra, obj, ex = PARFORMS[(i + seed) % len(PARFORMS)]
        prog = [['addvar', 'x', [0, 1, 2], 'list'], ['addvar', 'y', [2, 0, 1, 3], 'list'], ['addvar', 'z', [1, 0], 'list'],
                ['addpar', 'p', r.randint(0, 2)], ['addpar', 'q', r.randint(0, 2)]]
        prog += [['addcon', ['e', c], None] for c in cons] + [['solver', dict(comp=True)], ['solver', dict(comp=False)]]
        g = 0
        for o in h['s']:
            if o in '012':
                prog.append(['setpar', 1 if r.random() < .8 else 2, int(o)])
            elif o == 'e':
                prog.append(['eval', ex, [r.randint(0, 2), r.randint(0, 3), r.randint(0, 1)]])
            elif o == 'o':
                prog.append(['best', dict(s=r.choice([1, 2]), objs=[obj], reuse=True)])
            else:
                g += 1
                a = dict(s=2 if o in 'iy' else 1, pol=r.choice(POL))
                if o in 'xy': a.update(extra=[[['e', extra], None]], reuse=True)
                prog.append(['start', a])
                prog += [['next', g, 1], ['close', g]] if o == 'a' else [['drain', g]]
        out.append({'id': '%s-par-%d' % (prop, i), 'kind': 'session', 'prog': prog})
    return out


# ------------------------------------------------- constraints without variables
def hollow(prop, seed, tier):
    """problems with no variable, one, or an empty domain, and constraints that have no variable, in the model and in the call"""
    out = []
    PAR = [['b', 1], ['b', 0], ['e', ['<=', ['p', 1], ['i', 2]]], ['e', ['>', ['p', 1], ['i', 2]]], ['e', ['==', ['c', 1], ['c', 1]]]]
    doms = [[], [[1, 0, 2]], [[1, 0], [2, 3]], [[]], [[0, 1], []]]
    mods = [[]] + [[c] for c in PAR] + [[PAR[0], PAR[3]], [PAR[2], PAR[0]]]
    exs = [[]] + [[c] for c in PAR] + [[['ad', []]], [PAR[0], PAR[1]], [PAR[2], PAR[3]], [PAR[3], PAR[2]]]
    for k, (d, mod, ex) in enumerate(itertools.product(doms, mods, exs)):
        r = random.Random('hollow/%s/%d' % (seed, k))
        prog = [['addpar', 'p', 1]] + [['addvar', 'xy'[i], v, 'list'] for i, v in enumerate(d)]
        if len(d) == 2: prog.append(['addcon', ['e', ['!=', ['v', 1], ['v', 2]]], None])
        prog += [['addcon', c, None] for c in mod]
        if r.random() < .3: prog += [['setsolv', v] for v in r.choice([[0], [1], [0, 1], [1, 0]])]
        prog += [['solver', dict(comp=True)], ['solver', dict(comp=False)]]
        if len(d) == 1 and r.random() < .5: ex = ex + [['e', ['!=', ['v', 1], ['i', 1]]]]
        xs = [[c, None] for c in ex]
        lims, tos = [-2, 0, 1, 2], [-2, -2, 0, -1]
        for g in range(3):
            a = dict(s=r.choice([1, 2]), pol=r.choice(POL), extra=xs, extra_as=r.choice(['list', 'tuple', 'iter']), lim=lims[(k + g) % 4] if g else -2, to=r.choice(tos))
            if prop in ('C07', 'C08'):
                a['objs'] = [[r.choice([1, -1]), r.choice([['c', 3], ['p', 1], ['+', ['c', 1], ['p', 1]]] + ([['v', 1]] if d else []))]]
                if r.random() < .3: a['objs'].append([r.choice([1, -1]), ['c', 0]])
                if prop == 'C08': prog.append(['best', a])
            prog += [['start', a], ['drain', g + 1], ['stats', a['s']]]
        out.append({'id': '%s-hollow-%d' % (prop, k), 'kind': 'session', 'prog': prog})
    return out


# --------------------------------------------------------------------- large
def hide(r, doms, mk, want, tries=400):
    """constraints made by mk that a hidden assignment satisfies"""
    asg = [r.choice(d) for d, k in doms]
    out = []
    while len(out) < want and tries:
        tries -= 1
        c = mk()
        if holds(c, asg, ()): out.append(c)
    return out


def plain(vals, r):
    return list(vals), r.choice(['list', 'tuple', 'list', 'range'] if list(vals) == list(range(vals[0], vals[0] + len(vals))) else ['list', 'tuple'])


def big_problem(r, kind):
    """many variables, many solutions, wide domains, many constraints, long sums; few enough solutions by construction"""
    if kind == 'fixed':
        n = r.randint(13, 40) if r.random() < .6 else r.randint(66, 150)
        free = set(r.sample(range(n), r.randint(3, 6)))
        doms = [plain(r.sample(range(-5, 40), r.choice([2, 2, 3]) if i in free else 1), r) for i in range(n)]
        def mk():
            if r.random() < .3: return ['ad', r.sample(range(1, n + 1), r.randint(2, 12))]
            ks = r.sample(range(1, n + 1), r.choice([1, 2, 2, 3]))
            if r.random() < .7: ks[0] = r.choice(sorted(free)) + 1
            return ['e', compare(r, list(dict.fromkeys(ks)))]
        return doms, hide(r, doms, mk, r.randint(5, 40))
    if kind == 'chain':
        n = r.randint(10, 16)
        doms = [plain([0, 1] if r.random() < .5 else [1, 0], r) for _ in range(n)]
        op = r.choice(['<=', '>='])
        return doms, [['e', [op, ['v', i], ['v', i + 1]]] for i in range(1, n)]
    if kind == 'perm':
        n = r.randint(8, 14) if r.random() < .7 else r.randint(17, 25)
        p = r.sample(range(n), n)
        free = set(r.sample(range(n), r.randint(3, 4) if n < 17 else 3))
        vals = [p[i] for i in free]
        doms = [plain(r.sample(vals, len(vals)) if i in free else [p[i]] if r.random() < .3 else range(n), r) for i in range(n)]
        cons = [['e', r.choice([['==', ['v', i + 1], ['i', p[i]]], ['==', ['i', p[i]], ['v', i + 1]]])] for i in range(n) if i not in free and len(doms[i][0]) > 1]
        cons.insert(r.randint(0, len(cons)), ['ad', r.sample(range(1, n + 1), n)])
        return doms, cons
    if kind == 'many':
        doms = [plain(r.sample(range(-4, 20), r.randint(4, 8)), r) for _ in range(3)]
        return doms, constraints(r, doms, (), count=r.choice([0, 1]))
    if kind == 'wide':
        n = r.choice([1, 1, 2])
        lo = r.choice([0, 1, -200, 1000])
        doms = [plain(list(range(lo, lo + r.randint(150, 400))), r)] + [plain(r.sample(range(-3, 9), 2), r) for _ in range(n - 1)]
        if r.random() < .4: doms.reverse()
        k = [len(d) for d, _ in doms].index(max(len(d) for d, _ in doms)) + 1
        return doms, [['e', ['==', ['%', ['v', k], ['i', r.choice([3, 7, 11])]], ['i', r.randint(0, 2)]]]] + constraints(r, doms, (), count=r.choice([0, 1]))
    if kind == 'cons':
        n = r.randint(3, 5)
        doms = [plain(r.sample(range(-6, 9), r.choice([3, 4])), r) for _ in range(n)]
        def mk():
            if r.random() < .1: return ['ad', r.sample(range(1, n + 1), r.randint(2, n))]
            return ['e', compare(r, r.sample(range(1, n + 1), r.choice([1, 2, 2, 3])))]
        return doms, hide(r, doms, mk, r.randint(12, 40) if r.random() < .6 else r.randint(66, 140))
    n = r.randint(10, 20)                               # sum
    free = set(r.sample(range(n), r.randint(4, 6)))
    doms = [plain(r.sample(range(0, 4), 2) if i in free else [r.randint(0, 3)], r) for i in range(n)]
    e = ['v', 1]
    for i in range(2, n + 1): e = [r.choice('+++-'), e, ['*', ['i', r.randint(1, 3)], ['v', i]] if r.random() < .3 else ['v', i]]
    from gen import pyev
    t = pyev(e, [r.choice(d) for d, k in doms], ())
    return doms, [['e', [r.choice(['==', '<=', '>=']), e, ['i', t]]]]


KINDS = ['fixed', 'chain', 'perm', 'many', 'wide', 'cons', 'sum']
SWEEP = ['ORDERED', 'REVERSED']


def large(prop, seed, tier):
    """sizes beyond what the random sessions have, and long series of solves by one solver"""
    out = []
    for i in range(70 if tier == 'quick' else 700):
        r = random.Random('large/%s/%s/%d' % (prop, seed, i))
        kind = KINDS[i % 7]
        doms, cons = big_problem(r, kind)
        ticks = prop in ('C05', 'C06')
        prog = setup(r, doms, cons, (), wrapp=.5 if ticks else .05, costs=r.choice([[1], [0, 1], [0, 0, 3]]) if ticks else None)
        if kind == 'cons' and r.random() < .25:             # without a variable, after all the others
            prog += [['addcon', ['b', r.choice([0, 0, 1])], None], ['setsolv', 1]]
        prog += [['solver', dict(comp=True)], ['solver', dict(comp=False)]]
        pols = [p for p in POL if p != 'RANDOM'] if kind in ('many', 'wide', 'cons', 'perm') or len(doms) > 60 else SWEEP + r.sample([p for p in POL if p != 'RANDOM'], 1)
        g = 0
        p = r.choice(pols)
        if prop in ('C01', 'C02'): todo = [dict(s=r.choice([1, 2]), pol=q) for q in (pols if len(doms) > 60 else r.sample(pols, 2))]
        elif prop == 'C03': todo = [dict(s=r.choice([1, 2]), pol=q) for q in (SWEEP + pols if len(doms) > 60 else SWEEP + [p, p])]
        elif prop == 'C04': todo = [dict(s=1, pol=p)] + [dict(s=1, pol=p, lim=l) for l in r.sample([7, 10, 11, 16, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257], 4)]
        elif ticks: todo = [dict(s=1, pol=p)] + [dict(s=1, pol=p, to=t) for t in r.sample([5, 20, 60, 130, 300, 700], 3)] + [dict(s=1, pol=p, lim=r.randint(1, 40))]
        elif prop in ('C07', 'C08'): todo = [dict(s=r.choice([1, 2]), pol=r.choice(pols), objs=objectives(r, doms[:8] if kind != 'wide' else doms, (), r.choice([1, 1, 2]))) for _ in range(2)]
        else:
            todo = [dict(s=r.choice([1, 2]), pol=q) for q in r.sample(pols, 2)]
        for a in todo:
            g += 1
            prog += [['start', a], ['drain', g]]
            if prop in ('C04', 'C05', 'C06'): prog.append(['stats', a['s']])
            if prop == 'C08': prog.append(['best', dict(a, s=3 - a['s'])])
        out.append({'id': '%s-large-%d' % (prop, i), 'kind': 'session', 'prog': prog})
    for i in range((24 if tier == 'quick' else 240) if prop in ('C04', 'C06', 'C07', 'C08', 'C13') else 0):
        # a long way up: many strictly better solutions before the best one
        r = random.Random('climb/%s/%s/%d' % (prop, seed, i))
        n, w = r.choice([1, 2, 3, 5, 8, 12]), r.choice([11, 34, 70, 104, 132, 180, 260, 300])
        lo, sign = r.choice([0, 1, -100, 500]), r.choice([1, -1])
        vals = list(range(lo, lo + w))
        if r.random() < .3: vals = r.sample(vals, w)
        elif sign < 0: vals.reverse()
        k = r.randint(1, n)
        doms = [(vals, 'list') if j == k else plain(r.sample(range(-3, 9), 2 if j == n and n < 6 else 1), r) for j in range(1, n + 1)]
        e = ['v', k]
        for j in r.sample(range(1, n + 1), r.randint(0, n)):
            if j != k: e = [r.choice('+-'), e, ['v', j]]
        if r.random() < .3: e = ['*', e, ['i', 2]]
        if r.random() < .2: e, sign = ['neg', e], -sign
        objs = [[sign, e]]
        if r.random() < .3: objs = [[sign, ['v', k]], [sign, e if sign == 1 or e[0] != 'neg' else ['v', k]]]
        prog = setup(r, doms, constraints(r, doms, (), count=r.choice([0, 0, 1])), (), wrapp=.3 if prop == 'C06' else 0, costs=[1])
        prog += [['solver', dict(comp=True)], ['solver', dict(comp=False)]]
        for g in range(1, 3):
            a = dict(s=g, pol=r.choice([''] * 4 + [p for p in POL if p != 'RANDOM']), objs=objs)
            if g == 2 and r.random() < .5: a['lim'] = r.choice([2, w // 2, w - 1, w, w + 1, 50, 64, 100, 128])
            prog += [['start', a], ['drain', g], ['stats', g]]
            if prop in ('C08', 'C13'): prog.append(['best', dict(a, s=3 - g)])
        out.append({'id': '%s-climb-%d' % (prop, i), 'kind': 'session', 'prog': prog})
    for i in range(20 if tier == 'quick' else 200):         # many solves by one solver
        r = random.Random('series/%s/%s/%d' % (prop, seed, i))
        doms = [plain(r.sample(range(-3, 6), r.choice([2, 3])), r) for _ in range(r.randint(2, 3))]
        cons = constraints(r, doms, (), count=r.choice([1, 2]))
        prog = setup(r, doms, cons, (), wrapp=.5 if prop in ('C05', 'C06') else 0, costs=[1])
        prog.append(['solver', dict(comp=r.random() < .5, pol=r.choice(SWEEP))])
        exs = [[[c, None] for c in constraints(r, doms, (), count=1)] for _ in range(3)]
        objs = objectives(r, doms, ())
        for g in range(1, r.randint(15, 40)):
            a = dict(s=1)
            x = r.random()
            if x < .3: a.update(extra=r.choice(exs), reuse=True)
            elif x < .45: a['objs'] = objs
            elif x < .6: a['lim'] = r.randint(0, 3)
            elif x < .7 and prop in ('C05', 'C06', 'C08', 'C13'): a['to'] = r.choice([0, 2, 5])
            if prop in ('C07', 'C08') and r.random() < .5: a['objs'] = objs
            prog.append(['start', a])
            prog += [['drain', g]] if r.random() < .7 else [['next', g, 1], ['close', g]]
            if r.random() < .3: prog.append(['stats', 1])
            if prop in ('C08', 'C13') and r.random() < .3: prog.append(['best', dict(s=1, objs=objs)])
        out.append({'id': '%s-series-%d' % (prop, i), 'kind': 'session', 'prog': prog})
    return out


# ---------------------------------------------------- time that passes by itself
def running(prop, seed, tier):
    """the clock advances with every look at it; the time spent is what the solver reports between requests"""
    out = []
    for i in range(120 if tier == 'quick' else 1200):
        r = random.Random('running/%s/%s/%d' % (prop, seed, i))
        n = r.choice([1, 1, 1, 2, 2, 3])
        doms = [plain(r.sample(range(-20, 60), r.choice([1, 3, 8, 40]) if n == 1 else r.choice([1, 2, 4])), r) for _ in range(n)]
        cons = [['e', ['>=', ['v', 1], ['i', -30]]]] + constraints(r, doms, (), count=r.choice([0, 1]))
        prog = setup(r, doms, cons, (), wrapp=0)
        half = r.random() < .3
        prog += [['solver', dict(comp=r.random() < .5)], ['start', dict(s=1)], ['drain', 1]]
        for g in range(2, r.randint(4, 7)):
            a = dict(s=1, pol=r.choice(POL), to=r.choice([0, 1, 2, 3, 5, 9, 14, 30, 100, -1]))
            if half: a['half'] = True
            if r.random() < .2: a['objs'] = objectives(r, doms, ())
            if r.random() < .2: a['lim'] = r.randint(0, 5)
            prog += [['start', a], ['drain', g, r.choice([0, 0, 7])], ['stats', 1]]
        out.append({'id': '%s-running-%d' % (prop, i), 'kind': 'session', 'auto': r.choice([1, 1, 2, 5]), 'prog': prog})
    return out


# ---------------------------------------------------- evaluations that fail, and enumerations inside enumerations
def faults(prop, seed, tier):
    """a constraint of the program's own raises at some evaluation, or asks another enumeration for a solution; everything
    else, on the same solver and model, goes on as if it had not happened"""
    out = []
    for i in range(250 if tier == 'quick' else 4000):
        r = random.Random('faults/%s/%s/%d' % (prop, seed, i))
        n = r.randint(2, 4)
        doms = [plain(r.sample(range(-4, 8), r.choice([1, 2, 3, 3])), r) for _ in range(n)]
        cons = constraints(r, doms, (), count=r.choice([1, 2, 3]))
        prog = setup(r, doms, cons, (), wrapp=.8, costs=r.choice([[0], [1], [0, 2]]) if prop in ('C05', 'C06') else [0])
        ns = r.choice([1, 1, 2])
        for _ in range(ns): prog.append(['solver', dict(comp=r.random() < .5, pol=r.choice(POL))])
        exs = [[[c, [0]] for c in constraints(r, doms, (), count=1)] for _ in range(2)]
        g, live = 0, []
        for _ in range(r.randint(4, 10)):
            a = dict(s=r.randint(1, ns))
            if r.random() < .3: a['pol'] = r.choice(POL)
            if r.random() < .15: a['lim'] = r.randint(0, 4)
            if r.random() < .15 and prop in ('C05', 'C06'): a['to'] = r.choice([0, 3, 10])
            if r.random() < .25: a.update(extra=r.choice(exs), reuse=r.random() < .5)
            if r.random() < (.7 if prop in ('C07', 'C08') else .2): a['objs'] = objectives(r, doms, ())
            x = r.random()
            if x < .5: prog.append(['fault', r.choice([1, 2, 3, 5, 8, 13, 21, 40])])
            elif x < .65 and live and prop != 'C06': prog.append(['nest', r.randint(1, 15), r.choice(live)])
            else: prog.append(['fault', 0])
            if a.get('objs') and r.random() < .4:
                prog.append(['best', a])
                continue
            g += 1
            live.append(g)
            prog.append(['start', a])
            y = r.random()
            prog.append(['drain', g] if y < .6 else ['next', g, r.randint(1, 4)])
            if y > .6 and r.random() < .3: prog.append(['close', g])
            if r.random() < .5: prog.append(['next', r.choice(live), 1])
            if r.random() < .5: prog.append(['stats', a['s']])
        prog += [['fault', 0], ['snap']]
        for s in range(1, ns + 1):
            g += 1
            prog += [['start', dict(s=s)], ['drain', g], ['stats', s], ['best', dict(s=s, objs=objectives(r, doms, ()))]]
        out.append({'id': '%s-faults-%d' % (prop, i), 'kind': 'session', 'prog': prog})
    return out
