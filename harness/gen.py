"""Generators of session programs (inputs only; the oracle is the TLA+ specification)."""
import json, random

POL = ['ORDERED', 'REVERSED', 'RANDOM', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT']
NAMES = ['x', 'y', 'z', 'a', 'b', 'sum', 'prod', 'abs', 'if', 'lambda', 'q_1', 'q_10', 'A9', 'v1', 'v2', 'X', 'Var', 'n_0',
         'eval', 'not_', 'None', 'self', 'value', 'substitution', 'e', 'w', 'u2', 'alpha', 'e1', 'o_O', 'l', 'i', 'j', 'k']
CMP = ['==', '!=', '<', '<=', '>', '>=']


def pyev(a, asg, par):
    from_op = a[0]
    if from_op in ('i', 'c'): return a[1]
    if from_op == 'v': return asg[a[1] - 1]
    if from_op == 'p': return par[a[1] - 1]
    if from_op == 'sum': return a[1] + sum(pyev(x, asg, par) for x in a[2])
    if from_op == 'prod':
        r = a[1]
        for x in a[2]: r *= pyev(x, asg, par)
        return r
    l = pyev(a[1], asg, par)
    if from_op == 'neg': return -l
    if from_op == 'abs': return abs(l)
    if from_op == 'pos': return l
    if from_op == 'not': return not l
    if from_op == '&': return l and pyev(a[2], asg, par)
    if from_op == '|': return l or pyev(a[2], asg, par)
    r = pyev(a[2], asg, par)
    return {'+': lambda: l + r, '-': lambda: l - r, '*': lambda: l * r, '/': lambda: l // r, '%': lambda: l % r,
            '**': lambda: l ** r, '==': lambda: l == r, '!=': lambda: l != r, '<': lambda: l < r, '<=': lambda: l <= r,
            '>': lambda: l > r, '>=': lambda: l >= r}[from_op]()


def leaf(r, vs, np=0):
    x = r.random()
    if vs and x < 0.72: return ['v', r.choice(vs)]
    if np and x < 0.85: return ['p', r.randint(1, np)]
    if lin(r) and x < 0.93: return [r.choice('ic'), r.base + r.randint(0, 12)]
    return [r.choice('ic'), r.randint(-4, 6)]


def int_expr(r, vs, depth, np=0):
    """total integer expressions of moderate size: no division by zero"""
    if depth <= 0 or r.random() < 0.2: return leaf(r, vs, np)
    op = r.choice(['+', '+', '-', '-', 'k*', 'neg', 'abs', '/', '%', 'cmp', 'sum', 'pos'] if lin(r) else
                  ['+', '+', '-', '-', '*', '*', 'neg', 'abs', '/', '%', '**', 'cmp', 'sum', 'pos'])
    if op == 'k*':
        return ['*', leaf(r, vs, np), [r.choice('ic'), r.randint(-3, 4)]]
    if op in ('neg', 'abs', 'pos'):
        return [op, int_expr(r, vs, depth - 1, np)]
    if op in ('/', '%'):
        return [op, int_expr(r, vs, depth - 1, np), [r.choice('ic'), r.choice([-3, -2, 2, 3, 4])]]
    if op == '**':
        return [op, leaf(r, vs, np), [r.choice('ic'), r.randint(0, 2)]]
    if op == 'cmp':
        return [r.choice(CMP), int_expr(r, vs, depth - 1, np), leaf(r, vs, np)]
    if op == 'sum':
        e = ['v', r.choice(vs)] if vs else leaf(r, vs, np)
        for _ in range(r.randint(2, 4)):
            e = [r.choice('++-'), e, leaf(r, vs, np)]
        return e
    return [op, int_expr(r, vs, depth - 1, np), int_expr(r, vs, depth - 1, np)]


def bool_expr(r, vs, depth, np=0):
    x = r.random()
    if depth > 0 and x < 0.25:
        return [r.choice('&|'), bool_expr(r, vs, depth - 1, np), bool_expr(r, vs, depth - 1, np)]
    if depth > 0 and x < 0.32:
        return ['not', bool_expr(r, vs, depth - 1, np)]
    return [r.choice(CMP), int_expr(r, vs, min(depth, 2), np), int_expr(r, vs, r.randint(0, 1), np)]


def vars_of(a, acc=None):
    acc = set() if acc is None else acc
    if a[0] == 'v': acc.add(a[1])
    elif a[0] in ('sum', 'prod'):
        for x in a[2]: vars_of(x, acc)
    elif a[0] not in ('i', 'c', 'p'):
        for x in a[1:]: vars_of(x, acc)
    return acc


def holds(c, asg, par):
    if c[0] == 'e': return bool(pyev(c[1], asg, par))
    if c[0] == 'ad': return len({asg[k - 1] for k in c[1]}) == len(c[1])
    return bool(c[1])


def domain(r, size):
    x = r.random()
    if lin(r):
        base = r.choice([250, 300, 1000, 5000, 65530, 1000000, -70000]) + r.randint(0, 9)
        r.base = base
        vals = [base + d for d in (r.sample(range(0, 12), size) if x < .5 else range(size))]
        if x > .8: vals.reverse()
        return vals, r.choice(['list', 'tuple', 'list', 'set', 'keys'])
    if x < 0.35:
        lo = r.randint(-3, 3)
        return list(range(lo, lo + size)), r.choice(['range', 'list', 'tuple'])
    if x < 0.5:
        lo, st = r.randint(-4, 6), r.choice([-3, -2, -1, -1, 2, 3])
        return [lo + st * i for i in range(size)], r.choice(['range', 'range', 'list', 'tuple'])
    vals = r.sample(range(-6, 9), size)
    return vals, r.choice(['list', 'list', 'list', 'tuple', 'set', 'frozenset', 'keys'])


def lin(r):
    """large values: only linear expressions"""
    return getattr(r, 'lin', False)


FAMILIES = ['v%d', 'x%d', 'x_%d', 'v_%d', 'p%d', 'p_%d', 'c%dx', 'row%d', 'A%d', '%s']


def names(r, n):
    if n <= len(NAMES) and r.random() < .6:
        ns = r.sample(NAMES, n)
        return [None if r.random() < 0.15 else x for x in ns]
    f = r.choice(FAMILIES[:-1])
    ks = list(range(r.choice([0, 1, 8]), 200))[:n]
    if r.random() < .5: r.shuffle(ks)
    return [None if r.random() < 0.1 else f % k for k in ks]


def variables(r, maxprod, nmin=1, nmax=6, seqonly=False, big=False):
    if nmax >= 6 and r.random() < .12:
        n = r.randint(7, 12)
        sizes = [1, 1, 2, 2, 2, 2]
    else:
        n = r.randint(nmin, nmax)
        sizes = [1, 2, 2, 3, 3, 4, 5] if n < 5 else [1, 2, 2, 2, 3]
    doms, prod = [], 1
    for i in range(n):
        room = max(1, maxprod // max(prod, 1))
        size = min(room, r.choice(sizes))
        if big and i == 0: size = min(room, r.randint(8, 40))
        if r.random() < .05 and room >= 2 and not lin(r):
            d, k = [0, 1], 'bool'
        else:
            d, k = domain(r, size) if size <= 12 else (list(range(-3, size - 3)), 'range')
        if seqonly and k in ('set', 'frozenset'): k = 'list'
        prod *= max(len(d), 1)
        doms.append((d, k))
    if n > 1 and r.random() < .25:                 # variables over one domain
        d = doms[r.randrange(n)]
        doms = [d if r.random() < .7 and len(d[0]) <= len(x[0]) else x for x in doms]
    return doms


def compare(r, ks):
    """one constraint of a kind that models are full of"""
    x = r.random()
    v = [['v', k] for k in ks]
    if len(ks) < 2: return [r.choice(CMP), v[0] if v else ['c', 1], [r.choice('ic'), r.choice([-2, 0, 1, 2, 3, 5])]]
    if x < .4: return [r.choice(CMP), v[0], v[1]]
    if x < .6: return [r.choice(CMP), ['abs', ['-', v[0], v[1]]], ['i', r.randint(0, 4)]]
    e = v[0]
    for w in v[1:]: e = [r.choice('++-'), e, w]
    if x < .85: return [r.choice(CMP), e, ['i', r.randint(-4, 12)]]
    return ['==', ['%', e, ['i', r.choice([2, 3])]], ['i', r.randint(0, 2)]]


def constraints(r, doms, par=(), count=None, hidden=0.85, wide=False):
    """random constraints; most satisfied by a hidden assignment, so that solutions exist"""
    n = len(doms)
    asg = [r.choice(d) if d else 0 for d, k in doms]
    out = []
    want = count if count is not None else r.choice([0, 1, 1, 2, 2, 3, 4, 5])
    if count is None and n > 6: want += r.randint(0, 6)
    tries = 0
    while len(out) < want and tries < 200:
        tries += 1
        x = r.random()
        if x < 0.28 and n >= 2:
            ks = r.sample(range(1, n + 1), r.randint(2, min(n, 5)))
            if r.random() < 0.05: ks = ks[:1]
            if r.random() < 0.05: ks = ks + ks[:1]
            c = ['ad', ks]
        elif x < .4 and out and r.random() < .3:
            c = r.choice(out)                       # the same constraint once more
        else:
            ar = min(n, r.choice([1, 1, 2, 2, 2, 3, 3, n] if not wide else [2, 3, n]))
            vs = r.sample(range(1, n + 1), min(ar, 6))
            c = ['e', bool_expr(r, vs, r.randint(0, 2), len(par)) if r.random() < .6 else compare(r, vs[:3])]
            if not vars_of(c[1]): continue
            # formulas whose variables vanish by simplification are fine, but keep one plain occurrence
        if n and r.random() < hidden and not holds(c, asg, par): continue
        out.append(c)
    return out


def structured(r):
    """small instances of what models are written for"""
    x = r.randrange(6)
    dom = lambda vals: (list(vals), r.choice(['range', 'list', 'tuple']))
    cons = []
    if x == 0:                                      # latin square
        doms = [dom(range(3)) for _ in range(9)]
        lines = [[3 * i + j + 1 for j in range(3)] for i in range(3)] + [[3 * j + i + 1 for j in range(3)] for i in range(3)]
        cons = [['ad', q] for q in lines]
        for _ in range(r.randint(0, 2)): cons.append(['e', ['==', ['v', r.randint(1, 9)], ['i', r.randrange(3)]]])
    elif x == 1:                                    # queens
        n = r.randint(4, 5)
        doms = [dom(range(n)) for _ in range(n)]
        cons = [['ad', list(range(1, n + 1))]] + [['e', ['!=', ['abs', ['-', ['v', i], ['v', j]]], ['i', abs(i - j)]]] for i in range(1, n + 1) for j in range(1, i)]
    elif x == 2:                                    # permutation with order
        n = r.randint(3, 5)
        doms = [dom(range(n)) for _ in range(n)]
        cons = [['ad', list(range(1, n + 1))]]
        for _ in range(r.randint(0, 3)):
            i, j = r.sample(range(1, n + 1), 2)
            cons.append(['e', ['<', ['v', i], ['v', j]]])
    elif x == 3:                                    # subset sum over bits
        n = r.randint(5, 9)
        doms = [([0, 1], r.choice(['bool', 'list', 'range'])) for _ in range(n)]
        w = [r.randint(1, 7) for _ in range(n)]
        e = ['i', 0]
        for i in range(n): e = ['+', e, ['*', ['v', i + 1], [r.choice('ic'), w[i]]]] if i else ['*', ['v', 1], ['i', w[0]]]
        cons = [['e', [r.choice(['==', '<=', '>=']), e, ['i', r.randint(2, sum(w) - 1)]]]]
    elif x == 4:                                    # chain
        n = r.randint(4, 7)
        doms = [dom(range(r.randint(2, 4) if n < 6 else 2)) for _ in range(n)]
        cons = [['e', [r.choice(['<=', '!=', '>=', '<=']), ['v', i], ['v', i + 1]]] for i in range(1, n)]
    else:                                           # graph coloring with overlapping groups
        n = r.randint(4, 7)
        doms = [dom(range(3)) for _ in range(n)]
        cons = [['ad', r.sample(range(1, n + 1), r.choice([2, 2, 3]))] for _ in range(r.randint(n - 2, n + 2))]
    if r.random() < .5: r.shuffle(cons)
    return doms, cons


def problem(r, mp, par=(), nmax=6, nmin=1, seqonly=False, big=False, count=None, hidden=.85, pstruct=.15, plin=.06):
    if nmax >= 5 and r.random() < pstruct: return structured(r)
    if r.random() < plin:
        r.lin, r.base = True, 1000
        par = ()
    doms = variables(r, mp, nmax=nmax, nmin=nmin, seqonly=seqonly, big=big)
    return doms, constraints(r, doms, par, count=count, hidden=hidden)


def setup(r, doms, cons, par=(), wrapp=0.0, costs=None, nms=None):
    nms = nms or names(r, len(doms))
    prog = []
    items = [('v', i) for i in range(len(doms))]
    pi = 0
    parpos = sorted(r.randint(0, len(doms)) for _ in par)
    for i, (d, k) in enumerate(doms):
        while pi < len(par) and parpos[pi] <= i:
            prog.append(['addpar', None if r.random() < .5 else 'par%d' % pi, par[pi]]); pi += 1
        prog.append(['addvar', nms[i], d, k] if k != 'bool' else ['addvar', nms[i], d, 'tuple', True])
    while pi < len(par):
        prog.append(['addpar', None if r.random() < .5 else 'par%d' % pi, par[pi]]); pi += 1
    for c in cons:
        w = None
        if c[0] != 'b' and r.random() < wrapp and len(vars_of(c[1]) if c[0] == 'e' else set(c[1])) > 1:
            w = costs or [0]
        prog.append(['addcon', c, w, r.random() < .2])
    return prog


def solver(r, **kw):
    a = dict(pol=r.choice(POL), comp=r.random() < .6)
    a.update(kw)
    return ['solver', a]


# ------------------------------------------------------------------ profiles
def maxprod(r, tier):
    return r.choice([12, 40, 100, 200, 300] if tier == 'quick' else [12, 60, 200, 400, 700])


def extras(r, doms, par, p=.3):
    if r.random() > p: return []
    ex = []
    for c in constraints(r, doms, par, count=r.choice([1, 1, 2]), hidden=r.choice([.9, .9, .3])):
        ex.append([c, [0] if r.random() < .3 and c[0] != 'b' and len(vars_of(c[1]) if c[0] == 'e' else set(c[1])) > 1 else None])
    if r.random() < .1: ex.append([['b', r.choice([0, 1])], None])
    if par and r.random() < .06: ex.append([['e', [r.choice(['<=', '>', '!=']), ['p', 1], ['i', r.randint(-1, 4)]]], None])
    return ex


def c01(r, tier):
    big = r.random() < .1
    par = [r.randint(-3, 5) for _ in range(r.choice([0, 0, 1, 2]))]
    doms, cons = problem(r, maxprod(r, tier), par, nmax=7, big=big)
    if r.random() < .04: doms[r.randrange(len(doms))] = ([], 'list')
    prog = setup(r, doms, cons, par, wrapp=.15)
    x = r.random()
    if x < .04: prog.append(['addcon', ['b', 0], None])
    elif x < .08: prog.append(['addcon', ['b', 1], None])
    elif x < .11: prog.append(['addcon', ['e', ['==', ['c', 1], ['i', r.choice([1, 2])]]], None])
    if r.random() < .04: prog += [['setsolv', v] for v in r.choice([[0], [0, 1], [1], [0, 1, 1]])]
    prog.append(solver(r))
    a = dict(s=1, extra=extras(r, doms, par), extra_as=r.choice(['list', 'tuple', 'iter']))
    if r.random() < .25: a['lim'] = r.randint(1, 6)
    if r.random() < .15: a['to'] = r.choice([0, 5, -3])
    if r.random() < .3: a['pol'] = r.choice(POL)
    prog += [['start', a], ['drain', 1]]
    if r.random() < .3:
        b = dict(s=1, pol=r.choice(POL))
        prog += [['start', b], ['drain', 2]]
    return prog


def c02(r, tier):
    par = [r.randint(-3, 5) for _ in range(r.choice([0, 0, 1]))]
    doms, cons = problem(r, maxprod(r, tier), par, nmax=7, nmin=0 if r.random() < .04 else 1, big=r.random() < .08)
    prog = setup(r, doms, cons, par, wrapp=.15)
    if r.random() < .03: prog.append(['addcon', ['b', r.choice([0, 1])], None])
    if r.random() < .03: prog += [['setsolv', v] for v in r.choice([[0], [0, 1], [1]])]
    ex = extras(r, doms, par, .2)
    reuse = r.random() < .3
    for s, comp in enumerate([True, False]):
        prog.append(['solver', dict(comp=comp, pol=r.choice(POL))])
    pols = POL if r.random() < .4 else r.sample(POL, 3)
    if len(doms) == 0: pols = POL
    for g, p in enumerate(pols):
        prog += [['start', dict(s=r.choice([1, 2]), pol=p, extra=ex if reuse or r.random() < .7 else extras(r, doms, par, .5), reuse=reuse)], ['drain', g + 1]]
    return prog


def c03(r, tier):
    par = [r.randint(-3, 5) for _ in range(r.choice([0, 0, 1]))]
    doms, cons = problem(r, maxprod(r, tier), par, nmax=6, nmin=2, seqonly=r.random() < .9, count=r.choice([0, 1, 1, 2, 3]), big=r.random() < .08)
    prog = setup(r, doms, cons, par)
    prog += [['solver', dict(comp=True)], ['solver', dict(comp=False)]]
    g = 0
    pols = ['ORDERED', 'REVERSED', r.choice(POL[3:])]
    if r.random() < .3: pols = pols + [r.choice(POL[3:])]
    exs = [extras(r, doms, par, 1) for _ in range(2)]
    todo = pols + [r.choice(pols), r.choice(pols)]
    if r.random() < .5:
        todo = pols + [(r.choice(pols), r.choice(exs)) for _ in range(r.randint(1, 3))] + pols
        if r.random() < .3: todo += todo[len(pols):]
    reuse = r.random() < .3
    for p in todo:
        g += 1
        a = dict(s=r.choice([1, 2]), pol=p if isinstance(p, str) else p[0])
        if not isinstance(p, str): a.update(extra=p[1], reuse=reuse)
        elif r.random() < .08: a['objs'] = objectives(r, doms, par, 1)
        if r.random() < .15: a['lim'] = r.randint(1, 5)
        prog += [['start', a], ['drain', g]]
        if r.random() < .1: prog.append(['stats', a['s']])
    return prog


def c04(r, tier):
    doms, cons = problem(r, r.choice([6, 20, 60, 120]), nmax=r.choice([5, 5, 6]), nmin=0 if r.random() < .03 else 1, seqonly=r.random() < .8, count=r.choice([0, 1, 1, 2]))
    prog = setup(r, doms, cons, (), wrapp=.1)
    if r.random() < .03: prog.append(['addcon', ['b', 0], None])
    pol = r.choice([p for p in POL if p != 'RANDOM'])
    prog += [['solver', dict(comp=r.random() < .5, pol=pol)], ['start', dict(s=1)], ['drain', 1], ['stats', 1]]
    sols = count_sols(doms, cons)
    g, ns = 1, 1
    for lim in r.sample(sorted({0, 1, 2, 3, 5, 8, max(sols - 1, 0), sols, sols + 1, r.randint(0, sols + 3)}), 4):
        g += 1
        x = r.random()
        opt = r.random() < .1 and len(doms) > 0
        if x < .5:
            prog += [['start', dict(s=1, lim=lim)]]
            s = 1
        elif x < .75:
            ns += 1
            s = ns
            prog += [['solver', dict(lim=lim, pol=pol)], ['start', dict(s=s)]]
        else:
            s = 1
            prog += [['set', 1, 'lim', lim], ['start', dict(s=1)]]
        prog += [['drain', g], ['stats', s]]
        if x >= .75: prog.append(['set', 1, 'lim', r.choice([-1, -3])])
        if r.random() < .2: prog.append(['next', g, 1]); prog.append(['stats', s])
    return prog


def count_sols(doms, cons, par=()):
    import itertools
    n = 0
    for a in itertools.product(*[d for d, k in doms]):
        if all(holds(c, a, par) for c in cons): n += 1
    return n


def costs(r):
    return r.choice([[1], [0, 0, 1], [0, 0, 0, 0, 0, 0, 0, 0, 3], [2, 0, 1], [5], [0], [0] * r.randint(1, 30) + [10], [r.randint(0, 2) for _ in range(7)]])


def c05(r, tier):
    if r.random() < .1: doms, cons = structured(r)
    else:
        doms = variables(r, r.choice([12, 40, 80]), nmax=r.choice([5, 5, 6]), nmin=2)
        cons = constraints(r, doms, (), count=r.choice([1, 2, 2, 3]), wide=True)
    prog = setup(r, doms, cons, (), wrapp=.9, costs=costs(r))
    pol = r.choice([p for p in POL if p != 'RANDOM'])
    prog += [['solver', dict(comp=r.random() < .5, pol=pol)], ['start', dict(s=1)], ['drain', 1, 0], ['stats', 1]]
    g = 1
    for _ in range(4):
        g += 1
        to = r.choice([0, 0, 1, 2, 3, 5, 8, 13, 20, 40, 80, 200, 1000, -1, -3])
        a = dict(s=1, to=to, half=r.random() < .2)
        x = r.random()
        if r.random() < .2: a['lim'] = r.randint(1, 6)
        s = 1
        if x > .85:
            prog += [['set', 1, 'to', to]]
            a.pop('to')
        if r.random() < .15:                           # a timed out optimization
            a['objs'] = [[r.choice([1, -1]), int_expr(r, list(range(1, len(doms) + 1)), 1)]]
        prog += [['start', a], ['drain', g, r.choice([0, 0, 0, 1, 50, 1000])], ['stats', 1]]
        if r.random() < .3: prog += [['next', g, 1], ['stats', 1]]
        if x > .85: prog += [['set', 1, 'to', -1]]
    return prog


def c06(r, tier):
    if r.random() < .1: doms, cons = structured(r)
    else:
        doms = variables(r, r.choice([6, 20, 50, 80]), nmax=r.choice([5, 5, 6]), nmin=0 if r.random() < .05 else 1)
        cons = constraints(r, doms, (), count=r.choice([0, 1, 2, 3]), wide=r.random() < .5)
    prog = setup(r, doms, cons, (), wrapp=.8, costs=costs(r))
    if r.random() < .05: prog.append(['addcon', ['b', 0], None])
    prog += [solver(r), solver(r)]
    g = 0
    for _ in range(r.randint(3, 6)):
        g += 1
        s = r.choice([1, 1, 2])
        a = dict(s=s)
        x = r.random()
        if x < .3: a['lim'] = r.randint(0, 6)
        elif x < .5: a['to'] = r.choice([0, 1, 3, 8, 20, 50])
        if r.random() < .12 and doms: a['objs'] = [[r.choice([1, -1]), int_expr(r, list(range(1, len(doms) + 1)), 1)]]
        prog.append(['start', a])
        y = r.random()
        adv = r.choice([0, 0, 1, 7, 100])
        if y < .65: prog.append(['drain', g, adv])
        elif y < .85: prog += [['next', g, r.randint(1, 3), adv], ['close', g]]
        else: prog += [['next', g, r.randint(1, 3), adv], ['advance', 3], ['drain', g, adv]]
        prog.append(['stats', s])
        if r.random() < .2: prog += [['advance', 9], ['stats', s]]
        if r.random() < .15: prog += [['next', g, 1], ['stats', s]]
    return prog


def objectives(r, doms, par, n=None):
    vs = list(range(1, len(doms) + 1))
    out = []
    for _ in range(n or r.choice([1, 1, 1, 2, 2, 3])):
        x = r.random()
        if x < .25: e = ['v', r.choice(vs)]
        elif x < .5:
            e = None
            for k in r.sample(vs, r.randint(1, len(vs))):
                t = ['*', ['v', k], ['i', r.randint(-5, 6)]]
                e = t if e is None else ['+', e, t]
        elif x < .54: e = [r.choice('ic'), r.randint(-3, 3)]
        elif x < .64: e = bool_expr(r, r.sample(vs, r.randint(1, len(vs))), r.randint(0, 2), len(par))   # better: true instead of false
        else: e = int_expr(r, r.sample(vs, r.randint(1, len(vs))), 2, len(par))
        out.append([r.choice([1, -1]), e])
    return out


def c07(r, tier):
    par = [r.randint(-3, 5) for _ in range(r.choice([0, 0, 1]))]
    doms, cons = problem(r, maxprod(r, 'quick'), par, nmax=r.choice([5, 5, 6]), count=r.choice([0, 1, 1, 2, 3]), big=r.random() < .08, plin=.12)
    prog = setup(r, doms, cons, par, wrapp=.1)
    if r.random() < .03: prog.append(['addcon', ['b', 0], None])
    prog += [solver(r), ['solver', dict(comp=False, pol=r.choice(POL))]]
    g = 0
    pool = [objectives(r, doms, par) for _ in range(2)]
    reuse = r.random() < .4
    for _ in range(r.choice([1, 2, 3])):
        g += 1
        a = dict(s=r.choice([1, 2]), objs=r.choice(pool) if reuse else objectives(r, doms, par), pol=r.choice(POL + ['']),
                 extra=extras(r, doms, par, .2), objlist=r.choice([False, False, True, 'iter']), reuse=reuse)
        if r.random() < .1: a['lim'] = r.randint(1, 4)
        prog += [['start', a], ['drain', g]]
        if r.random() < .2:
            g += 1
            prog += [['start', dict(s=1)], ['drain', g]]
    return prog


def c08(r, tier):
    par = [r.randint(-3, 5) for _ in range(r.choice([0, 0, 1]))]
    doms, cons = problem(r, maxprod(r, 'quick'), par, nmax=r.choice([5, 5, 6]), nmin=0 if r.random() < .02 else 1,
                         count=r.choice([0, 1, 1, 2, 3, 4]), hidden=r.choice([.9, .9, .3]), big=r.random() < .08, plin=.12)
    ticking = r.random() < .3
    prog = setup(r, doms, cons, par, wrapp=.8 if ticking else .1, costs=costs(r) if ticking else None)
    if r.random() < .03: prog.append(['addcon', ['b', 0], None])
    prog += [solver(r), ['solver', dict(comp=False, pol=r.choice(POL))]]
    g = 0
    pool = [objectives(r, doms, par) if doms else [[1, ['c', 3]]] for _ in range(2)]
    reuse = r.random() < .4
    for _ in range(r.choice([1, 2, 3])):
        s = r.choice([1, 2])
        a = dict(s=s, objs=r.choice(pool) if reuse else objectives(r, doms, par) if doms else [[1, ['c', 3]]], pol=r.choice(POL + ['']),
                 extra=extras(r, doms, par, .2), objlist=r.choice([False, False, True, 'iter']), reuse=reuse)
        if r.random() < .35:
            g += 1
            prog += [['start', dict(a)], ['drain', g]]
        b = dict(a)
        x = r.random()
        if x < .25: b['lim'] = r.randint(0, 5)
        if ticking and r.random() < .6: b['to'] = r.choice([0, 1, 3, 10, 30])
        prog += [['best', b]]
        if r.random() < .3: prog += [['best', dict(a)]]
    return prog


def c11(r, tier):
    doms = variables(r, r.choice([10, 30, 80]), nmax=4)
    npar = r.randint(1, 3)
    par = [r.randint(-3, 5) for _ in range(npar)]
    cons = []
    for _ in range(r.choice([1, 1, 2, 3])):
        for _try in range(50):
            vs = r.sample(range(1, len(doms) + 1), r.randint(1, len(doms)))
            c = ['e', bool_expr(r, vs, r.randint(0, 2), npar)]
            if vars_of(c[1]) and has_par(c[1]): break
        else:
            c = ['e', ['<=', ['v', 1], ['p', 1]]]
        cons.append(c)
    prog = setup(r, doms, cons, par)
    prog += [['solver', dict(comp=True, pol=r.choice(POL))], ['solver', dict(comp=False, pol=r.choice(POL))]]
    g = 0
    vs = list(range(1, len(doms) + 1))
    for _ in range(r.randint(3, 6)):
        x = r.random()
        if x < .6: prog.append(['setpar', r.randint(1, npar), r.randint(-4, 7)])
        if x > .9: prog.append(['set', r.choice([1, 2]), 'comp', r.random() < .5])
        y = r.random()
        if y < .6:
            g += 1
            prog += [['start', dict(s=r.choice([1, 2]), extra=[[['e', ['<=', ['+', ['v', 1], ['p', 1]], ['i', r.randint(0, 6)]]], None]] if r.random() < .2 else [])]]
            prog += [['drain', g]] if r.random() < .85 else [['next', g, 2], ['close', g]]
        elif y < .75:
            e = int_expr(r, vs, 2, npar)
            prog += [['best', dict(s=r.choice([1, 2]), objs=[[r.choice([1, -1]), ['+', e, ['*', ['p', 1], ['v', 1]]]]])]]
        else:
            prog += [['eval', int_expr(r, vs, 3, npar), [r.choice(d) if d else 0 for d, k in doms]]]
    return prog


def has_par(a):
    if a[0] == 'p': return True
    if a[0] in ('v', 'i', 'c'): return False
    return any(has_par(x) for x in a[1:] if isinstance(x, list))


def c13(r, tier):
    par = [r.randint(-3, 5) for _ in range(r.choice([0, 0, 1]))]
    doms, cons = problem(r, r.choice([10, 30, 60, 120]), par, nmax=r.choice([5, 5, 6]), seqonly=r.random() < .8, count=r.choice([0, 1, 2, 3]))
    prog = setup(r, doms, cons, par, wrapp=.1)
    ns = r.choice([1, 2, 2])
    for _ in range(ns): prog.append(solver(r))
    prog.append(['snap'])
    if r.random() < .5:      # reference runs
        pols = r.sample([p for p in POL if p != 'RANDOM'], 2)
    else:
        pols = [r.choice(POL)]
    exs = [[], []] + [extras(r, doms, par, 1) for _ in range(2)]
    pool = [objectives(r, doms, par, r.choice([1, 1, 2, 3])) for _ in range(2)]
    reuse = r.random() < .4
    g = 0
    for p in pols:
        if r.random() < .7:
            g += 1
            prog += [['start', dict(s=1, pol=p, extra=r.choice(exs[1:]), reuse=reuse)], ['drain', g], ['kept', g]]
    active = []
    added = 0
    dirty = False
    for _ in range(r.randint(6, 22)):
        x = r.random()
        if (x < .3 and len(active) < 4) or not active:
            g += 1
            a = dict(s=r.randint(1, ns), pol=r.choice(pols + ['']), reuse=reuse)
            y = r.random()
            if y < .15: a['lim'] = r.randint(1, 5)
            elif y < .3: a['objs'] = r.choice(pool)
            elif y < .4 and not a['pol']: a = dict(s=a['s'], via='model')
            if 'via' not in a and r.random() < .6: a['extra'] = r.choice(exs)
            prog += [['start', a]] + ([['next', g, 1]] if r.random() < .95 or added else [])
            active.append(g)
        elif x < .62: prog.append(['next', r.choice(active), r.randint(1, 4)])
        elif x < .72: prog.append(['mutate', r.choice(active), r.randint(0, 2)])
        elif x < .78:
            h = active.pop(r.randrange(len(active)))
            prog += [['kept', h], ['close', h]]
        elif x < .84: prog.append(['best', dict(s=r.randint(1, ns), objs=r.choice(pool), reuse=reuse)])
        elif x < .88 and added < 2 and not [h for h in active if not touched(prog, h)]:
            if not dirty: prog.append(['snap'])
            if r.random() < .5:
                d = [0, 1]
                prog.append(['addvar', None, d, 'list']); doms = doms + [(d, 'list')]
            else:
                cs = constraints(r, doms, par, count=1)
                for c in cs: prog.append(['addcon', c, None])
            added += 1
        elif x < .92 and par: prog.append(['eval', ['p', 1], [0] * len(doms)])
        elif x < .96: prog.append(['snap'])
        else:
            h = active.pop(r.randrange(len(active)))
            prog += [['drain', h], ['kept', h]]
    for h in active:
        if r.random() < .8: prog += [['drain', h], ['kept', h]]
    prog.append(['snap'])
    g += 1
    prog += [['start', dict(s=1, pol=pols[0])], ['drain', g]]
    return prog


def touched(prog, g):
    return any(c[0] in ('next', 'drain') and c[1] == g for c in prog)


def c15(r, tier):
    doms = variables(r, r.choice([10, 20, 40]), nmax=4, nmin=2, seqonly=True)
    cons = constraints(r, doms, (), count=r.choice([0, 1, 1, 2]), wide=True, hidden=1)
    prog = setup(r, doms, cons, (), wrapp=.5, costs=r.choice([[1], [0, 1], [0]]))
    lims = [-2, -2, -1, -3, 0, 1, 2, 3, 5, 100]
    tos = [-2, -2, -1, -3, 0, 2, 5, 1000]
    ns = r.choice([1, 2])
    for _ in range(ns):
        a = dict()
        if r.random() < .6: a['pol'] = r.choice(POL)
        a['lim'] = r.choice(lims); a['to'] = r.choice(tos)
        if r.random() < .3: a['comp'] = r.choice([True, False, True, False, 1, 0])
        prog += [['solver', a], ['get', len([p for p in prog if p[0] == 'solver']) + 1]]
    g = 0
    for _ in range(r.randint(3, 7)):
        s = r.randint(1, ns)
        x = r.random()
        if x < .15: prog.append(['set', s, 'pol', r.choice(POL)])
        elif x < .25: prog.append(['set', s, 'pol', '', r.choice(['ORDERED', 'None', 0, 3, 'GROUPS', 1.5, 'RANDOM'])])
        elif x < .4: prog.append(['set', s, 'lim', r.choice(lims[2:])])
        elif x < .5: prog.append(['set', s, 'to', r.choice(tos[2:])])
        elif x < .55: prog.append(['set', s, 'comp', r.choice([True, False, True, False, 1, 0])])
        if r.random() < .3: prog.append(['get', s])
        g += 1
        a = dict(s=s)
        if r.random() < .4: a['pol'] = r.choice(POL)
        if r.random() < .5: a['lim'] = r.choice(lims)
        if r.random() < .4: a['to'] = r.choice(tos)
        if r.random() < .12: a['objs'] = objectives(r, doms, (), 1)
        prog += [['start', a], ['drain', g], ['stats', s], ['get', s]]
    return prog


def interleave(r, A, B):
    """two programs, each over a model of its own, as one session; B may use A's solvers"""
    ns = ng = 0
    progs = []
    for p in (A, B):
        q = []
        for c in p:
            if c[0] == 'drain' and r.random() < .5: q.append(['next', c[1], r.randint(1, 3)] + c[2:])
            q.append(c)
        progs.append(q)
    smap, gmap, cnt = [{}, {}], [{}, {}], [[0, 0], [0, 0]]
    out, cur = [], 0
    share = r.random() < .6
    pos = [0, 0]
    while pos[0] < len(progs[0]) or pos[1] < len(progs[1]):
        i = r.randrange(2)
        if pos[i] >= len(progs[i]): i = 1 - i
        if cur != i:
            out.append(['use', i + 1]); cur = i
        n = r.choice([1, 1, 2, 3, 8])
        while n > 0 or out[-1][0] == 'start':      # a start and its first request stay together
            n -= 1
            if pos[i] >= len(progs[i]): break
            c = json.loads(json.dumps(progs[i][pos[i]])); pos[i] += 1
            if c[0] == 'solver':
                cnt[i][0] += 1
                if share and ns and r.random() < .7: smap[i][cnt[i][0]] = r.randint(1, ns); continue
                ns += 1; smap[i][cnt[i][0]] = ns
            elif c[0] in ('start', 'best'):
                c[1]['s'] = smap[i][c[1]['s']]
                if c[0] == 'start':
                    cnt[i][1] += 1; ng += 1; gmap[i][cnt[i][1]] = ng
            elif c[0] in ('set', 'get', 'stats'): c[1] = smap[i][c[1]]
            elif c[0] in ('next', 'drain', 'close', 'mutate', 'kept'): c[1] = gmap[i][c[1]]
            out.append(c)
    return out


SESSION = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C11=c11, C13=c13, C15=c15)


def session_cases(prop, seed, tier, n):
    out = []
    for i in range(n):
        r = random.Random('%s/%s/%s' % (prop, seed, i))
        prog = SESSION[prop](r, tier)
        if i % 8 == 0 and len(prog) < 80:
            q = random.Random('%s/%s/%s/b' % (prop, seed, i))
            prog = interleave(q, prog, SESSION[prop](q, tier))
        out.append({'id': '%s-%s-%d' % (prop, seed, i), 'kind': 'session', 'prog': prog})
    return out
