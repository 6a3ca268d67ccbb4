"""Formula sessions: random deep formulas, and all small formulas enumerated by TLC (spec/ExprGen.tla)."""
import random
from gen import NAMES, CMP, vars_of

BIN = ['+', '+', '-', '*', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&', '|']


def leaf(r, nv, np):
    x = r.random()
    if x < .55: return ['v', r.randint(1, nv)]
    if np and x < .68: return ['p', r.randint(1, np)]
    return [r.choice('ic'), r.choice([-3, -2, -1, -1, 0, 0, 1, 1, 2, 3, 5])]


def exponent(r, nv):
    x = r.random()
    if x < .5: return [r.choice('ic'), r.randint(0, 4)]
    if x < .8: return ['abs', ['v', r.randint(1, nv)]]
    return ['%', ['v', r.randint(1, nv)], ['i', 3]]


def tower(r, e, ops=('+', '-', '*', '/', '%', '-', '*')):
    """constants on either side, again and again: where the library simplifies"""
    for _ in range(r.randint(1, 4)):
        if r.random() < .12:
            e = [r.choice(['neg', 'abs']), e]
            continue
        k = [r.choice('cci'), r.choice([-3, -2, -1, -1, 0, 0, 1, 1, 2, 2, 3, 4])]
        op = r.choice(ops)
        e = [op, e, k] if r.random() < .65 else [op, k, e]
    return e


def expr(r, d, nv, np, ops=BIN):
    if d <= 0 or r.random() < .12: return leaf(r, nv, np)
    x = r.random()
    if r.random() < .12: return tower(r, expr(r, d - 2, nv, np, ops))
    if x < .2: return [r.choice(['neg', 'abs', 'not', 'pos', 'neg']), expr(r, d - 1, nv, np, ops)]
    if x < .32: return [r.choice(['sum', 'prod']), r.choice([0, 1, 1, -1, 2, 3]), [expr(r, d - 2, nv, np, ops) for _ in range(r.randint(0, 4))]]
    if x < .45:                                   # chains, which the library flattens
        op = r.choice(['+', '*', '+', '-'])
        e = expr(r, d - 2, nv, np, ops)
        for _ in range(r.randint(1, 4)):
            t = expr(r, d - 2, nv, np, ops)
            e = [op, e, t] if r.random() < .7 else [op, t, e]
        return e
    op = r.choice(ops)
    if op == '**': return ['**', expr(r, d - 2, nv, np, ops), exponent(r, nv)]
    return [op, expr(r, d - 1, nv, np, ops), expr(r, d - 1, nv, np, ops)]


def asgs(r, nv, n):
    return [[r.choice([-4, -3, -2, -1, 0, 0, 1, 1, 2, 3, 5, 7]) for _ in range(nv)] for _ in range(n)]


def parts(r, nv, n):
    out = []
    for a in asgs(r, nv, n):
        ks = [k for k in range(1, nv + 1) if r.random() < .7]
        out.append([a, ks])
    out.append([asgs(r, nv, 1)[0], list(range(1, nv + 1))])
    return out


def mutate(r, e, nv, np):
    """a formula differing in one place"""
    e = list(e)
    op = e[0]
    if op in 'vicp':
        x = r.random()
        if op == 'v': return ['v', r.randint(1, nv)] if x < .5 or not np else ['p', r.randint(1, np)]
        if op == 'p': return ['p', r.randint(1, np)] if x < .5 else ['v', r.randint(1, nv)]
        return [r.choice('ic'), e[1] + r.choice([-1, 1, 2])]
    if op in ('sum', 'prod'):
        x = r.random()
        if x < .25: return [op, e[1] + r.choice([1, -1]), e[2]]
        if x < .35: return ['prod' if op == 'sum' else 'sum', e[1], e[2]]
        if x < .5 and len(e[2]) > 1: return [op, e[1], e[2][::-1]]
        if x < .65 and e[2]: return [op, e[1], e[2][:-1]]
        if not e[2]: return [op, e[1], [leaf(r, nv, np)]]
        k = list(e[2]); i = r.randrange(len(k)); k[i] = mutate(r, k[i], nv, np)
        return [op, e[1], k]
    if op in ('neg', 'abs', 'not', 'pos'):
        if r.random() < .25: return [r.choice(['neg', 'abs', 'not']), e[1]]
        return [op, mutate(r, e[1], nv, np)]
    x = r.random()
    if x < .12: return [op, e[2], e[1]] if op != '**' else e
    if x < .3: return [r.choice([b for b in BIN if b != '**']), e[1], e[2]]
    if x < .65: return [op, mutate(r, e[1], nv, np), e[2]]
    return [op, e[1], mutate(r, e[2], nv, np)] if op != '**' else [op, mutate(r, e[1], nv, np), e[2]]


def plainop(r, d, nv, np):
    if d <= 0 or r.random() < .15: return ['v', r.randint(1, nv)] if r.random() < .7 or not np else ['p', r.randint(1, np)]
    x = r.random()
    if x < .2: return [r.choice(['neg', 'abs', 'not']), plainop(r, d - 1, nv, np)]
    if x < .35: return [r.choice(['sum', 'prod']), r.randint(2, 4), [plainop(r, 0, nv, np) for _ in range(r.randint(2, 4))]]
    op = r.choice([b for b in BIN if b != '**'])
    return [op, plainop(r, d - 1, nv, np), plainop(r, d - 1, nv, np) if r.random() < .8 or op in '+*' else ['c', r.randint(2, 5)]]


def case(r, id, n, kind):
    nv, np = r.randint(1, 4), r.randint(0, 2)
    ns = r.sample(NAMES, nv + np)
    if kind == 'eq' and np and r.random() < .5: ns[nv] = ns[0]       # a parameter named as a variable
    prog = [['pars', [r.choice([-2, -1, 0, 1, 2, 3]) for _ in range(np)]]]
    for _ in range(n):
        if r.random() < .1: prog.append(['pars', [r.choice([-2, -1, 0, 1, 2, 3]) for _ in range(np)]])
        if kind == 'eq':
            a = plainop(r, r.randint(0, 3), nv, np) if r.random() < .6 else expr(r, r.randint(0, 4), nv, np)
            x = r.random()
            b = a if x < .3 else mutate(r, a, nv, np) if x < .85 else expr(r, 2, nv, np)
            if x >= .3 and r.random() < .3: b = mutate(r, b, nv, np)
            prog.append(['eq', a, b, asgs(r, nv, 3)])
            continue
        if kind == 'vars' and r.random() < .25:
            c = ['ad', r.sample(range(1, nv + 1), r.randint(1, nv))] if r.random() < .85 else ['b', r.randint(0, 1)]
            prog.append(['con', c, parts(r, nv, 5)])
            continue
        a = expr(r, r.randint(1, 6), nv, np)
        prog.append(['expr', a, asgs(r, nv, 4), parts(r, nv, 4 if kind == 'vars' else 1)])
    return {'id': id, 'names': ns[:nv], 'pnames': ns[nv:], 'prog': prog}


def cases(kind, prop, seed, n, per=12):
    return [case(random.Random('%s/%s/%s' % (prop, seed, i)), '%s-%s-%d' % (prop, seed, i), per, kind) for i in range(n)]


def bignum(r):
    x = r.random()
    if x < .2: return r.randint(-4, 12)
    m = r.choice([10 ** 4, 10 ** 8, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, 10 ** 18, 10 ** 30])
    if x < .6: return r.choice([1, -1]) * (m + r.randint(-3, 3))
    return r.choice([1, -1]) * r.randint(0, m * r.randint(1, 9))


def bigexpr(r, d, nv, np):
    if d <= 0 or r.random() < .15:
        x = r.random()
        if x < .6: return ['v', r.randint(1, nv)]
        if np and x < .7: return ['p', r.randint(1, np)]
        return [r.choice('ic'), bignum(r)]
    x = r.random()
    if x < .15: return [r.choice(['neg', 'abs', 'not', 'pos']), bigexpr(r, d - 1, nv, np)]
    if x < .25: return [r.choice(['sum', 'prod']), bignum(r), [bigexpr(r, d - 2, nv, np) for _ in range(r.randint(0, 3))]]
    op = r.choice(BIN)
    if op == '**': return ['**', bigexpr(r, 0, nv, np), [r.choice('ic'), r.randint(0, 4)]]
    return [op, bigexpr(r, d - 1, nv, np), bigexpr(r, d - 1, nv, np)]


def big(prop, seed, n, per=10):
    """formulas whose values do not fit machine words or floats"""
    out = []
    for i in range(n):
        r = random.Random('%s/big/%s/%s' % (prop, seed, i))
        nv, np = r.randint(1, 3), r.randint(0, 1)
        ns = r.sample(NAMES, nv + np)
        prog = []
        for _ in range(per):
            if np: prog.append(['pars', [bignum(r)]])
            e = bigexpr(r, r.randint(1, 4), nv, np)
            if r.random() < .2: e = tower(r, e)
            prog.append(['bigexpr', e, [[bignum(r) for _ in range(nv)] for _ in range(3)]])
        out.append({'id': '%s-big-%s-%d' % (prop, seed, i), 'names': ns[:nv], 'pnames': ns[nv:], 'prog': prog})
    return out


def small(prop, seed, forms, kind, per=40):
    """cases over enumerated formulas (two variables, one parameter)"""
    out = []
    r = random.Random('%s/small/%s' % (prop, seed))
    pts = [[a, b] for a in (-2, 0, 1, 3) for b in (-1, 0, 2)]
    for i in range(0, len(forms), per):
        ns = r.sample(NAMES, 3)
        prog = [['pars', [r.choice([-2, 0, 1, 3])]]]
        for f in forms[i:i + per]:
            if kind == 'eq':
                prog.append(['eq', f, r.choice(forms), r.sample(pts, 3)])
                prog.append(['eq', f, f, []])
            else:
                prog.append(['expr', f, r.sample(pts, 6), [[r.choice(pts), ks] for ks in ([], [1], [2], [1, 2])]])
        out.append({'id': '%s-small-%d' % (prop, i // per), 'names': ns[:2], 'pnames': ns[2:], 'prog': prog})
    return out


def wrap(r, e, k, nv):
    """one more level around e, keeping values small"""
    x = r.random()
    v = ['v', r.randint(1, nv)]
    if k == 'unary': return [r.choice(['neg', 'not', 'abs', 'neg']), e]
    if k == 'cmp': return [r.choice(['<', '<=', '>', '>=', '==', '!=']), e, v] if x < .6 else [r.choice(['&', '|']), e, v]
    if k == 'right': return [r.choice(['-', '|', '&', '<', '!=']), v, e]
    if k == 'mod': return ['%', [r.choice(['+', '-', '*']), e, v], ['c', r.choice([5, 7, 9])]]
    if k == 'sub': return ['-', e, v] if x < .5 else ['-', v, e]
    return wrap(r, e, r.choice(['unary', 'cmp', 'right', 'mod', 'sub']), nv)


def depth(e):
    return 1 + max([depth(x) for x in e if isinstance(x, list)], default=0) if isinstance(e, list) else 0


def deep(prop, seed, tier):
    """long chains and wide sums, far beyond what anyone nests by hand but what a program writes easily"""
    out = []
    for i in range(30 if tier == 'quick' else 400):
        r = random.Random('%s/deep/%s/%s' % (prop, seed, i))
        nv = r.randint(1, 4)
        ns = r.sample(NAMES, nv + 1)
        prog = [['pars', [r.choice([-1, 0, 1, 2])]]]
        top = 100 if prop == 'C25' else 225       # the specification's JSON reader takes 255 levels
        for _ in range(2):
            if r.random() < .35:                  # wide
                n = r.randint(30, 400)
                op = r.choice(['sum', 'prod', '+', '-', '*'])
                ts = [['v', r.randint(1, nv)] if r.random() < .7 else [r.choice('ic'), r.choice([-1, 1])] if op in ('prod', '*') or r.random() < .6 else
                      ['*', ['v', r.randint(1, nv)], ['c', r.choice([-1, 2, 3])]] for _ in range(n)]
                if op in ('sum', 'prod'):
                    e = [op, r.choice([1, -1, 2]), ts]
                else:
                    e = ts[0]
                    for t in ts[1:min(n, top)]: e = [op, e, t]
                prods = op in ('prod', '*')
            else:                                 # deep
                e, k, prods = expr(r, 1, nv, 1), r.choice(['unary', 'cmp', 'right', 'mod', 'sub', 'any']), False
                k2 = r.choice([25, 60, 95, 130, 160, 200, 225])
                while depth(e) < min(k2, top): e = wrap(r, e, k, nv)
            a = [[r.choice([-1, 1, 1, 0]) if prods else x for x in p] for p in asgs(r, nv, 2)]
            if prop == 'C25':
                b = e
                for _ in range(r.randint(0, 1)):
                    b = mutate(r, b, nv, 1)
                prog.append(['eq', e, b, a])
            else:
                prog.append(['expr', e, a, parts(r, nv, 2)])
        out.append({'id': '%s-deep-%s-%d' % (prop, seed, i), 'names': ns[:nv], 'pnames': ns[nv:], 'prog': prog})
    for i in range(40 if tier == 'quick' else 500):   # many different variables
        r = random.Random('%s/many/%s/%s' % (prop, seed, i))
        nv = r.choice([6, 8, 9, 12, 17, 33, 65, 90])
        ns = r.sample(NAMES, r.randint(0, 9)) + ['_v%d' % k for k in range(12)] + ['x%d' % k for k in range(nv)]
        ns = r.sample(ns, nv + 1)
        prog = [['pars', [r.choice([-1, 0, 1, 2])]]]
        for _ in range(3):
            ks = list(range(1, nv + 1)) + [r.randint(1, nv) for _ in range(r.randint(0, 6))]
            r.shuffle(ks)
            ts = [['v', k] if r.random() < .6 else r.choice([['*', ['i', r.choice([-2, 2, 3])], ['v', k]], ['neg', ['v', k]], ['abs', ['v', k]], ['not', ['v', k]], ['-', ['v', k], ['p', 1]]]) for k in ks]
            x = r.random()
            if x < .3: e = ['sum', r.choice([0, 1, -4]), ts]
            elif x < .6:                              # a balanced tree
                ops = r.choice(['+', '+-', '&|', '+-*<=', '&|+'])
                while len(ts) > 1: ts = [[r.choice(ops).replace('=', '=='), a, b] for a, b in zip(ts[::2], ts[1::2])] + ts[len(ts) // 2 * 2:]
                e = ts[0]
            else:                                     # a comparison of two chains
                def chain(t):
                    e = t[0]
                    for q in t[1:]: e = [r.choice(['+', '+', '-', '&', '|']), e, q] if x > .8 else ['+', e, q]
                    return e
                c = r.randint(1, len(ts) - 1)
                e = [r.choice(CMP), chain(ts[:c]), chain(ts[c:])]
            if prop == 'C14' and r.random() < .5:
                ks = r.sample(range(1, nv + 1), nv if r.random() < .6 else r.randint(1, nv))
                ps = []
                for _ in range(6):                    # all different, or all but two
                    a = r.sample(range(-9, nv + 9), nv)
                    if nv > 1 and r.random() < .6:
                        u, v = r.sample(range(nv), 2)
                        a[u] = a[v]
                    ps.append([a, list(range(1, nv + 1)) if r.random() < .5 else [k for k in range(1, nv + 1) if r.random() < .9]])
                prog.append(['con', ['ad', ks], ps])
            a = [[r.choice([-1, 1, 1, 0]) if '*' in str(e) and x >= .3 and x < .6 else v for v in p] for p in asgs(r, nv, 2)]
            if prop == 'C25':
                prog.append(['eq', e, mutate(r, e, nv, 1) if r.random() < .6 else e, a])
            else:
                prog.append(['expr', e, a, parts(r, nv, 3)])
        out.append({'id': '%s-many-%s-%d' % (prop, seed, i), 'names': ns[:nv], 'pnames': ns[nv:], 'prog': prog})
    return out


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list)) if e and isinstance(e[0], str) else sum(map(size, e))


def shared(prop, seed, tier):
    """formulas written out of the same expressions, again and again"""
    out = []
    for i in range(150 if tier == 'quick' else 3000):
        r = random.Random('%s/shared/%s/%s' % (prop, seed, i))
        nv = r.randint(1, 4)
        ns = r.sample(NAMES, nv + 1)
        pool = [['v', k] for k in range(1, nv + 1)] + [['p', 1], ['c', r.choice([0, 1, -1, 2])], ['c', 2], expr(r, 1, nv, 1), ['+', ['v', 1], ['v', nv]], ['sum', r.choice([0, 2]), [['v', nv], ['v', 1], ['v', nv]]]]
        prog = [['pars', [r.choice([-1, 0, 1, 2])]]]
        accum = r.choice(pool)
        for _ in range(r.randint(3, 5)):
            todo = []
            for _ in range(r.randint(2, 6)):
                x = r.random()
                pick = lambda: r.choice(pool[-6:] if r.random() < .6 else pool)
                if x < .35: e = [r.choice(['+', '*', '+', '&', '|', '-']), accum, pick()]          # an accumulator
                elif x < .5: e = [r.choice(['sum', 'prod']), r.choice([0, 1, 1, 2]), [pick() for _ in range(r.randint(1, 4))]]
                elif x < .6: e = [r.choice(['neg', 'abs', 'not', 'pos']), pick()]
                else: e = [r.choice([b for b in BIN if b != '**']), pick(), pick() if r.random() < .8 else [r.choice('ic'), r.randint(-1, 2)]]
                if size(e) > 70: continue
                if x < .35: accum = e
                if r.random() < .25: accum = pick()
                pool.append(e)
                todo.append(e)
            old = r.sample(pool, 2)
            if prop == 'C25':
                for e in todo: prog.append(['eq', e, r.choice([e, pick(), mutate(r, e, nv, 1)]), asgs(r, nv, 2)])
            else:
                prog.append(['shared', [[e, asgs(r, nv, 3), parts(r, nv, 2)] for e in todo + old], r.choice([True, False])])
            if r.random() < .3: prog.append(['pars', [r.choice([-1, 0, 1, 2])]])
        out.append({'id': '%s-shared-%s-%d' % (prop, seed, i), 'names': ns[:nv], 'pnames': ns[nv:], 'shared': 1, 'prog': prog})
    return out
