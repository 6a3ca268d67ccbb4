"""Instances of the puzzles (C16-C22, C26)."""
import itertools, random

POLICIES = ['ORDERED', 'REVERSED', 'RANDOM', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT']


def args(r, limit=None, heavy=False):
    a = {}
    if not heavy and r.random() < .45: a['pol'] = r.choice(POLICIES)
    if r.random() < .5: a['comp'] = r.choice([True, False])
    if limit is not None: a['limit'] = limit
    if r.random() < .2: a['timeout'] = r.choice([None, 'inf', 10 ** 6, 1])
    return a


def rlimit(r, top=6):
    return r.choice([None, None, None, 'inf', 'inf', 0, 1, 2, r.randint(1, top)])


def lim(a, x):
    if x is not None: a['limit'] = x
    elif 'limit' in a: del a['limit']
    return a


# ------------------------------------------------------------------- sudoku
def full_grid(r):
    rows = [b * 3 + i for b in r.sample(range(3), 3) for i in r.sample(range(3), 3)]
    cols = [b * 3 + i for b in r.sample(range(3), 3) for i in r.sample(range(3), 3)]
    d = r.sample(range(1, 10), 9)
    g = [[d[(a * 3 + a // 3 + b) % 9] for b in cols] for a in rows]
    return [list(x) for x in zip(*g)] if r.random() < .5 else g


def fill(g, r):
    """any valid grid, not only permutations of one pattern"""
    best = None
    for i in range(9):
        for j in range(9):
            if g[i][j] == 0:
                c = cands(g, i, j)
                if best is None or len(c) < len(best[2]): best = (i, j, c)
                if not c: return False
    if best is None: return True
    r.shuffle(best[2])
    for v in best[2]:
        g[best[0]][best[1]] = v
        if fill(g, r): return True
    g[best[0]][best[1]] = 0
    return False


def any_grid(r, _cache=[]):
    if len(_cache) < 40 or r.random() < .1:
        g = [[0] * 9 for _ in range(9)]
        fill(g, r)
        _cache.append(g)
        return [list(x) for x in g]
    # another look at a known one: digits renamed, rows and columns of a band swapped
    g = r.choice(_cache)
    d = [0] + r.sample(range(1, 10), 9)
    rows = [b * 3 + i for b in r.sample(range(3), 3) for i in r.sample(range(3), 3)]
    cols = [b * 3 + i for b in r.sample(range(3), 3) for i in r.sample(range(3), 3)]
    return [[d[g[i][j]] for j in cols] for i in rows]


def cands(g, i, j):
    used = set(g[i]) | {g[k][j] for k in range(9)} | {g[a][b] for a in range(i // 3 * 3, i // 3 * 3 + 3) for b in range(j // 3 * 3, j // 3 * 3 + 3)}
    return [v for v in range(1, 10) if v not in used]


def count(g, cap):
    """number of completions, at most cap (bounds the size of what is generated; the specification enumerates them itself)"""
    best = None
    for i in range(9):
        for j in range(9):
            if g[i][j] == 0:
                c = cands(g, i, j)
                if best is None or len(c) < len(best[2]): best = (i, j, c)
    if best is None: return 1
    n = 0
    for v in best[2]:
        g[best[0]][best[1]] = v
        n += count(g, cap - n)
        if n >= cap: break
    g[best[0]][best[1]] = 0
    return n


def sudoku(p, seed, tier):
    r = random.Random('sudoku/%s' % seed)
    out = []
    n = 900 if tier == 'quick' else 15000

    def add(**k):
        out.append(dict(id='sudoku-%d' % len(out), do='solve', kind='sudoku', **k))
    for i in range(n):
        g = full_grid(r) if r.random() < .3 else any_grid(r)
        cells = [(a, b) for a in range(9) for b in range(9)]
        r.shuffle(cells)
        x = r.random()
        a = args(r, heavy=True)
        k = dict(cont=(r.choice(['list', 'tuple', 'gen', 'iter']), r.choice(['list', 'tuple', 'gen', 'iter'])) if r.random() < .5 else ('list', 'list'))
        if i % 12 == 5:                              # right in some kinds of unit only
            kind = r.choice(['block', 'col', 'row', 'two'])
            if kind == 'block':                      # rows and columns hold, blocks do not
                perm = r.sample(range(9), 9)
                if r.random() < .5:                  # few rows moved: most blocks hold too
                    perm = list(range(9)); u, v = r.sample(range(9), 2); perm[u], perm[v] = v, u
                g = [g[q] for q in perm]
                if r.random() < .5: g = [list(q) for q in zip(*g)]
            else:                                    # cells exchanged within one row and block
                for _ in range(r.choice([1, 1, 2, 9])):
                    i1, j0 = r.randrange(9), 3 * r.randrange(3)
                    u, v = r.sample(range(3), 2)
                    g[i1][j0 + u], g[i1][j0 + v] = g[i1][j0 + v], g[i1][j0 + u]
                    if kind == 'two': g = [list(q) for q in zip(*g)]
                if kind == 'row': g = [list(q) for q in zip(*g)]
            for c in cells[:r.choice([0, 0, 1, 2, 4, 12])]: g[c[0]][c[1]] = 0
            if count([list(q) for q in g], 40) >= 40: continue
            lim(a, r.choice([None, 'inf', 2]))
        elif x < .08:                                # complete or nearly complete grid
            for c in cells[:r.choice([0, 0, 1, 2])]: g[c[0]][c[1]] = 0
            lim(a, rlimit(r))
        elif x < .2:                                 # two rows/columns with a rectangle open: several completions
            for c in cells[:r.randint(4, 20)]: g[c[0]][c[1]] = 0
            v, w = r.sample(range(1, 10), 2)
            for c in cells:
                if g[c[0]][c[1]] in (v, w): g[c[0]][c[1]] = 0
            if count(g, 60) >= 60: continue
            lim(a, rlimit(r))
        elif x < .32:                                # unknown rectangles: swapping their digits may break one kind of unit only
            rect = [(a, b, c, d) for a in range(9) for b in range(a) for c in range(9) for d in range(c)
                    if g[a][c] == g[b][d] and (g[a][d] == g[b][c] or r.random() < .02)]
            r.shuffle(rect)
            whole = r.random() < .5
            for a, b, c, d in rect[:r.choice([1, 1, 2, 3])]:
                v, w = g[a][c], g[a][d]
                for e in (cells if whole else [(a, c), (a, d), (b, c), (b, d)]):
                    if not whole or g[e[0]][e[1]] in (v, w): g[e[0]][e[1]] = 0
                if whole: break
            for c in cells[:r.choice([0, 0, 3, 8])]: g[c[0]][c[1]] = 0
            if count([list(x) for x in g], 60) >= 60: continue
            lim(a := args(r, heavy=True), rlimit(r))
        elif x < .4:                                 # units with exactly one, two or three unknown cells
            for u in r.sample(range(27), r.randint(1, 5)):
                us = [(u, j) for j in range(9)] if u < 9 else [(i, u - 9) for i in range(9)] if u < 18 else \
                     [((u - 18) // 3 * 3 + i, (u - 18) % 3 * 3 + j) for i in range(3) for j in range(3)]
                for c in r.sample(us, r.choice([1, 2, 2, 3, 9])): g[c[0]][c[1]] = 0
            if count([list(x) for x in g], 60) >= 60: continue
            lim(a, rlimit(r))
        elif x < .58:                                # many unknown cells
            cap = r.choice([2, 2, 8, 25])
            for c in cells[:r.randint(10, 50)]:
                old = g[c[0]][c[1]]
                g[c[0]][c[1]] = 0
                if count(g, cap) >= cap: g[c[0]][c[1]] = old
            lim(a, rlimit(r))
        elif x < .8:                                 # contradictory givens
            m = r.choice([0, 0, 3, 10, 25])
            for c in cells[:m]: g[c[0]][c[1]] = 0
            i1, j1 = cells[-1]
            unit = r.choice(['row', 'col', 'block'])
            peers = [c for c in cells[m:-1] if (c[0] == i1 and unit == 'row') or (c[1] == j1 and unit == 'col')
                     or (unit == 'block' and c[0] // 3 == i1 // 3 and c[1] // 3 == j1 // 3)]
            peers = [c for c in peers if c != (i1, j1)]
            if not peers: continue
            c = r.choice(peers)
            if m and r.random() < .6:
                # the only contradiction: every other peer of the changed cell with that value is cleared
                v = g[c[0]][c[1]]
                for e in cells:
                    if e not in (c, (i1, j1)) and g[e[0]][e[1]] == v and (e[0] == i1 or e[1] == j1 or (e[0] // 3, e[1] // 3) == (i1 // 3, j1 // 3)):
                        g[e[0]][e[1]] = 0
            g[i1][j1] = g[c[0]][c[1]]
            lim(a, r.choice([None, None, 'inf', 3]))
        elif x < .88:                                # a wrong value that contradicts nothing directly
            for c in cells[:r.randint(10, 40)]: g[c[0]][c[1]] = 0
            i1, j1 = cells[-1]
            g[i1][j1] = 0
            c = cands(g, i1, j1)
            if c: g[i1][j1] = r.choice(c)
            if count(g, 40) >= 40: continue
            lim(a, r.choice([None, 'inf', 2]))
        elif x < .94:                                # rejected: rows
            for c in cells[:r.randint(0, 30)]: g[c[0]][c[1]] = 0
            y = r.random()
            if y < .35: g = g[:r.randint(0, 8)]
            elif y < .7: g = g + [list(r.choice(g))] * r.randint(1, 2)
            else: g = []
        else:                                        # rejected: values
            for c in cells[:r.randint(0, 30)]: g[c[0]][c[1]] = 0
            i1, j1 = r.choice([cells[0], cells[-1], (8, 8), (0, 0)])
            g[i1][j1] = -1
            k['sub'] = {'%d,%d' % (i1, j1): r.choice([10, -1, 'x', '5', 99, '', 0.5])}
        if 'sub' not in k and r.random() < .4:       # unknown cells written None
            k['sub'] = {'%d,%d' % (i, j): None for i in range(len(g)) for j in range(9) if g[i][j] == 0 and r.random() < .7}
        if r.random() < .15: k['times'], k['reuse'] = 2, 1
        add(I={'grid': g}, args=a, **k)
    return out


# ----------------------------------------------------------------- nonogram
def runs(line):
    return [len(list(g)) for k, g in itertools.groupby(line) if k]


def clue(pic, nc):
    return {'rows': [runs(x) for x in pic], 'cols': [runs([row[c] for row in pic]) for c in range(nc)]}


def nonogram(p, seed, tier):
    r = random.Random('nonogram/%s' % seed)
    out = []

    def add(I, **k):
        out.append(dict(id='nonogram-%d' % len(out), do='solve', kind='nonogram', I=I, **k))
    # every picture of the smallest sizes
    for nr, nc in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2)]:
        for bits in itertools.product([0, 1], repeat=nr * nc):
            pic = [list(bits[i * nc:(i + 1) * nc]) for i in range(nr)]
            add(clue(pic, nc), args=args(r))
    if tier != 'quick':
        for bits in itertools.product([0, 1], repeat=9):
            add(clue([list(bits[i * 3:(i + 1) * 3]) for i in range(3)], 3), args=args(r))
    add({'rows': [], 'cols': []}, args={})
    add({'rows': [[], []], 'cols': []}, args={})
    add({'rows': [], 'cols': [[], [], []]}, args={})
    for i in range(1600 if tier == 'quick' else 8000):
        nr, nc = (r.randint(1, 4), r.randint(1, 4)) if i % 3 else (r.randint(2, 7), r.randint(2, 7))
        dens = r.choice([.2, .4, .5, .6, .8]) if nr * nc < 20 else r.choice([.5, .65, .8])
        pic = [[int(r.random() < dens) for _ in range(nc)] for _ in range(nr)]
        I = clue(pic, nc)
        x = r.random()
        if x < .35 and nr * nc <= 16:                 # ambiguous: permutation-like pictures
            k = min(nr, nc)
            pic = [[int(a == b) for b in range(nc)] for a in range(nr)]
            r.shuffle(pic)
            I = clue(pic, nc)
        elif x < .6:                                  # clues that need not be satisfiable
            key = r.choice(['rows', 'cols'])
            l = r.choice(I[key])
            y = r.random()
            if y < .3: l.append(r.randint(1, max(nr, nc)))
            elif y < .6 and l: l[r.randrange(len(l))] += r.choice([1, 2, 1 - l[0]]) or 1
            elif y < .8 and l: l.pop()
            else:
                l2 = r.choice(I[key]); l[:], l2[:] = list(l2), list(l)
            for q in I['rows'] + I['cols']: q[:] = [max(1, v) for v in q]
        a = lim(args(r, heavy=nr * nc > 12), rlimit(r) if r.random() < .4 else None)
        k = dict(times=2, reuse=1) if r.random() < .1 else {}
        if nr * nc > 30 and sum(map(len, I['rows'])) > 14: continue
        add(I, args=a, **k)
    for i in range(100 if tier == 'quick' else 800):   # long lines, mostly filled
        nr, nc = r.choice([(1, r.randint(8, 20)), (2, r.randint(8, 20)), (3, r.randint(8, 14)), (4, 11), (r.randint(7, 11), r.randint(7, 11))])
        if r.random() < .5: nr, nc = nc, nr
        d = r.choice([.85, .9, .95, 1])
        add(clue([[int(r.random() < d) for _ in range(nc)] for _ in range(nr)], nc), args=args(r))
    return out


def clues(p, seed, tier):
    r = random.Random('clues/%s' % seed)
    out = []

    def add(**k):
        out.append(dict(id='clues-%d' % len(out), do='clues', kind='nonogram', **k))
    for nr, nc in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (1, 4), (3, 1), (1, 5), (2, 3), (3, 2), (3, 3)]:
        for bits in itertools.product([0, 1], repeat=nr * nc):
            add(pic=[list(bits[i * nc:(i + 1) * nc]) for i in range(nr)], solve=int(nr * nc < 9 or r.random() < .2))
    add(pic=[], solve=1)
    add(pic=[[], []], solve=1)
    chars = [32, 95, 35, 46, 48, 120, 42, 49, 88, 9]
    for i in range(900 if tier == 'quick' else 12000):
        nr, nc = r.randint(1, 9), r.randint(0 if r.random() < .05 else 1, 12)
        if i % 12 == 0: nr, nc = r.choice([(r.randint(1, 4), r.randint(13, 45)), (r.randint(13, 30), r.randint(1, 4)), (r.randint(10, 16), r.randint(10, 16))])
        d = r.choice([.1, .3, .5, .7, .9, 1])
        k = {}
        if r.random() < .5:
            pic = [[int(r.random() < d) for _ in range(nc)] for _ in range(nr)]
            if r.random() < .3: pic[r.randrange(nr)] = [r.choice([0, 1])] * nc
            k['pic'] = pic
            if r.random() < .3: k['cells'] = r.choice([[False, True], ['', 'x'], [0, 7], [None, 'y'], [0, -1]])
        else:
            t = [[(r.choice(chars[2:]) if r.random() < d else r.choice(chars[:2])) for _ in range(r.randint(0, nc) if r.random() < .4 else nc)] for _ in range(nr)]
            k['text'] = t
            if r.random() < .2: k['blanks'] = r.choice([[46], [32], [46, 48], [95, 46, 32]])
        if r.random() < .3: k['zo'] = r.choice([('.', 'X'), ('_', 'x'), ('0', '1'), ('#', ' '), (' ', '*')])
        small = nr * nc <= 12
        add(solve=int(small and r.random() < .5), **k)
    return out


# ------------------------------------------------------------------ knapsack
def knapsack(p, seed, tier):
    r = random.Random('knapsack/%s' % seed)
    out = []
    kinds = ['list', 'tuple', 'iter', 'gen']

    def add(I, **k):
        out.append(dict(id='knap-%d' % len(out), do='knap', kind='knapsack', I=dict(I, ok=k.pop('ok', 1)), **k))
    for i in range(3500 if tier == "quick" else 40000):
        n, m = r.randint(0, 7), r.choice([0, 1, 1, 1, 2, 2, 3])
        lo = r.choice([0, 0, 1, -5, -2])
        hi = r.choice([1, 3, 10, 30])
        I = {'values': [r.randint(lo, hi) for _ in range(n)],
             'caps': [r.randint(r.choice([0, 0, -3]), r.choice([3, 10, 20, 40])) for _ in range(m)],
             'weights': [[r.randint(r.choice([0, 1, 1, -3]), r.choice([2, 6, 15])) for _ in range(m)] for _ in range(n)]}
        if r.random() < .1:
            x = r.choice(I['values'] or [1])
            I['values'] = [x] * n
        a = args(r)
        if r.random() < .2: a['limit'] = r.choice([None, 'inf', 0, 1, 1, 2, 3])
        k = dict(args=a)
        if r.random() < .4: k['cont'] = [r.choice(kinds) for _ in range(4)]
        if r.random() < .12: k['times'] = 2
        if r.random() < .15:
            import copy
            raw = copy.deepcopy(I)
            bads = [1.5, '3', None, 2.0]
            y = r.random()
            if y < .15: raw['weights'].append([1] * m)
            elif y < .3 and n: raw['weights'].pop(r.randrange(n))
            elif y < .4 and n: r.choice(raw['weights']).append(1)
            elif y < .5 and n and m: r.choice(raw['weights']).pop()
            elif y < .65 and n: raw['values'][r.randrange(n)] = r.choice(bads)
            elif y < .8 and m: raw['caps'][r.randrange(m)] = r.choice(bads)
            elif y < .95 and n and m: raw['weights'][r.randrange(n)][r.randrange(m)] = r.choice(bads)
            elif n: raw['weights'][r.randrange(n)] = 3
            if raw != I or str(raw) != str(I):
                k['raw'], k['ok'] = raw, 0
        add(I, **k)
    for i in range(80 if tier == 'quick' else 800):        # many capacities
        n, m = r.randint(1, 6), r.randint(4, 12)
        w = [[r.choice([0, 0, 1, r.randint(0, 9)]) for _ in range(m)] for _ in range(n)]
        caps = [max(0, sum(x[c] for x in w) - r.choice([0, 0, 0, 0, 1, 3])) for c in range(m)]
        if r.random() < .4: caps = [sum(x[c] for x in w) for c in range(m)]; c = r.randrange(m); caps[c] = max(0, caps[c] - 1)
        add({'values': [r.randint(0, 12) for _ in range(n)], 'caps': caps, 'weights': w}, args=args(r))
    for i in range(16 if tier == 'quick' else 200):        # many items
        n, m = r.randint(9, 11), r.choice([1, 1, 2])
        w = [[r.randint(1, 20) for _ in range(m)] for _ in range(n)]
        add({'values': [r.randint(1, 60) for _ in range(n)], 'caps': [sum(x[c] for x in w) // r.choice([2, 3, 4, 8]) for c in range(m)], 'weights': w}, args={})
    for i in range(60 if tier == 'quick' else 600):        # large numbers, close to each other
        n, m, e = r.randint(2, 6), r.choice([1, 1, 2]), r.choice([5, 7, 8, 10, 16, 18, 19, 25, 40])
        near = lambda x: [x + r.choice([0, 0, 1, -1, r.randint(-5, 5)]) for _ in range(n)]
        I = {'values': near(10 ** e // n) if r.random() < .5 else [r.randint(-10 ** (e - 2), 10 ** e // n) for _ in range(n)]}
        w = [near(10 ** e // n) if r.random() < .5 else [r.randint(0, 10 ** e // n) for _ in range(n)] for _ in range(m)]
        I.update(caps=[sum(r.sample(x, r.randint(1, n))) + r.choice([0, 0, -1, 1]) for x in w], weights=[list(x) for x in zip(*w)])
        if e > 8: I['big'] = 1
        add(I, args=args(r))
    # ties, knife edges and dominated items
    for i in range(150 if tier == 'quick' else 1500):
        n = r.randint(3, 8)
        w = [r.randint(1, 9) for _ in range(n)]
        d = r.choice([0, 0, 1, -1])
        cap = max(0, sum(r.sample(w, r.randint(1, n))) + d)
        add({'values': [x + r.choice([0, 0, 1]) for x in w], 'caps': [cap], 'weights': [[x] for x in w]}, args=args(r))
    return out


# -------------------------------------------------------------- cryptarithm
def crypt(p, seed, tier):
    r = random.Random('crypt/%s' % seed)
    out = []

    def add(f, **k):
        z = k.pop('z', None)
        out.append(dict(id='crypt-%d' % len(out), do='solve', kind='crypt', I={'f': f, 'nolead': 1 if z is None or z else 0}, z=z, **k))

    def value(f, a):
        if f[0] == 'w': return int(''.join(str(t if t < 10 else a[t]) for t in f[1]))
        x, y = value(f[1], a), value(f[2], a)
        return x + y if f[0] == '+' else x - y if f[0] == '-' else x * y

    def most(f):
        """no value met in f is further from 0"""
        if f[0] == 'w': return int(''.join(str(t if t < 10 else 9) for t in f[1]))
        x, y = most(f[1]), most(f[2])
        return x * y if f[0] == '*' else x + y

    def towords(n, a, r, keep):
        """the number written with letters for (some of) its digits"""
        inv = {v: t for t, v in a.items()}
        return ['w', [inv[int(c)] if int(c) in inv and r.random() < keep else int(c) for c in str(n)]]
    for i in range(900 if tier == 'quick' else 6000):
        k = r.choice([1, 2, 2, 3, 3, 3, 4])
        letters = r.sample(range(10, 36), k)
        a = dict(zip(letters, r.sample(range(10), k)))
        keep = r.choice([.6, .9, 1])
        if i % 3 == 0:      # free form
            def leaf():
                n = r.choice([1, 1, 2, 2, 3])
                return ['w', [r.choice(letters) if r.random() < keep else r.randint(0, 9) for _ in range(n)]]

            def expr(d):
                return leaf() if d == 0 or r.random() < .3 else [r.choice('++-**'), expr(d - 1), expr(d - 1)]
            f = [r.choice(['==', '==', '==', '<', '<=', '>', '>=', '!=']), expr(r.choice([1, 1, 2])), expr(r.choice([0, 1]))]
            if max(most(f[1]), most(f[2])) > 9 * 10 ** 7: continue         # beyond the integers of the specification
            if f[0] != '==' and k == 4: continue
            if f[0] in ('!=', '<', '<=', '>', '>=') and k > 2: continue
        elif i % 3 == 1:    # planted sum
            x, y = r.randint(1, 999), r.randint(1, 9999 if k > 2 else 99)
            z = r.choice([0, r.randint(1, 200)])
            l = ['+', towords(x, a, r, keep), towords(y, a, r, keep)]
            if z: l = ['+', l, towords(z, a, r, keep)]
            f = ['==', l, towords(x + y + z, a, r, keep)]
            if r.random() < .2: f = ['==', f[2], f[1]]
        else:               # planted product or difference
            x, y = r.randint(1, 99), r.randint(1, 99)
            f = r.choice([['==', ['*', towords(x, a, r, keep), towords(y, a, r, keep)], towords(x * y, a, r, keep)],
                          ['==', ['-', towords(x + y, a, r, keep), towords(x, a, r, keep)], towords(y, a, r, keep)],
                          ['==', towords(x * y, a, r, keep), ['*', towords(x, a, r, keep), towords(y, a, r, keep)]]])
        if r.random() < .06:
            f = [r.choice('&|'), f, ['>', ['w', [r.choice(letters)]], ['w', [r.randint(0, 8)]]]]
            if f[0] == '|' and k > 2: continue
        nl = len({t for t in flat(f) if t >= 10})
        ar = args(r, heavy=nl >= 4)
        add(f, z=r.choice([None, None, True, False, False]), args=lim(ar, rlimit(r) if r.random() < .3 else None),
            case=r.choice(['up', 'up', 'low', 'mix']), sp=r.choice(['', '', ' ']), **(dict(times=2, reuse=1) if r.random() < .05 else {}))
    for i in range(24 if tier == 'quick' else 200):         # long numbers, more letters
        k = r.choice([2, 3, 4, 5, 6])
        letters = r.sample(range(10, 36), k)
        a = dict(zip(letters, r.sample(range(10), k)))
        x, y = r.randint(10 ** 4, 10 ** 6), r.randint(10 ** 3, 10 ** 7 - 1)
        if k > 4:                                              # few solutions: as many columns as can be
            ds = [str(d) for d in a.values()]
            x, y = [int(r.choice([d for d in ds if d != '0']) + ''.join(r.choice(ds) for _ in range(6))) for _ in range(2)]
        f = ['==', ['+', towords(x, a, r, 1), towords(y, a, r, 1)], towords(x + y, a, r, 1)]
        add(f, z=r.choice([None, True, False]), args={}, case=r.choice(['up', 'low', 'mix']), sp=r.choice(['', ' ']))
    for i in range(20 if tier == 'quick' else 200):         # numbers beyond any machine word
        letters = r.sample(range(10, 36), r.choice([1, 2, 2, 2, 3]) if tier != 'quick' else r.choice([1, 2, 2]))
        a = dict(zip(letters, r.sample(range(10), len(letters))))
        x, y = r.randint(1, 10 ** r.choice([9, 12, 17, 20, 24, 30])), r.randint(1, 10 ** r.choice([2, 10, 16, 18, 25, 30]))
        if r.random() < .3: y = r.randint(2, 99)
        k = r.choice([.5, 1, 1])
        f = r.choice([['==', ['+', towords(x, a, r, k), towords(y, a, r, k)], towords(x + y, a, r, k)],
                      ['==', ['*', towords(x, a, r, k), towords(y, a, r, k)], towords(x * y, a, r, k)],
                      ['==', ['-', towords(x + y, a, r, k), towords(x, a, r, k)], towords(y, a, r, k)],
                      [r.choice(['<', '<=', '>', '>=']), towords(x, a, r, k), towords(max(x + r.randint(-2, 2), 0), a, r, k)]])
        add(f, z=r.choice([None, True, False]), args={}, case=r.choice(['up', 'low', 'mix']), sp=r.choice(['', ' ']))
    # leading letters that may or may not be zero
    for i in range(60 if tier == 'quick' else 600):
        A, B = r.sample(range(10, 36), 2)
        f = r.choice([['==', ['+', ['w', [A, B]], ['w', [B, A]]], ['w', [r.choice([A, B])] * 2]], ['==', ['*', ['w', [A]], ['w', [B]]], ['w', [A]]],
                      ['==', ['+', ['w', [A]], ['w', [A]]], ['w', [A]]], ['==', ['*', ['w', [A, B]], ['w', [0]]], ['w', [0]]],
                      ['<', ['w', [A, B]], ['w', [r.randint(0, 3), A]]], ['==', ['w', [5, A]], ['w', [5, B]]], ['!=', ['w', [5, A]], ['w', [5, B]]],
                      ['==', ['+', ['w', [1, A]], ['w', [A, 1]]], ['w', [r.randint(1, 9), r.randint(1, 9)]]],
                      ['==', ['w', [1, 2]], ['+', ['w', [5]], ['w', [r.choice([6, 7])]]]],
                      ['==', ['*', ['w', [A, 0, B]], ['w', [2]]], ['w', [r.randint(2, 9), 0, r.randint(0, 9)]]]])
        add(f, z=r.choice([None, True, False]), args=args(r), case=r.choice(['up', 'low']), sp='')
    if tier == 'thorough' or True:
        W = lambda s: ['w', [ord(c) - 55 for c in s]]
        add(['==', ['+', W('SEND'), W('MORE')], W('MONEY')], z=None, args={}, case='up', sp='')
    if tier != 'quick':
        for x, y, z in [('TWO', 'TWO', 'FOUR'), ('BASE', 'BALL', 'GAMES'), ('EAT', 'THAT', 'APPLE')]:
            for zz in (True, False):
                add(['==', ['+', W(x), W(y)], W(z)], z=zz, args={}, case='low', sp=' ', guard=600)
    return out


def flat(f):
    return f[1] if f[0] == 'w' else flat(f[1]) + flat(f[2])


# ------------------------------------------------------------ graphs and maps
def graph(p, seed, tier):
    r = random.Random('graph/%s' % seed)
    out = []
    pools = [['red', 'green', 'blue', 'yellow'], [0, 1, 2, 3], ['a', 'A', '', 'b'], [None, 'x', 0, 2], [[1, 2], [2, 1], 'n_0', 5], [3, 2, 1, 0]]

    def add(n, edges, k, **kw):
        out.append(dict(id='graph-%d' % len(out), do='solve', kind='graph', I={'n': n, 'edges': edges, 'k': k}, labels=(r.choice(pools) if k <= 4 else r.choice([list(range(20)), ['l%d' % q for q in range(20)], list(range(20, 0, -1))]))[:k],
                        nodes=r.choice(['int', 'rint', 'str', 'tuple', 'mixed']), cont=r.choice(['list', 'list', 'tuple', 'gen']), **kw))
    # every graph on at most 3 nodes (loops included), every graph on 4 nodes
    for n in range(4):
        pairs = [(a, b) for a in range(1, n + 1) for b in range(a, n + 1)]
        for bits in itertools.product([0, 1], repeat=len(pairs)):
            add(n, [e for e, x in zip(pairs, bits) if x], r.randint(0, 3) if n < 3 else r.choice([1, 2, 2, 3]), cls='Graph', args=args(r))
    pairs = list(itertools.combinations(range(1, 5), 2))
    for bits in itertools.product([0, 1], repeat=6):
        add(4, [e if r.random() < .5 else e[::-1] for e, x in zip(pairs, bits) if x], r.choice([2, 3, 4]), cls='Graph', args=args(r))
    for i in range(1600 if tier == "quick" else 12000):
        n = r.randint(1, 8)
        k = r.randint(1, 4) if n <= 5 else r.randint(1, 3)
        cls = r.choice(['Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'])
        d = r.choice([.2, .4, .6, .9])
        if k ** n > 800: d = max(d, .6)
        edges = [[a, b] for a in range(1, n + 1) for b in range(1, n + 1) if a != b and (a < b or cls.endswith('DiGraph')) and r.random() < d]
        if n > 5 and k == 3 and len(edges) < n: continue
        r.shuffle(edges)
        edges = [e[::-1] if r.random() < .5 else e for e in edges]
        if r.random() < .1 and edges: edges.append(r.choice(edges)[::-1])
        if r.random() < .05: edges.append([r.randint(1, n)] * 2)
        add(n, edges, k, cls=cls, args=lim(args(r), rlimit(r) if r.random() < .4 else None), **(dict(times=2, reuse=1) if r.random() < .1 else {}))
    for i in range(120 if tier == "quick" else 1000):
        if i % 2:                                    # many labels
            n, k = r.randint(1, 3), r.randint(5, 13)
            if n == 3: k = min(k, 9)
            edges = [[a, b] for a in range(1, n + 1) for b in range(1, a) if r.random() < .6]
        else:                                        # many nodes: mostly connected, few labels
            n, k = r.randint(9, 14), r.choice([2, 2, 2, 3])
            if r.random() < .3: n, k = r.randint(15, 40), 2
            edges = [[a, r.randint(max(1, a - (2 if k == 3 else 9)), a - 1)] for a in range(2, n + 1) if r.random() < (.9 if n < 15 else .97)]
            if k == 3: edges += [[a, a - 1] for a in range(2, n + 1) if [a, a - 1] not in edges] + [[a, a - 2] for a in range(3, n + 1) if [a, a - 2] not in edges and r.random() < .8]
            free = n - len({tuple(e) for e in edges})
            if k == 2 and free > 8: continue
        r.shuffle(edges)
        add(n, edges, k, cls=r.choice(['Graph', 'DiGraph']), args=lim(args(r), rlimit(r) if r.random() < .3 else None))
    return out


HUES = ['red', 'green', 'blue', 'yellow', 'magenta', 'cyan', 'white', 'black', 'light_red', 'light_blue', 'dark_grey', 'light_grey', 'light_cyan']


def mapcoloring(p, seed, tier):
    r = random.Random('map/%s' % seed)
    out = []

    def add(m, k, **kw):
        c = dict(id='map-%d' % len(out), do='solve', kind='map', I={'map': m, 'k': k}, form=r.choice(['text', 'rows', 'chars']), **kw)
        if (k != 4 or r.random() < .5) and k <= 6: c['colors'] = r.sample(['red', 'green', 'blue', 'yellow', 'magenta', 'cyan'], k)
        out.append(c)
    # every 2x2 and 1x4 map over two characters, blank and dot, every 2x3 map over one character and blank
    for shape, alphabet in [((2, 2), [97, 98, 32, 46]), ((1, 4), [97, 98, 32]), ((3, 3) if tier != 'quick' else (2, 3), [97, 98, 32] if tier != 'quick' else [97, 98, 32])]:
        for cells in itertools.product(alphabet, repeat=shape[0] * shape[1]):
            add([list(cells[i * shape[1]:(i + 1) * shape[1]]) for i in range(shape[0])], r.choice([1, 2, 2, 3]), args=lim(args(r), r.choice(['inf', 'inf', None, 2])))
    for i in range(1500 if tier == "quick" else 12000):
        nr, nc = r.randint(1, 6), r.randint(1, 8)
        chars = [ord(c) for c in r.choice(['ab', 'abc', 'a', 'abcd01', '#*a_', 'xX', 'ab-'])]
        if r.random() < .7: chars = chars + r.choice([[32], [46], [32, 46], [32, 32, 46]])
        m = [[r.choice(chars) for _ in range(nc)] for _ in range(nr)]
        for _ in range(r.choice([0, 1, 2, 4])):      # patches make regions larger
            a, b = r.randrange(nr), r.randrange(nc)
            ch = r.choice(chars)
            for x in range(a, min(nr, a + r.randint(1, 4))):
                for y in range(b, min(nc, b + r.randint(1, 4))): m[x][y] = ch
        if r.random() < .35:                         # lines of different length
            for row in m:
                if r.random() < .5: del row[r.randint(0, len(row)):]
        if all(c in (32, 46) for row in m for c in row) and all(not row for row in m): continue
        nreg, conf = regions(m)
        k = r.choice([2, 3, 3, 4])
        full = nreg * 1.0 - .4 * conf < 5 and k ** nreg <= 20000 and nreg <= 9
        if not full:
            k = 4
        a = lim(args(r, heavy=not full), r.choice(['inf', 'inf', None, 1, 2, 3, 0]) if full else r.choice([None, 1, 2, 5]))
        if a.get('limit') == 'inf' and colorings(m, k, 400) >= 400: a['limit'] = 7
        add(m, k, args=a, full=int(full), **(dict(times=2, reuse=1) if r.random() < .1 else {}))
    for i in range(60 if tier == "quick" else 600):  # many regions
        nr, nc = r.randint(5, 11), r.randint(7, 15)
        chars = [ord(c) for c in r.choice(['a', 'ab', 'abcde', '0123', '\'"ab'])]
        m = [[r.choice(chars) if x % 2 == 0 and y % 2 == 0 else r.choice(chars + [32] * 12 + [46] * 4) for y in range(nc)] for x in range(nr)]
        k = r.choice([4, 4, 5, 6])
        add(m, k, args=lim(args(r, heavy=True), r.choice([None, None, 1, 2, 3])), full=0)
    for i in range(60 if tier == "quick" else 600):  # more colours than areas
        nr, nc = r.randint(1, 3), r.randint(1, 5)
        chars = [ord(c) for c in r.choice(['a', 'ab', 'ab ', 'a.', 'abc'])]
        m = [[r.choice(chars) for _ in range(nc)] for _ in range(nr)]
        if regions(m)[0] > 4: continue
        k = r.choice([5, 6, 7, 9, 13])
        a = lim(args(r), r.choice(['inf', 'inf', 'inf', None, 3, 20]))
        if a.get('limit') == 'inf' and colorings(m, k, 1500) >= 1500: a['limit'] = 40
        add(m, k, args=a)
        out[-1]['colors'] = r.sample(HUES, k)
    for i in range(30 if tier == "quick" else 300):  # long winding areas
        m = winding(r)
        nreg, conf = regions(m)
        k = r.choice([2, 3, 3, 4])
        full = nreg <= 6
        add(m, k if full else 4, args=lim(args(r, heavy=not full), r.choice(['inf', None, 1, 3]) if full else r.choice([None, 1, 2])), full=int(full))
    return out


def winding(r):
    """a path that winds through the map: a serpentine, a spiral, a comb, stairs or one line; what it leaves is filled or blank"""
    nr, nc = r.randint(5, 13), r.randint(5, 13)
    kind = r.choice(['snake', 'snake', 'spiral', 'comb', 'stairs', 'line', 'ring'])
    on = set()
    if kind == 'snake':
        for x in range(0, nr, 2):
            on |= {(x, y) for y in range(nc)}
            if x + 1 < nr: on.add((x + 1, nc - 1 if x % 4 == 0 else 0))
    elif kind == 'spiral':
        x, y, dx, dy = 0, 0, 0, 1
        on.add((x, y))
        while True:
            def free(a, b, c, d): return 0 <= a < nr and 0 <= b < nc and (a, b) not in on and (a + c, b + d) not in on
            if not free(x + dx, y + dy, dx, dy):
                dx, dy = dy, -dx
                if not free(x + dx, y + dy, dx, dy): break
            x, y = x + dx, y + dy
            on.add((x, y))
    elif kind == 'comb':
        on = {(0, y) for y in range(nc)} | {(x, y) for y in range(0, nc, 2) for x in range(nr)}
    elif kind == 'stairs':
        on = {(x, x) for x in range(nr)} | {(x, x + 4) for x in range(nr)}
    elif kind == 'line':
        nr, nc = 1, r.randint(20, 90)
        on = {(0, y) for y in range(nc)}
    else:
        on = {(x, y) for x in range(nr) for y in range(nc) if x in (0, nr - 1) or y in (0, nc - 1)}
    if r.random() < .3: on.discard(r.choice(sorted(on)))
    a, b = (ord(c) for c in r.choice(['ab', '#.', 'x ', 'o ', '10', 'ba']))
    m = [[a if (x, y) in on else b for y in range(nc)] for x in range(nr)]
    for _ in range(r.choice([0, 0, 1, 3])): m[r.randrange(nr)][r.randrange(nc)] = r.choice([a, b, ord('c'), 32])
    if r.random() < .5: m = m[::-1]
    if r.random() < .5: m = [row[::-1] for row in m]
    if r.random() < .5: m = [list(col) for col in zip(*m)]
    return m


def regions(m):
    seen, reg = {}, 0
    for i, row in enumerate(m):
        for j, ch in enumerate(row):
            if ch in (32, 46) or (i, j) in seen: continue
            reg += 1
            stack = [(i, j)]
            seen[i, j] = reg
            while stack:
                a, b = stack.pop()
                for x in (a - 1, a, a + 1):
                    for y in (b - 1, b, b + 1):
                        if 0 <= x < len(m) and 0 <= y < len(m[x]) and (x, y) not in seen and m[x][y] == ch:
                            seen[x, y] = reg
                            stack.append((x, y))
    e = {(min(seen[p], seen[q]), max(seen[p], seen[q])) for p in seen for q in seen if abs(p[0] - q[0]) < 2 and abs(p[1] - q[1]) < 2 and seen[p] != seen[q]}
    regions.edges = e
    return reg, len(e)


def colorings(m, k, cap):
    n, _ = regions(m)
    e = regions.edges

    def go(i, col):
        if i > n: return 1
        t = 0
        for v in range(k):
            if all(col[a - 1] != v for a, b in e if b == i):
                t += go(i + 1, col + [v])
                if t >= cap: return t
        return t
    return go(1, [])


# --------------------------------------------------------- queens and einstein
def queens(p, seed, tier):
    r = random.Random('queens/%s' % seed)
    out = []

    def add(n, a, **k):
        out.append(dict(id='queens-%d' % len(out), do='solve', kind='queens', I={'n': n}, args=a, **k))
    add(9, {}, soft=1, guard=400)          # long: started first
    for n in range(0, 6):
        for pol in POLICIES:
            for comp in (True, False):
                slow = n >= 3 and pol in ('REVERSED', 'RANDOM', 'MAX_BOUND', 'MAX_CONSTRAINT', 'MIN_CONSTRAINT')
                # the search may take for ever: what it yields within the guard is judged
                add(n, {'pol': pol, 'comp': comp}, **(dict(soft=1, guard=3 if tier == 'quick' else 60) if slow else {}))
    for n in (6, 7) if tier == 'quick' else (6, 7, 8):
        add(n, {})
        add(n, {'comp': False})
    for n in range(0, 7):
        for l in (0, 1, 2, 3, 5, 'inf', None):
            add(n, {'limit': l})
    if tier == 'quick': add(8, {})
    add(8, {'limit': 3}, full=0)
    add(9, {'limit': 2}, full=0)
    if tier != 'quick': add(10, {'limit': 1}, full=0)
    add(5, {}, times=2, reuse=1)
    return out


def einstein(p, seed, tier):
    out = []
    for pol in POLICIES + [None]:
        for comp in (True, False, None):
            for rep in range(1 if pol != 'RANDOM' or tier == 'quick' else 4):
                a = {}
                if pol: a['pol'] = pol
                if comp is not None: a['comp'] = comp
                out.append(dict(id='einstein-%d' % len(out), do='solve', kind='einstein', I={'n': 5}, args=a,
                                **(dict(soft=1, guard=8 if tier == 'quick' else 200) if pol == 'RANDOM' else dict(guard=300))))
    for l in (0, 1, 2, 'inf', None):
        out.append(dict(id='einstein-%d' % len(out), do='solve', kind='einstein', I={'n': 5}, args={'limit': l}, times=2, reuse=1))
    return out

