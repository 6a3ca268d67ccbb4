import random
from tlcrun import generate
from gen import NAMES

BAD = ['1x', '_x', 'a-b', 'a b', 'x\n', '_v0', '_v1', '_p0', '_p1', ' x', 'x ', 'a.b', 'x:y', '0', '_', '-', 'a+b', 'x\ny', 'a,b', '(a)', 'a=1', '*']
NONSTR = [3, 1.5, ['x'], True]
POOL = NAMES + ['p_%d' % i for i in range(30)] + ['v0', 'p0', 'v_0', 'p1']


class B:
    """concretises an abstract history: keeps track of which names are in use"""
    def __init__(self, r):
        self.r, self.vars, self.pars, self.n, self.prog = r, [], [], 0, []

    def name(self, cls):
        r = self.r
        used = [x for x in self.vars + self.pars if x is not None]
        if cls == 'gen': return None, 1
        if cls == 'used' and used: return r.choice(used), 1
        if cls == 'bad': return (r.choice(BAD), 0) if r.random() < .93 else (r.choice(NONSTR), 0)
        return r.choice([n for n in POOL if n not in used]), 1

    def dom(self, cls):
        r = self.r
        if cls == 'dup':
            d = r.sample(range(-3, 6), r.randint(1, 4)); d.insert(r.randint(0, len(d)), r.choice(d))
            return r.choice(['list', 'tuple']), d
        x = r.random()
        if x < .1: return 'bool', [0, 1]
        if x < .15: return r.choice(['list', 'tuple']), []
        n = r.randint(1, 5)
        if x < .4:
            a = r.randint(-3, 3)
            return 'range', list(range(a, a + n))
        return r.choice(['list', 'tuple', 'list', 'set', 'frozenset']), r.sample(range(-5, 9), n)

    def op(self, o):
        r = self.r
        k, a, b = o
        if k == 'var':
            n, legal = self.name(a)
            kind, d = self.dom(b)
            self.prog.append(['addvar', n, legal, kind, d])
            if legal and b == 'ok' and (n is None or n not in self.vars + self.pars): self.vars.append(n)
        elif k == 'par':
            n, legal = self.name(a)
            self.prog.append(['addpar', n, legal, r.randint(-2, 5)])
            if legal and (n is None or n not in self.vars + self.pars): self.pars.append(n)
        elif k == 'con':
            how = r.randint(0, 59)
            known = [v for v in self.vars if v is not None]
            foreign = [n for n in POOL + ['_v0'] if n not in self.vars + self.pars]
            if '_v0' in foreign and None in self.vars + self.pars: foreign.remove('_v0')
            if r.random() < .15 and a in ('vars', 'ad', 'mixed', 'adforeign') and len(known) > 3:       # over all there is
                s = r.sample(known, r.randint(4, len(known)))
                if a in ('mixed', 'adforeign'): s.insert(r.randint(0, len(s)), r.choice(foreign))
                self.prog.append(['addcon', 'ad' if a[0] == 'a' else 'vars', s, how])
            elif a in ('vars', 'ad') and known: self.prog.append(['addcon', a, r.sample(known, r.randint(1, min(3, len(known)))), how])
            elif a in ('foreign', 'vars'): self.prog.append(['addcon', 'vars', r.sample(foreign, r.randint(1, 2)), how])
            elif a == 'mixed':
                s = r.sample(known, min(len(known), 2)) + [r.choice(foreign)]
                r.shuffle(s)
                self.prog.append(['addcon', 'vars', s, how])
            elif a in ('adforeign', 'ad'):
                s = r.sample(known, min(len(known), 1)) + r.sample(foreign, 1)
                self.prog.append(['addcon', 'ad', s, how])
            else: self.prog.append(['addcon', a, [], how])
        elif k == 'solv':
            self.prog.append(['setsolv', int(a) + r.choice([0, 2])])
        elif k == 'look':
            self.prog.append(['look', r.randint(0, 1), r.choice(['zzz', 'nope', '_v99'])])


def histories(p, seed, tier):
    out = []
    for i, s in enumerate(generate('ModelGen', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\n' % (3 if tier == 'quick' else 4))):
        b = B(random.Random('m/%s/%d' % (seed, i)))
        for o in s['s']: b.op(o)
        out.append(dict(id='model-%d' % i, prog=b.prog, nokw=i % 2))
    return out


OPS = [('var', 'gen', 'ok'), ('var', 'new', 'ok'), ('var', 'new', 'ok'), ('var', 'used', 'ok'), ('var', 'bad', 'ok'), ('var', 'gen', 'dup'), ('var', 'new', 'dup'),
       ('par', 'gen', ''), ('par', 'gen', ''), ('par', 'new', ''), ('par', 'used', ''), ('par', 'bad', ''), ('con', 'vars', ''), ('con', 'vars', ''), ('con', 'foreign', ''),
       ('con', 'mixed', ''), ('con', 'true', ''), ('con', 'never', ''), ('con', 'junk', ''), ('con', 'ad', ''), ('con', 'adforeign', ''), ('solv', '0', ''), ('solv', '1', ''), ('look', '', '')]


def rand(p, seed, tier):
    out = []
    for i in range(60 if tier == 'quick' else 1000):       # constraints over many variables
        r = random.Random('mw/%s/%d' % (seed, i))
        b = B(r)
        for _ in range(r.choice([6, 10, 18, 34, 70])):
            b.prog.append(['addvar', None if r.random() < .3 else 'x%d' % len(b.vars), 1, 'list', [0, 1]])
            b.vars.append(b.prog[-1][1] or '_v%d' % len(b.vars))
        par = '_p0' if r.random() < .5 else 'par'
        b.prog.append(['addpar', None if par == '_p0' else par, 1, 1])
        b.pars.append(par)
        for _ in range(6):
            s = r.sample(b.vars, r.choice([len(b.vars), len(b.vars), r.randint(3, len(b.vars))]))
            if r.random() < .6: s.insert(r.choice([0, len(s), len(s), len(s) // 2]), r.choice(['zzz', '_v99', 'x%d' % len(b.vars), s[0] + '0']))
            b.prog.append(['addcon', r.choice(['vars', 'ad']), s, r.randint(0, 59)])
        out.append(dict(id='model-w%d' % i, prog=b.prog, nokw=i % 2))
    for i in range(1500 if tier == 'quick' else 20000):
        r = random.Random('mr/%s/%d' % (seed, i))
        b = B(r)
        for _ in range(r.randint(5, 30)): b.op(r.choice(OPS))
        out.append(dict(id='model-r%d' % i, prog=b.prog, nokw=i % 2))
    return out
