"""Invocations of the command line tool (C23)."""
import json, random
import gen_puzzle as G
from text import text

SUDOKU = [[8, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 3, 6, 0, 0, 0, 0, 0], [0, 7, 0, 0, 9, 0, 2, 0, 0], [0, 5, 0, 0, 0, 7, 0, 0, 0], [0, 0, 0, 0, 4, 5, 7, 0, 0],
          [0, 0, 0, 1, 0, 0, 0, 3, 0], [0, 0, 1, 0, 0, 0, 0, 6, 8], [0, 0, 8, 5, 0, 0, 0, 1, 0], [0, 9, 0, 0, 0, 0, 4, 0, 0]]
KNAP = {'values': [10, 12, 20, 23, 15, 14, 16], 'caps': [8, 6], 'weights': [[1, 1], [2, 1], [5, 3], [4, 4], [2, 2], [2, 2], [2, 3]]}
NONO = {'rows': [[], [4], [6], [2, 2], [2, 2], [6], [4], [2], [2], [2], [], []], 'cols': [[], [9], [9], [2, 2], [2, 2], [4], [4], []]}
GNODES = ['node1', 'node3', 'node2', 'node0', 'node4']
GEDGES = [('node1', 'node3'), ('node1', 'node2'), ('node1', 'node0'), ('node3', 'node0'), ('node3', 'node4'), ('node2', 'node0'), ('node2', 'node4'), ('node0', 'node4')]
W = lambda s: ['w', [int(c) if c.isdigit() else ord(c.upper()) - 55 for c in s]]
DEFMAP = None


class B:
    def __init__(self, r):
        self.r, self.out = r, []

    def add(self, kind, argv, I, default, file=None, **k):
        """argv without the common options; default: the limit when none is given"""
        r = self.r
        opts, lim, cut, tick = [], default, 0, 0
        force = k.pop('limits', None)
        x = force if force is not None else r.choice(['', '', '', 'inf', 0, 1, 1, 2, 2, 3, 5])
        if x == 'inf':
            opts.append([r.choice(['-l', '--limit'])]); lim = -1
        elif x != '':
            opts.append(['-l', str(x)] if r.random() < .7 else ['--limit=%d' % x]); lim = x
        strike = k.pop('strike', 0)                  # a timeout that must strike: of nothing, while every look at the clock takes a while
        if strike:
            opts.append([r.choice(['-t', '--timeout']), '0']); cut, tick, k['tmo'], k['still'] = 2, 10, 0, 1
        y = r.random() if not k.get('sub') and not k.pop('still', 0) else 1
        if y < .08: opts.append(['-t'])
        elif y < .2: opts.append([r.choice(['-t', '--timeout']), r.choice(['1000000', '1e7', '99999.5'])])
        elif y < .35:
            z = r.choice(['0', '1', '30', '100', '0.5', '2.25e1'])
            opts.append(['-t', z]); cut, tick = 1, 10
            k['tmo'] = round(float(z) * 1000)
        if r.random() < .25: opts.append([r.choice(['-s', '--show-model'])])
        pos = k.pop('positional', None)
        groups = [list(g) for g in argv] + opts
        r.shuffle(groups)
        if pos is not None:
            # the positional goes first, or after an option that cannot swallow it
            if groups and len(groups[-1]) == 2 and groups[-1][0] not in ('-L', '-C') and r.random() < .5: tail = [pos]
            else:
                groups.insert(0, [pos]); tail = []
        else: tail = []
        self.out.append(dict(id='cli-%d' % len(self.out), do='cli', kind=kind, I=I, lim=lim, cut=k.pop('cut', cut), tick=tick,
                             argv=[k.pop('cmd')] + [a for g in groups for a in g] + tail, file=file, **k))


def cases(p, seed, tier):
    r = random.Random('cli/%s' % seed)
    b = B(r)
    f = lambda: ['-i', '@file'] if r.random() < .6 else r.choice([['--input-file', '@file'], ['--input-file=@file'], ['-i', '-']])
    m = 1 if tier == 'quick' else 12

    # ---- built-in examples
    for l in ('', 1, 'inf', 0):
        b.add('knapsack', [], dict(KNAP, ok=1), -1, cmd='knapsack', limits=l)
        b.add('nonogram', [], NONO, -1, cmd='nonogram', limits=l)
        b.add('einstein', [], {'n': 5}, -1, cmd='einstein', limits=l)
    for l in ('', 1, 'inf'):
        b.add('knapsack', [], dict(KNAP, ok=1), -1, cmd='knapsack', limits=l, strike=1)
        b.add('nonogram', [], NONO, -1, cmd='nonogram', limits=l, strike=1)
        b.add('einstein', [], {'n': 5}, -1, cmd='einstein', limits=l, strike=1)
        b.add('crypt', [], {'f': ['==', ['+', W('SEND'), W('MORE')], W('MONEY')], 'nolead': 1}, -1, cmd='cryptarithm', limits=l, strike=1)
        b.add('sudoku', [], {'grid': SUDOKU}, 1, cmd='sudoku', limits=l, strike=1)
        b.add('queens', [['-b', '5']], {'n': 5}, -1, cmd='queens', limits=l, strike=1)
        b.add('graph', [], {'n': 5, 'edges': [[GNODES.index(x) + 1, GNODES.index(y) + 1] for x, y in GEDGES], 'k': 3}, -1, cmd='graph_labeling', limits=l,
              labels=['red', 'blue', 'green'], nodelist=GNODES, strike=1)
        b.add('map', [], {'map': [], 'k': 4}, 1, cmd='ascii_map_coloring', limits=l, colors=['red', 'blue', 'green', 'yellow'], full=0, defmap=1, strike=1)
    b.add('crypt', [], {'f': ['==', ['+', W('SEND'), W('MORE')], W('MONEY')], 'nolead': 1}, -1, cmd='cryptarithm', limits='')
    b.add('sudoku', [], {'grid': SUDOKU}, 1, cmd='sudoku', limits='')
    for l in ('', 1, 4, 'inf'):
        b.add('graph', [], {'n': 5, 'edges': [[GNODES.index(x) + 1, GNODES.index(y) + 1] for x, y in GEDGES], 'k': 3}, -1, cmd='graph_labeling', limits=l,
              labels=['red', 'blue', 'green'], nodelist=GNODES)
    b.add('map', [], {'map': [], 'k': 4}, 1, cmd='ascii_map_coloring', limits='', colors=['red', 'blue', 'green', 'yellow'], full=0, defmap=1)
    b.add('map', [], {'map': [], 'k': 4}, 1, cmd='ascii_map_coloring', limits=2, colors=['red', 'blue', 'green', 'yellow'], full=0, defmap=1)
    # ---- the real program in a process of its own, with the real clock
    b.add('queens', [['-b', '8'], ['-t', '0.3']], {'n': 8}, -1, cmd='queens', limits='', sub=1, cut=1)
    b.add('queens', [['-b', '6'], ['-t']], {'n': 6}, -1, cmd='queens', limits=2, sub=1)
    b.add('einstein', [['-t', '800']], {'n': 5}, -1, cmd='einstein', limits='', sub=1)

    # ---- more solutions than one counts on
    n7 = ['v%d' % i for i in range(7)]
    d7 = {'directed': False, 'multigraph': False, 'graph': {}, 'nodes': [{'id': x} for x in n7], 'links': []}
    for l in ('', 'inf', 1100):
        b.add('graph', [f(), ['-L', 'a', 'b', 'c']], {'n': 7, 'edges': [], 'k': 3}, -1, file=json.dumps(d7), cmd='graph_labeling', limits=l,
              labels=['a', 'b', 'c'], nodelist=n7, still=1)
    mp = ['ABCDEF' + 'ABCDEF', 'G' * 12]
    b.add('map', [f(), ['-C', 'red', 'green', 'blue', 'yellow', 'cyan']], {'map': [list(map(ord, x)) for x in mp], 'k': 5}, 1, file='\n'.join(mp),
          cmd='ascii_map_coloring', colors=['red', 'green', 'blue', 'yellow', 'cyan'], full=0, limits=1300, still=1)
    # ---- queens
    for n in (0, 1, 2, 3, 4, 5, 6):
        for l in ('', 'inf', 0, 1, 2):
            b.add('queens', [[r.choice(['-b', '--board-size']), str(n)]], {'n': n}, -1, cmd='queens', limits=l)
    # ---- sudoku
    for c in r.sample(G.sudoku(p, 'cli%s' % seed, 'quick'), 90) * m:
        if len(c['I']['grid']) != 9 or 'sub' in c and any(v is not None for v in c['sub'].values()): continue
        if c['args'].get('limit') == 'inf' or c['args'].get('limit') is None: l = r.choice(['', 'inf'])
        else: l = c['args']['limit']
        g = [[None if '%d,%d' % (i, j) in c.get('sub', {}) else v for j, v in enumerate(row)] for i, row in enumerate(c['I']['grid'])]
        b.add('sudoku', [f()], c['I'], 1, file=json.dumps(g, indent=r.choice([None, 1])), cmd='sudoku', limits=l)
    # ---- nonogram
    for c in r.sample(G.nonogram(p, 'cli%s' % seed, 'quick')[90:], 120) * m:
        b.add('nonogram', [f()], c['I'], -1, file=json.dumps({'rows': c['I']['rows'], 'columns': c['I']['cols']}), cmd='nonogram',
              **({} if len(c['I']['rows']) * len(c['I']['cols']) < 17 else dict(limits='')))
    for i in range(80 * m):
        nr, nc = r.randint(1, 5), r.randint(1, 5)
        rows = [''.join(r.choice(r.choice(['#X*.0', ' _'])) for _ in range(r.randint(0, nc) if r.random() < .3 else nc)) for _ in range(nr)]
        nc = max(map(len, rows))
        pic = [[int(i < len(t) and t[i] not in ' _') for i in range(nc)] for t in rows]
        b.add('nonogram', [['-I', '@file'] if r.random() < .6 else ['--input-image', '@file']], G.clue(pic, nc), -1, file='\n'.join(rows), cmd='nonogram')
    # ---- knapsack
    for c in r.sample([c for c in G.knapsack(p, 'cli%s' % seed, 'quick') if c['I']['ok']], 150) * m:
        b.add('knapsack', [f()], c['I'], -1, file=json.dumps({'values': c['I']['values'], 'capacities': c['I']['caps'], 'weights': c['I']['weights']}), cmd='knapsack')
    # ---- graph labeling
    for c in r.sample(G.graph(p, 'cli%s' % seed, 'quick')[40:], 150) * m:
        I = c['I']
        k = I['k']
        if k == 0: continue
        nodes = [['n%d' % i for i in range(I['n'])], list(range(I['n'])), [10 - i for i in range(I['n'])], (['a b', 'x', '0', 'red', 'n_0', 'n_1', '', '7', 'n_10', 'X', 'y', '-', '1', '10'] + ['m%d' % q for q in range(40)])[:I['n']]][r.randrange(4)]
        labels = r.choice([['red', 'blue', 'green', 'white'] + list('123456789'), list('0123') + ['c%d' % q for q in range(9)], ['b', 'a', 'A', 'x y'] + list('BCDEFGHIJ')])[:k]
        cls = c['cls']
        data = {'directed': 'Di' in cls, 'multigraph': 'Multi' in cls, 'graph': {}, 'nodes': [{'id': x} for x in nodes],
                'links': [dict({'source': nodes[x - 1], 'target': nodes[y - 1]}, **({'key': i} if 'Multi' in cls else {})) for i, (x, y) in enumerate(I['edges'])]}
        argv = [f()]
        if k != 3 or r.random() < .6: argv.append([r.choice(['-L', '--labels'])] + labels)
        else: labels = ['red', 'blue', 'green']
        big = k ** I['n'] > 800
        b.add('graph', argv, I, -1, file=json.dumps(data), cmd='graph_labeling', labels=labels, nodelist=nodes, **(dict(limits=r.choice([1, 2])) if big else {}))
    # ---- maps
    maps = G.mapcoloring(p, 'cli%s' % seed, 'quick')
    for c in r.sample(maps, 170) * m + r.sample([c for c in maps if c['I']['k'] > 4 and c.get('full', 1)], 12):
        mp = [list(x) for x in c['I']['map']]
        if not any(mp): continue
        txt = '\n'.join(''.join(map(chr, x)) for x in mp)
        if r.random() < .5:
            txt += '\n'; mp.append([])
        argv, colors, k = [f()], ['red', 'blue', 'green', 'yellow'], c['I']['k']
        if k != 4 or r.random() < .5:
            colors = r.sample(G.HUES[:6] if k <= 6 else G.HUES, k)
            argv.append([r.choice(['-C', '--colors'])] + colors)
        full = c.get('full', 1)
        many = not full or G.colorings(mp, k, 300) >= 300
        b.add('map', argv, {'map': mp, 'k': k}, 1, file=txt, cmd='ascii_map_coloring', colors=colors, full=full, **(dict(limits=r.choice(['', 1, 2, 5])) if many else dict(limits='inf', still=1) if k > 4 else {}))
    # ---- cryptarithms
    for c in r.sample(G.crypt(p, 'cli%s' % seed, 'quick'), 200) * m:
        if c['I']['f'][0] in ('&', '|') or c['id'] == 'crypt-960': continue
        if len({t for t in G.flat(c['I']['f']) if t >= 10}) > 4: continue
        src = text(c['I']['f'], c['case'], c['sp'])
        nolead = c['I']['nolead']
        argv = []
        if not nolead: argv.append([r.choice(['-z', '--avoid-leading-zeros']), r.choice(['off', '0', 'false', 'OFF', 'False'])])
        elif r.random() < .5: argv.append(['-z', r.choice(['on', '1', 'true', 'On'])])
        b.add('crypt', argv, c['I'], -1, cmd='cryptarithm', positional=src)
    return b.out


