import random
from tlcrun import generate


def exhaustive(p, seed, tier):
    d = 5 if tier == 'quick' else 6
    return [dict(id='timer-%d' % i, seq=s['s'], t0=(i * 7) % 50) for i, s in enumerate(generate('TimerGen', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\n' % d))]


def rand(p, seed, tier):
    r = random.Random('timer/%s' % seed)
    out = []
    for i in range(1500 if tier == 'quick' else 20000):
        out.append(dict(id='timer-r%d' % i, t0=r.randint(0, 10 ** 6), seq=[
            dict(op=r.choice(['start', 'stop', 'abort']), n=0, w=2) if r.random() < .15 else
            dict(zip(('op', 'n'), r.choice([('start', 0), ('start', 0), ('stop', 1), ('stop', r.randint(0, 9)), ('abort', 0),
                                            ('tick', r.randint(0, 3)), ('tick', r.randint(1, 5000)), ('tick', 1)]))) for _ in range(r.randint(5, 40))]))
    return out
