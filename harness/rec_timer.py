"""Records timer histories."""
from rt import *
install_clock()
from satisfy import utils as U


def record(case):
    CLOCK.reset()
    CLOCK.now = case.get('t0', 0)
    t, other = U.Timer(), U.Timer()
    ev = []

    def obs(**e):
        s = t.stats()
        e.update(run=int(t.running() is True), el=encticks(t.elapsed()), cnt=enc(t.count()), sel=encticks(s.elapsed), scnt=enc(s.count))
        ev.append(e)
    obs(op='new', n=0, out='ok')
    for o in case['seq']:
        out, ret = 'ok', -1
        if o.get('w'):                 # another timer: this one must not notice
            try:
                getattr(other, o['op'])()
            except RuntimeError:
                pass
            obs(op='tick', n=0, out='ok')
            continue
        try:
            if o['op'] == 'start': t.start()
            elif o['op'] == 'stop':
                ret = t.stop() if o['n'] == 1 else t.stop(count=o['n'])
                ret = encticks(ret) if isinstance(ret, (int, float)) else -2
            elif o['op'] == 'abort': t.abort()
            else: CLOCK.tick(o['n'])
        except Exception as e:
            out = excname(e)
        obs(op=o['op'], n=o['n'], out=out, ret=ret)
    return {'id': case['id'], 'events': ev}
