"""Runs the design models of every property: models.py [quick|thorough] [ID ...]"""
import os, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import check, suites
tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
done = set()
with tempfile.TemporaryDirectory() as t:
    for p, e in suites.PROPS.items():
        for m in e.get('models', []):
            if (sys.argv[2:] and p not in sys.argv[2:]) or (m.get('tier', 'quick') != tier) or str(m) in done: continue
            done.add(str(m))
            t0 = time.time()
            try:
                r = check.design(m, t, 7200)
                print(p, m['spec'], m.get('cfg', m.get('name', '')), 'expect=' + m.get('expect', 'holds'), 'obligations=%d' % r['obligations'] if m.get('proof') else 'states=%d' % r['distinct'], '%.0fs' % (time.time() - t0), flush=True)
            except Exception as x:
                print(p, m['spec'], 'FAILED', str(x)[-800:], flush=True)
