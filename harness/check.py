#!/usr/bin/env python3
"""Decides one property: records the library's behaviour on generated cases,
validates every recorded trace against the TLA+ specification with TLC, runs
the property's design models, and writes the evidence file.

  check.py ID [--tier quick|thorough] [--seed N]     decide
  check.py --replay FILE                             re-run one violating case
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)
from tlcrun import Machinery, ncpu, tlc
import suites as SUITES


# ------------------------------------------------------------------ recording
def record(kind, cases, deadline):
    """traces of the cases, recorded by worker processes; a worker that dies on a
    case leaves a trace with the single event 'crash'"""
    traces = {}
    k = ncpu()
    lock = threading.Lock()
    stop = []

    def shard(todo):
        while todo and not stop:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', FORCE_COLOR='1', PYTHONWARNINGS='ignore')
            p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), kind], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
            data = ''.join(json.dumps(c) + '\n' for c in todo)
            try:
                out, err = p.communicate(data, timeout=max(5, deadline - time.time()))
                timed = False
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                timed = True
            got = [json.loads(l) for l in out.splitlines() if l.endswith('}')]
            with lock:
                for t in got:
                    traces[t['id']] = t
            if len(got) == len(todo):
                return
            if any(e.get('out') == 'hang' for t in got for e in t['events']):
                stop.append(1)
                return
            if not got and ('ImportError' in err or 'SyntaxError' in err or 'ModuleNotFoundError' in err) and 'rec_' in err:
                pass
            bad = todo[len(got)]
            with lock:
                traces[bad['id']] = {'id': bad['id'], 'events': [{'op': 'crash', 'out': 'timeout' if timed else 'crash', 'err': err[-1500:]}]}
                if len([t for t in traces.values() if t['events'] and t['events'][0]['op'] == 'crash']) >= 3:
                    stop.append(1)
            todo = todo[len(got) + 1:]

    ths = [threading.Thread(target=shard, args=(cases[i::k],)) for i in range(k) if cases[i::k]]
    for t in ths: t.start()
    for t in ths: t.join()
    return [traces[c['id']] for c in cases if c['id'] in traces]


# ----------------------------------------------------------------- validation
def validate(suite, prop, traces, scratch, timeout):
    """None, or (trace index, event index, clauses) of the first rejected trace; plus numbers"""
    f = os.path.join(scratch, 'traces.ndjson')
    with open(f, 'w') as h:
        for t in traces:
            h.write(json.dumps(t) + '\n')
    cfg = 'CONSTANT Prop = "%s"\nINIT Init\nNEXT Next\nINVARIANT NoViolation\nCHECK_DEADLOCK FALSE\nALIAS Report\n' % prop
    for c in suite.get('constants', []):
        cfg += 'CONSTANT %s\n' % c
    r = tlc(suite['spec'], cfg, scratch, env={'CASES': f}, timeout=timeout)
    out = r['out']
    if 'Invariant NoViolation is violated' in out:
        tids = re.findall(r'tid (?:\|->|=) (\d+)', out)
        ls = re.findall(r'\bl (?:\|->|=) (\d+)', out)
        vs = re.findall(r'viol (?:\|->|=) (\{[^}]*\})', out)
        return (int(tids[-1]) - 1, int(ls[-1]) - 2, vs[-1]), r
    if 'No error has been found' in out:
        want = sum(len(t['events']) + 1 for t in traces)
        if r['distinct'] != want:
            raise Machinery('%s consumed %d of %d states' % (suite['spec'], r['distinct'], want))
        return None, r
    # an evaluation error: the trace holds data the specification gives no meaning to
    tids = re.findall(r'tid (?:\|->|=) (\d+)', out)
    ls = re.findall(r'\bl (?:\|->|=) (\d+)', out)
    if tids and 'OutOfMemory' not in out:
        return (int(tids[-1]) - 1, int(ls[-1]) - 1, '{"malformed"}'), r
    raise Machinery('TLC failed on %s:\n%s' % (suite['spec'], out[-3000:]))


def prove(m, scratch, timeout):
    """a module of theorems: every obligation is proved by the TLA+ proof system"""
    d = os.path.join(scratch, 'proof-' + m['spec'])
    shutil.copytree(SPEC, d, ignore=shutil.ignore_patterns('.tlacache'))
    try:
        p = subprocess.run(['tlapm', '--threads', str(ncpu()), '--stretch', '4', m['spec'] + '.tla'], cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('tlapm timed out on %s' % m['spec'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    n = re.search(r'All (\d+) obligations? proved', p.stdout)
    if not n:
        raise Machinery('%s is not proved:\n%s' % (m['spec'], p.stdout[-3000:]))
    return {'distinct': 0, 'depth': 0, 'generated': 0, 'init': 0, 'obligations': int(n.group(1))}


def design(m, scratch, timeout):
    """one design-level model: spec checked on its own, within the constants of its configuration"""
    if m.get('proof'):
        return prove(m, scratch, timeout)
    cfg = open(os.path.join(SPEC, m['cfg'])).read() if 'cfg' in m else m['text']
    r = tlc(m['spec'], cfg, scratch, timeout=timeout, extra=m.get('args', ()))
    ok = 'No error has been found' in r['out'] or ('simulate' in ' '.join(m.get('args', ())) and r['rc'] == 0)
    if m.get('expect') == 'fail':
        if ok or 'is violated' not in r['out']:
            raise Machinery('design model %s: the deliberately broken variant was not rejected\n%s' % (m.get('cfg', m['spec']), r['out'][-2000:]))
    elif not ok:
        raise Machinery('design model %s failed:\n%s' % (m.get('cfg', m['spec']), r['out'][-3000:]))
    return r


# ----------------------------------------------------------------------- main
def run(prop, tier, seed, only=None):
    t0 = time.time()
    limit = 840 if tier == 'quick' else 6 * 3600
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vcheck-%s-' % prop)
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'events': 0, 'design_models': [], 'suites': []}
    found = None
    try:
        entry = SUITES.PROPS[prop]
        for s in entry['suites']:
            suite = SUITES.SUITES[s]
            ts = time.time()
            left = limit - (time.time() - t0)
            cases = suite['gen'](prop, seed, tier)
            chunk = suite.get('chunk', 6000)
            nt = ne = nd = 0
            for i in range(0, len(cases), chunk):
                part = cases[i:i + chunk]
                traces = record(suite['rec'], part, time.time() + max(20, left * 0.5))
                if not traces:
                    raise Machinery('nothing recorded for ' + s)
                bad, r = validate(suite, prop, traces, scratch, max(60, limit - (time.time() - t0)))
                nt += len(traces); ne += sum(len(t['events']) for t in traces); nd += r['distinct']
                cov['states'] += r['distinct']; cov['transitions'] += max(0, r['generated'] - r['init'])
                if i == 0 and len(cov['samples']) < 4:
                    c = min(part[:40], key=lambda c: len(json.dumps(c)))
                    cov['samples'].append({'case': c, 'trace': next((t for t in traces if t['id'] == c['id']), None)})
                if bad:
                    tid, l, viol = bad
                    t = traces[tid]
                    case = next(c for c in part if c['id'] == t['id'])
                    found = {'property': prop, 'suite': s, 'clauses': viol, 'event_index': l,
                             'event': t['events'][l] if 0 <= l < len(t['events']) else None, 'case': case, 'trace': t}
                    break
                if len(traces) < len(part):
                    raise Machinery('recording of %s stopped early without a violation' % s)
            cov['traces_validated_against_impl'] += nt
            cov['events'] += ne
            cov['suites'].append({'suite': s, 'spec': suite['spec'], 'cases': nt, 'events': ne, 'spec_states': nd, 'wall_s': round(time.time() - ts, 1)})
            if found:
                break
        if not found:
            for m in entry.get('models', []):
                if m.get('tier') == 'thorough' and tier != 'thorough':
                    continue
                ts = time.time()
                r = design(m, scratch, max(60, limit - (time.time() - t0)))
                cov['states'] += r['distinct']; cov['transitions'] += max(0, r['generated'] - r['init'])
                cov['design_models'].append({'spec': m['spec'], 'config': m.get('cfg', m.get('name', '')), 'states': r['distinct'], 'depth': r['depth'],
                                             'expected': m.get('expect', 'holds'), **({'obligations_proved': r['obligations']} if 'obligations' in r else {}), 'wall_s': round(time.time() - ts, 1)})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': entry.get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if found else 0}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if found:
        path = os.path.join(EVID, 'replay-%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(found, f)
        print('violated clauses %s at event %d of case %s: %s' % (found['clauses'], found['event_index'], found['case']['id'], json.dumps(found['event'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('OK property=%s tier=%s seed=%d traces=%d events=%d states=%d wall=%.1fs' % (
        prop, tier, seed, cov['traces_validated_against_impl'], cov['events'], cov['states'], time.time() - t0))
    return 0


def replay(path):
    found = json.load(open(path))
    suite = SUITES.SUITES[found['suite']]
    scratch = tempfile.mkdtemp(prefix='vreplay-')
    try:
        traces = record(suite['rec'], [found['case']], time.time() + 300)
        bad, r = validate(suite, found['property'], traces, scratch, 600)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for i, e in enumerate(traces[0]['events']):
        print(i, json.dumps(e)[:400])
    if bad:
        print('violated clauses', bad[2], 'at event', bad[1])
        print('VIOLATION property=%s replay=%s' % (found['property'], path))
        return 1
    print('not violated')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        return replay(a.replay) if a.replay else run(a.id, a.tier, a.seed)
    except Machinery as e:
        print('ERROR machinery: %s' % e)
        return 2
    except Exception:
        import traceback
        print('ERROR machinery: %s' % traceback.format_exc())
        return 2


if __name__ == '__main__':
    sys.exit(main())
