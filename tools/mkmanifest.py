"""Writes MANIFEST.json from harness/suites.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import suites
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = suites.NOTES
checks, na = [], []
for p in props:
    i = p['id']
    if i in suites.PROPS:
        e = suites.PROPS[i]
        specs = sorted({suites.SUITES[s]['spec'] for s in e['suites']} | {m['spec'] for m in e.get('models', [])})
        checks.append(dict(property=i, quick_cmd='python3 harness/check.py %s --tier quick' % i,
                           thorough_cmd='python3 harness/check.py %s --tier thorough' % i,
                           technique='TLA+ specification (%s) checked with TLC; traces recorded from the real code validated against it' % ', '.join(specs),
                           level='model_checking', level_note=NOTE.get(i, NOTE['*'])))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='sh harness/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: everything is observed through the public API. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
