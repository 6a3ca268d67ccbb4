"""The table of planted bugs of DESIGN.md, from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| bug | caught by | manifests with |\n|---|---|---|')
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    print('| %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
