"""Fills the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs'], m.get('caught', 'check ' + m['property'])))
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index('## Planted changes')
open(p, 'w').write(s[:i] + '## Planted changes (`seeded/`)\n\nAll are confirmed (tests pass, demo fails with the change only) by `tools/seed.py`; no check reads this folder.\n\n' + '\n'.join(rows) + '\n')
