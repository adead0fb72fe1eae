"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*')):
    with open(d + '/meta.json') as fh:
        m = json.load(fh)
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs']))
p = here + '/DESIGN.md'
with open(p) as fh:
    s = fh.read()
i, j = s.index('<!-- table -->'), s.index('<!-- end -->')
with open(p, 'w') as fh:
    fh.write(s[:i] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[j:])
