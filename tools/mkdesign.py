"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = json.load(open(os.path.join(ROOT, 'tools', 'seeded_notes.json')))
rows = ['| bug | property | breaks | caught by | first |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    by, first = FIRST.get(i, [m['property'], 'yes'])
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], by, first))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(?s)<!-- bugs -->.*?<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', s)
open(p, 'w').write(s)
