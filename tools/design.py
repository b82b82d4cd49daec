"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()
mark = '<!-- planted bugs -->'
s = s.split(mark)[0].rstrip('\n')
rows = [mark, '', '| planted bug | caught by | what it needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
open(p, 'w').write(s + '\n\n' + '\n'.join(rows) + '\n')
