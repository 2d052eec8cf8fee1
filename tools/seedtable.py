'''Writes the table of planted bugs into DESIGN.md (not used by any check).'''
import json, os
V = '/verif'
rows = ['<!-- seeded -->', '| bug | caught by | breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('{}/seeded/{}/meta.json'.format(V, d)))
    rows.append('| {} | {} | {} | {} |'.format(d, m['property'], m['what_it_breaks'], m['needs']))
rows.append('<!-- /seeded -->')
p = V + '/DESIGN.md'
s = open(p).read()
a, b = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->') + len('<!-- /seeded -->')
open(p, 'w').write(s[:a] + '\n'.join(rows) + s[b:])
