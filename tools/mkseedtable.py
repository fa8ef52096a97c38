"""rewrites the table of planted changes at the end of DESIGN.md"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
head = 'Every row was run against'
i = s.index('\n\n', s.index(head)) + 2
rows = ['| change | property | needs | effect |', '|---|---|---|---|']
d = os.path.join(here, 'seeded')
L = []
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    c = lambda t: re.sub(r'\s+', ' ', t).replace('|', '\\|')
    L.append((m['property'], n, c(m['needs']), c(m['what_it_breaks'])))
rows += ['| %s | %s | %s | %s |' % (n, q, a, b) for q, n, a, b in sorted(L)]
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')
