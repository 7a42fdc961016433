"""Rewrites the table of planted changes at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs']))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read().split('<!-- planted -->')[0]
s += '<!-- planted -->\n%d changes; each is caught by the check of its property (seed 1, quick).\n\n| check | planted change: what it needs to manifest |\n|---|---|\n' % sum(map(len, rows.values()))
for k in sorted(rows):
    s += '| %s | %s |\n' % (k, '; '.join('%s: %s' % (a[4:], b.replace('|', '/')) for a, b in rows[k]))
open(p, 'w').write(s)
