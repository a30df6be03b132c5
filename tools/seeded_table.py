"""Prints the table of planted bugs for DESIGN.md (for authors; no check uses it)."""
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
rows = {}
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    rows.setdefault(m['property'], []).append('%s (%s)' % (i[4:], m['needs']))
for p in sorted(rows):
    print('* %s: %s.' % (p, '; '.join(rows[p])))
