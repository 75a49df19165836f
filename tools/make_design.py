"""Fills the table of planted bugs in DESIGN.md from seeded/ and tools/plant/*.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(ROOT + '/tools/plant/results.json'))
rows = []
for bug in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, bug)))
    r = res.get(bug, {})
    got = ', '.join('%s' % p for p in sorted(r) if r[p]['caught']) or ('not yet run' if not r else 'MISSED by %s' % ', '.join(sorted(r)))
    rows.append((m['property'], bug, m['what_it_breaks'], got))
rows.sort()
txt = '| property | planted bug | what it breaks | caught by |\n|---|---|---|---|\n'
txt += ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
f = ROOT + '/tools/plant/reverts.json'
if os.path.exists(f):
    rev = json.load(open(f))
    n = {}
    for c in rev.values():
        n.setdefault(c['result'].split()[0], []).append(c['property'])
    txt += '\nEach fix commit taken back: %s.\n' % '; '.join('%s %d' % (k, len(v)) for k, v in sorted(n.items()))
    for c, v in sorted(rev.items()):
        if v['result'] != 'caught':
            txt += '%s (%s): %s.\n' % (c, v['property'], v.get('note', v['result']))
s = open(ROOT + '/DESIGN.md').read()
i, j = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
open(ROOT + '/DESIGN.md', 'w').write(s[:i] + '<!-- seeded -->\n' + txt + s[j:])
