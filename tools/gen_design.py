"""DESIGN.md = tools/design_head.md + the table of planted bugs (tools/seed_results.json, written by tools/seed_run.sh)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(H + '/tools/seed_results.json')) if os.path.exists(H + '/tools/seed_results.json') else {}
o = [open(H + '/tools/design_head.md').read().rstrip(), '', '## 5. Planted bugs and what catches them', '',
     'Each was confirmed in a scratch copy: the 144 stable tests pass with it, its demonstration fails with it and passes without it.', '',
     '| change | property | needs | caught by (quick) |', '|---|---|---|---|']
for i in sorted(os.listdir(H + '/seeded')) if os.path.isdir(H + '/seeded') else []:
    m = json.load(open('%s/seeded/%s/meta.json' % (H, i)))
    o.append('| %s: %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['property'], m['needs'].replace('|', '/'), res.get(i, '?').replace('|', '/')))
t = H + '/tools/design_tail.md'
if os.path.exists(t):
    o += ['', open(t).read().rstrip()]
open(H + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
