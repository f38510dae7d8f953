"""Appends the generated tables (sub-checks with case counts, planted bugs) to DESIGN.md after the marker."""
import glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
head = open(p).read().split('<!-- tables -->')[0].rstrip('\n')
out = [head, '', '<!-- tables -->', '', '## 6. Sub-checks', '', '| property | sub-check | quick cases | thorough cases | non-trivial when |', '|---|---|---|---|---|']
sys.path.insert(0, root)
from vf import boot
boot.setup()
import importlib
from vf import core
for f in sorted(glob.glob(os.path.join(root, 'props', 'c*.py'))):
    importlib.import_module('props.' + os.path.basename(f)[:-3])
for s in core.SUBS:
    out.append('| %s | %s | %s | %s | %s |' % (s.prop, s.name, s.quick, s.thorough, s.rule))
out += ['', '## 7. Planted bugs', '', 'All of them pass the existing tests; "caught by" is the property whose check reports them (quick tier, seed 1).', '', '| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m.get('missed') or m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
open(p, 'w').write('\n'.join(out) + '\n')
