"""Writes DESIGN.md (run with python3-vt)"""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import registry                                    # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
text = open(os.path.join(HERE, 'tools', 'design.md')).read()
rows = []
for p in props:
    rows.append('### %s %s\n' % (p['id'], p['title']))
    rows.append('| contract | mode | what it states | functions under contract |\n|---|---|---|---|')
    for c in registry.for_property(p['id']):
        mode = 'all N' if getattr(c, 'seq', False) else 'ded' if c.sym else 'run-time'
        rows.append('| %s | %s | %s | %s |' % (c.name, mode, ' '.join(c.doc.split()).replace('|', '\\|'), ', '.join(c.funcs)))
    rows.append('')
seeds = ['| id | property | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'].replace('|', '\\|'),
                                           m.get('caught', m['property'])))
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
unb = os.path.join(HERE, 'tools', 'design_unbounded.md')
text = text.replace('UNBOUNDED_SECTION', open(unb).read().strip() if os.path.exists(unb) else '## 3. Unbounded length\n\nNot available yet: all deductive clauses are bounded in the number of sites.')
text = text.replace('TABLE', '\n'.join(rows)).replace('SEEDED', '\n'.join(seeds))
text = text.replace('FIXED_LIST', '\n'.join('* ' + x[len('fixed: '):] for x in kf['fixed']))
text = text.replace('KNOWN_LIST', ' '.join('%s: %s' % (k['property'], k['what']) for k in kf['known']))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)
