"""DESIGN.md = tools/design.md with the table of planted bugs filled in."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
NOIN = {'C18-unlocked-peek', 'C19-limit-buffer'}
rows = ['| change | what it breaks | needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s%s | %s | %s |' % (d, ' †' if d in NOIN else '', m['what_it_breaks'], m['needs']))
t = open(os.path.join(here, 'design.md')).read().replace('SEEDTABLE', '\n'.join(rows))
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
