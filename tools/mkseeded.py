#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
caught = json.load(open('tools/caught.json'))
rows = ['| planted bug | property | what it breaks | caught by (search) |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/').strip(), caught.get(i, 'not yet run')))
d = open('DESIGN.md').read()
d = re.sub(r'(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)', lambda x: x.group(1) + '\n'.join(rows) + '\n' + x.group(2), d, flags=re.S)
open('DESIGN.md', 'w').write(d)
