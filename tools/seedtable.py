#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    cell = lambda s: ' '.join(s.split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), cell(m['what_it_breaks']), cell(m['needs']), m.get('caught_by', m['property'])))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- table: tools/seedtable.py -->\n).*?(<!-- end -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s, flags=re.S)
open(p, 'w').write(s)
