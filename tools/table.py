#!/usr/bin/env python3
"""Development tool: writes the table of planted bugs into DESIGN.md.  python3 tools/table.py LOG  (LOG: output of tools/seeded.py)"""
import json
import os
import re
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for name in sys.argv[1:]:
    for line in open(name):
        m = re.match(r'(\S+)\s+(\S+) (CAUGHT|MISSED)(?:.*cases=(\d+))?', line)
        if m:
            log[m.group(1)] = '{} after {} cases'.format(m.group(2), m.group(4)) if m.group(3) == 'CAUGHT' else 'missed'
rows = ['| bug | breaks | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(TOP, 'seeded'))):
    m = json.load(open(os.path.join(TOP, 'seeded', i, 'meta.json')))
    rows.append('| {} | {} | {} | {} |'.format(i, m['what_it_breaks'].rstrip('.').replace('|', '\\|'), m['needs'].rstrip('.').replace('|', '\\|'), log.get(i, '?')))
p = os.path.join(TOP, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- table -->.*<!-- end -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
