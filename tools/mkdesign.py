#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/'), m.get('caught', m['property'])))
p = root + '/DESIGN.md'
t = open(p).read()
t = t.replace('@@TABLE@@', '\n'.join(rows))
t = re.sub(r'(\| seed \| needs \| caught by \|\n\|---\|---\|---\|\n)(\|.*\n)*', lambda m: m.group(1) + '\n'.join(rows) + '\n', t)
open(p, 'w').write(t)
