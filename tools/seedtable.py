#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d.get('caught', d['property'])))
f = root + '/DESIGN.md'
s = open(f).read()
head = '| bug | property | what it needs | caught by |\n|---|---|---|---|\n'
i = s.index(head) + len(head)
j = re.search(r'\n(?!\|)', s[i:])
s = s[:i] + '\n'.join(rows) + (s[i + j.start():] if j else '\n')
open(f, 'w').write(s)
