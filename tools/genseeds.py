#!/usr/bin/env python3
"""Rewrites the last section of DESIGN.md: the planted bugs and the check that catches each."""
import json, glob, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = []
for f in glob.glob('seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], f.split('/')[1], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
rows.sort()
d = open('DESIGN.md').read()
head = '## 7. Planted bugs, and the checks that catch them'
d = d[:d.index(head)] if head in d else d.replace('SEEDSECTION\n', '\n')
d += head + '''

Each is in `seeded/<id>/`, was written from the property's text and the code,
and is caught by the check of its own property (the first column), with
`./run.sh <property>`. Others may catch it too.

| check | planted bug | what it breaks | what it needs |
|---|---|---|---|
'''
d += ''.join('| %s | `%s` | %s | %s |\n' % r for r in rows)
open('DESIGN.md', 'w').write(d)
print(len(rows), 'planted bugs')
