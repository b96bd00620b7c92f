#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(HERE + '/DESIGN.md').read()
head = '| planted bug | check | what it breaks |\n| --- | --- | --- |\n'
s = s[:s.index(head)] + head
ids = sorted(os.listdir(HERE + '/seeded'))
for d in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    s += '| %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '))
open(HERE + '/DESIGN.md', 'w').write(s)
print(len(ids), 'planted bugs')
