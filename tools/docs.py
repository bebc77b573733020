#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, 'DESIGN.md')
MARK = '<!-- table: tools/docs.py -->\n'
t = open(p).read()
t = t[:t.index(MARK) + len(MARK)]
t += '\n| bug | check | needs |\n|---|---|---|\n'
for f in sorted(glob.glob(os.path.join(R, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    t += '| %s | %s | %s |\n' % (f.split('/')[-2], m['property'],
                                 m['needs'].replace('|', '/'))
open(p, 'w').write(t)
