#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(V + '/tools/caught.txt'):
    i, c = l.strip().split(' ', 1)
    caught[i] = c
rows = ['| change | needs | caught by |', '|----|----|----|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    rows.append(f"| {i} | {m['needs']} | {caught.get(i, 'not run')} |")
d = open(V + '/DESIGN.md').read()
mark = '<!-- seeds -->'
d = d.split(mark)[0].replace('SEEDTABLE\n', '') + mark + '\n' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(d)
