#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the
results file given (lines '<seed id> <check id> <exit> <caught|missed> <seconds>')."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
caught = {}
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        f = line.split()
        if len(f) >= 4:
            caught.setdefault(f[0], []).append((f[1], f[3]))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    c = ', '.join(x for x, r in caught.get(d, []) if r == 'caught') or ('none' if caught else '?')
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c} |")
p = root + '/DESIGN.md'
s = open(p).read()
mark = '<!-- planted bugs -->'
s = s.split(mark)[0].rstrip() + f"\n\n{mark}\n| change | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n" + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
