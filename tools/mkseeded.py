#!/usr/bin/env python3
"""Appends the table of planted bugs to DESIGN.md, from the results of tools/try.sh in tools/seeded.txt"""
import glob, json, os, re
os.chdir('/verif')
res = {}
for l in open('tools/seeded.txt'):
    w = l.split()
    if len(w) >= 3:
        res[w[0]] = w[2].lower()
out = ['## Planted bugs', '', '| bug | property | what it breaks | needs | check |', '|---|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    id = f.split('/')[1]
    m = json.load(open(f))
    e = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    out.append(f"| {id} | {m['property']} | {e(m['what_it_breaks'])} | {e(m['needs'])} | {m['property']}: {res.get(id, 'not run')} |")
s = open('DESIGN.md').read().split('## Planted bugs')[0].rstrip() + '\n\n' + '\n'.join(out) + '\n'
open('DESIGN.md', 'w').write(s)
