#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers) from seeded/*/meta.json and tools/seed_caught.txt."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(root + '/tools/seed_caught.txt'):
    k, _, v = l.strip().partition(' ')
    if k: caught[k] = v
rows = ['| planted bug | property | breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    p = f'{root}/seeded/{d}/meta.json'
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {caught.get(d, m['property'])} |")
s = open(root + '/DESIGN.md').read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('@@TABLE@@', t) if '@@TABLE@@' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
