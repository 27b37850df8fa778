#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from their meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted | property (caught by) | needs |", "|---|---|---|"]
for d in ('seeded', 'planted-templates'):
    for s in sorted(os.listdir(os.path.join(root, d))):
        m = json.load(open(os.path.join(root, d, s, 'meta.json')))
        rows.append(f"| {s}{' (template)' if d != 'seeded' else ''} | {m['property']} | {m['needs']} |")
p = os.path.join(root, 'DESIGN.md')
t = open(p).read()
t = re.sub(r'\| planted \|.*?\n\n', lambda _: '\n'.join(rows) + '\n\n', t, flags=re.S)
open(p, 'w').write(t)
