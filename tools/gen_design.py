#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md: fixed defects and the table of planted bugs.
Detection results come from tools/results.json, which tools/catch.sh updates."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f'{root}/DESIGN.md').read()
k = json.load(open(f'{root}/known_findings.json'))
d = '\n'.join('* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 (`\2`): ', x) for x in k['fixed'])
rs = json.load(open(f'{root}/tools/results.json'))
rows = ['| planted bug | needs | result |', '|---|---|---|']
for i in sorted(os.listdir(f'{root}/seeded')):
    m = f'{root}/seeded/{i}/meta.json'
    if os.path.exists(m):
        rows.append(f"| {i} | {json.load(open(m))['needs']} | {rs.get(i, 'not run')} |")
for tag, body in (('DEFECTS', d), ('SEEDED', '\n'.join(rows))):
    t = re.sub(f'<!-- {tag} -->.*?<!-- /{tag} -->', lambda _: f'<!-- {tag} -->\n{body}\n<!-- /{tag} -->', t, flags=re.S)
open(f'{root}/DESIGN.md', 'w').write(t)
