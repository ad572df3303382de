#!/usr/bin/env python3-vt
"""Assembles DESIGN.md from its parts, the property list and the planted bugs (run by hand; the result is committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from design_props import D
man = json.load(open(V + '/MANIFEST.json')); props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cl = {c['property'] for c in man['checks']}; na = {x['property']: x['reason'] for x in man['not_applicable']}
o = open(V + '/tools/design_head.md').read() + '\n'
for p in props:
    if p['id'] in cl:
        code, how, bound = D[p['id']]
        o += f"### {p['id']} {p['title']}\n* **Code under contract:** {code}\n* **Decided by:** {how}\n* **Bounds:** {bound}\n* **Why tests cannot:** {p['why_tests_cant']}\n\n"
o += '## 3. Properties this family cannot decide here (not_applicable)\n\n'
for p in props:
    if p['id'] not in cl: o += f"* **{p['id']} {p['title']}** – {na[p['id']]}\n"
o += '\n## 4. Planted bugs and the checks that catch them\nEach was written from the statement and the code, confirmed (compiles, tests pass, demo fails only with it), and is caught by the check of its property.\n\n| bug | check | needs | breaks |\n|---|---|---|---|\n'
rs = []
for s in os.listdir(V + '/seeded'):
    m = json.load(open(f'{V}/seeded/{s}/meta.json')); rs.append((m['property'], s, m['needs'], m['what_it_breaks'], m.get('missed')))
for p, s, n, b, miss in sorted(rs, key=lambda r: r[:2]): o += f"| {s} | {p}{' (not caught)' if miss else ''} | {n} | {b} |\n"
fx = [l[7:].strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed: ')]
o += '\n' + open(V + '/tools/design_tail.md').read().replace('@FIXES@', '\n'.join('* ' + l.replace('property=', '', 1) for l in fx))
open(V + '/DESIGN.md', 'w').write(o)
