#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md from design_head.md, the checks, the evidence and seeded/."""
import importlib, json, os, sys, glob, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
known = open(os.path.join(V, 'known_findings.txt')).read().splitlines()
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    m = importlib.import_module('checks.' + p['id'].lower())
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(textwrap.fill('How: ' + m.EXPLANATION, 140) + '\n')
    q = list(m.scenarios('quick'))
    out.append(textwrap.fill(f"Instances: {len([s for s in q if not s.thorough])} quick, {len(list(m.scenarios('thorough')))} thorough. Rule: "
                             f"{getattr(m, 'RULE', None) or '; '.join(sorted({s.rule for s in q if s.rule}))}.", 140) + '\n')
    a = getattr(m, 'ASSUMPTIONS', None)
    if a:
        out.append('Assumptions: ' + '; '.join(a) + '.\n')
    out.append(textwrap.fill('Beyond tests: ' + p['why_tests_cant'], 140) + '\n')
    n = len([k for k in known if k.startswith(f"fixed: property={p['id']}")])
    if n:
        out.append(f'Genuine defects repaired: {n} (known_findings.txt).\n')
out.append('## Planted bugs\n')
out.append('Every one is caught by the check of its property.\n' if not os.path.exists(os.path.join(V, 'tools', 'missed.txt')) else open(os.path.join(V, 'tools', 'missed.txt')).read())
out.append('| bug | property | needs | breaks |\n|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
