#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design/*.md, the harnesses' BOUNDS, known_findings.json and the planted changes."""
import ast, glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS


def part(name):
    return open(os.path.join(here, 'design', name)).read()


def consts(i):
    d = {}
    for n in ast.parse(open(os.path.join(root, 'harness', 'h_%s.py' % i.lower())).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'OUTSIDE'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


out = [part('1_head.md').replace('__N__', str(len(PROPS))), part('2_props.md'), '\n### Bounds\n']
for p in PROPS:
    c = consts(p['id'])
    out.append('- **%s** (%s). Why tests cannot: %s Within: %s. Outside: %s.\n' % (p['id'], p['title'], p['why'], c['BOUNDS'], c['OUTSIDE']))
out.append('\nNo property of the list is beyond this family: `not_applicable` is empty.\n\n')
fixed = json.load(open(os.path.join(root, 'known_findings.json')))['fixed']
out.append(part('4_defects.md').replace('__FIXED__', '\n'.join('- ' + f[len('fixed: property='):] for f in fixed)))
out.append('\n' + part('5_plants.md'))
plants = json.load(open(os.path.join(here, 'design', 'plants.json')))
out.append('\n| change | property | needs | outcome |\n|---|---|---|---|\n')
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    out.append('| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '\\|'), plants.get(i, 'caught')))
open(os.path.join(root, 'DESIGN.md'), 'w').write(''.join(out))
