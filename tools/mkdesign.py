#!/usr/bin/env python3
"""DESIGN.md = design_head.md + the rules per property + findings + design_tail.md."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from opsq import core
import opsq.rules.all
out = [open(f'{HERE}/tools/design_head.md').read(), '## Properties and the rules that decide them\n']
man = json.load(open(f'{HERE}/MANIFEST.json'))
tech = {c['property']: c['technique'] for c in man['checks']}
for l in open(f'{HERE}/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i not in tech: continue
    out.append(f"### {i} {p['title']}\n\nMethod: {tech[i]}.\n")
    for r in core.RULES.get(i, []):
        out.append(f"* `{r[0]}`: {r[1]}")
    if i in core.NOTES: out.append('\nLimit: ' + core.NOTES[i])
    out.append('')
kf = json.load(open(f'{HERE}/known_findings.json'))
out.append('## Genuine defects found\n\nRepaired in `/repo` ("fix:" commits):\n')
out += [f'* {x}' for x in kf['fixed']]
out.append('\nRecorded, not repaired (printed as KNOWN-FINDING; the key identifies the construct, any other violation is still reported):\n')
out += [f"* {x['property']} `{x['key']}`: {x['what']}" for x in kf['findings']]
out.append('\n## Not applicable\n')
out += [f"* {x['property']}: {x['reason']}" for x in man['not_applicable']]
out.append('')
t = f'{HERE}/tools/design_tail.md'
if os.path.exists(t): out.append(open(t).read())
open(f'{HERE}/DESIGN.md', 'w').write('\n'.join(out))
