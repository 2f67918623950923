#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from opsq import core
import opsq.rules.all

NA = {
    'C90': 'liveness over unbounded fair schedules: no static argument in reach bounds when a consumer connects or a chunk succeeds; the safety parts (wake-ups, expiry, retry) are C16, C18 and C20',
    'C91': 'a statement about probabilities over the stored ids and the random source; only the shape of the random query (C17) is decidable from the source',
    'C92': 'run time and memory depend on SQLite\'s query planner and table sizes, which the source does not fix',
    'C93': 'uniqueness depends on the clock and on the counter inside the external snowflake generator, which is not part of the repository',
}
TECH = {}
DEFAULT = 'path-sensitive dataflow/typestate analysis over the type-checked program (rustc HIR export) with SQL effect analysis'
NOTE = ('Static: every rule instance found in the current source is decided on all paths through the inlined functions (loops as zero or one generic iteration). '
        'Trusts rustc\'s name and type resolution and the documented behaviour of the external crates and SQLite; values are compared symbolically, never executed. '
        'A construct the analysis cannot follow is listed as undecided in the evidence file, not reported.')

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if i not in core.RULES: na.append({'property': i, 'reason': 'its check is not built yet'}); continue
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                   'technique': core.TECH.get(i, DEFAULT), 'level': 'other', 'level_note': NOTE + (' ' + core.NOTES[i] if i in core.NOTES else '')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m opsq.facts', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks are needed in /repo; defects repaired there and known findings are in known_findings.json.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
