#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'harness'))
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
NA = {}
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    mods = sorted({m for v in c.get('mc', {}).values() for m, _ in v} | {g[1] for g in c.get('gen', ())} | {c['trace']})
    checks.append(dict(
        property=p,
        quick_cmd='python3 /verif/harness/run.py %s --tier quick' % p,
        thorough_cmd='python3 /verif/harness/run.py %s --tier thorough' % p,
        technique='TLA+ specification checked with TLC; behaviours generated by TLC are replayed into the real code '
                  'and the recorded traces are validated by TLC against the specification (modules %s)' % ', '.join(mods),
        level='model_checking',
        level_note=c.get('note', 'The design model is explored exhaustively within the bounds of its configuration; '
                                 'the code is bound to it by replaying generated behaviours and judging the recorded traces, '
                                 'so for the code itself the verdict covers the generated behaviours only.')))
m = dict(version=1, setup_cmd='python3 /verif/tools/setup.py',
         checks=checks, not_applicable=[dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in CHECKS],
         notes='All checks import multisim from /repo; no hooks in /repo are needed (recording uses subclasses of the part and controller classes).')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
