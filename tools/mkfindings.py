#!/usr/bin/env python3
"""Writes known_findings.jsonl (run by hand; never by a check)."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True, capture_output=True).stdout.splitlines()
P = [  # property, text fragment of the fix commit
    ('C12', 'check_vN'), ('C02', 'first adaptive step'), ('C02', 'growth exceeded'), ('C04', 'ended exactly at the end'),
    ('C04', 'growing the result arrays'), ('C08', 'difference_to_ref'), ('C08', 'ignored invert'), ('C10', 'dead time extrapolated'),
    ('C08', 'pure I controllers'), ('C12', 'p_gasb1_ff'), ('C06', 'actuator time series only'), ('C12', 'invalid values (nan) in a part'),
    ('C13', 'kept the last actuator values'), ('C13', 'kept its integral term'), ('C13', 'resetting a CHP'), ('C17', 'running at the start'),
    ('C02', 'constant timesteps'), ('C13', 'rerun with disk saving'), ('C05', 'complevel=0'), ('C16', 'meters could not be added'),
    ('C16', 'volume flow meters'),
]
EXTRA = json.load(open(os.path.join(R, 'tools', 'known.json')))
with open(os.path.join(R, 'known_findings.jsonl'), 'w') as f:
    for l in reversed(log):
        h, s = l.split(' ', 1)
        if not s.startswith('fix:'):
            continue
        pr = [p for p, t in P + [tuple(x) for x in EXTRA['fixed']] if t in s]
        assert len(pr) == 1, (s, pr)
        f.write(json.dumps(dict(status='fixed', property=pr[0], commit=h, what=s[5:],
                                entry='fixed: property=%s %s %s' % (pr[0], h, s[5:]))) + '\n')
    for k in EXTRA['known']:
        f.write(json.dumps(dict(k, status='known')) + '\n')
