#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open('properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i not in CHECKS:
        na.append(dict(property=i, reason=NA.get(i, 'monitor not built yet'))); continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                       technique=c.get('technique', 'run-time monitor: online oracle over seeded hostile workloads on the real library'),
                       level='exploration', level_note=c.get('level_note', 'No violation in the executions explored (seeded, see the evidence for counts); trusts the reference computation of the monitor and the compiler.')))
json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na, notes='No hooks: the monitors use the public interface only. See DESIGN.md.'), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
