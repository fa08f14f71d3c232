#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cs, na = [], []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        cs.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique='TLA+ specification checked with TLC; %s' % c.get('tech', 'executions of the code under a deterministic scheduler validated against it as traces by TLC'),
                       level=c.get('level', 'model_checking'), level_note=c.get('note', 'The abstract specification is explored exhaustively within the bounds of its TLC configuration; the code is bound to it by validating recorded executions, a seeded sample of schedules, programs and faults.')))
    else:
        na.append(dict(property=i, reason=checks.NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='lib/setup.sh', checks=cs, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(cs), 'checks', len(na), 'not claimed')
