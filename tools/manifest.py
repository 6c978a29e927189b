#!/usr/bin/env python3
"""Writes MANIFEST.json: every property in properties.jsonl is claimed, but for those listed here."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(here, 'tools', 'unclaimed.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'bash check.sh %s quick' % i,
        'thorough_cmd': 'bash check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, faults and crashes of the real code, judged against an executable reference model',
        'level': 'exploration',
        'level_note': 'Samples executions (seeded, exactly repeatable); a pass means no explored run violated the property. Trusts the stand-ins for OS, transport, clock and synchronization, and the reference model.',
    })
json.dump({
    'version': 1,
    'setup_cmd': 'bash check.sh -setup',
    'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the checks build /repo with a generated build overlay that replaces imports of os, sync, time, net, grpc etc. by simulated ones', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. check.sh -replay FILE reproduces a violation.',
}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
