#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = "deterministic simulation with fault injection: seeded search over simulated runs of the real library"
NOTE = json.load(open(os.path.join(here, 'notes.json')))
NA = NOTE['not_applicable']
checks = []
for p in props:
    i = p['id']
    if i in NOTE['checks']:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH + '; ' + NOTE['checks'][i][0],
            'level': 'exploration',
            'level_note': NOTE['checks'][i][1],
        })
m = {
    'version': 1,
    'setup_cmd': './check.sh build',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': NOTE['notes'],
}
for p in props:
    if p['id'] not in NOTE['checks'] and p['id'] not in NA:
        m['not_applicable'].append({'property': p['id'], 'reason': 'no check is registered for it yet'})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
