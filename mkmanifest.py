#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, checks
NOTES = json.load(open('/verif/levelnotes.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 check.py --list', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        f, level, tech = checks.CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=tech, level=level, level_note=NOTES.get(i, NOTES['default'])))
    else:
        m['not_applicable'].append(dict(property=i, reason='the check for this property is not finished yet'))
if not m['not_applicable']: del m['not_applicable']
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
