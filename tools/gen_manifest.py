#!/usr/bin/env python3
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
CLAIMED = []
NA_REASON = ('Pure function of the arguments of one call: no schedule, clock, I/O, fault or multi-step history enters, '
             'so a seeded search over schedules and faults has nothing to decide. ')
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
ids = [c['property'] for c in CLAIMED]
na = []
for p in props:
    if p['id'] not in ids:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check under construction')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=CLAIMED, not_applicable=na, notes=NOTES),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
