#!/usr/bin/env python3
# Writes MANIFEST.json from checks.json and properties.jsonl.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + '/checks.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/na.json'))
m = {'version': 1, 'setup_cmd': 'python3 build.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in conf['checks']:
        c = conf['checks'][i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'deterministic simulation with fault injection (seeded schedule and fault search)', 'level': 'exploration',
            'level_note': c.get('note') or 'Seeded search over schedules, timings and faults in virtual time; finds violations and replays them, does not prove absence.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m['notes'] = 'No hooks in /repo: every seam is at the pthread / libc / compiler-instrumentation boundary (see DESIGN.md).'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
