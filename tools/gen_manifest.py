#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand; not used by any check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
STATE = {'P03', 'P10', 'P11', 'P13', 'P20', 'P21', 'P25'}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/harness/%s.cc' % (V, i.lower())) or os.path.exists('%s/harness/%s.rb' % (V, i.lower())):
        t = ('stateless model checking of the real code: exhaustive enumeration of all operation histories up to a depth, compared with a reference model after each'
             if i in STATE else
             'bounded exhaustive (explicit-state) exploration of the real code: every container/input/operation combination within bounds is executed and compared with a reference model')
        if i == 'P05':
            t = 'bounded exhaustive fault enumeration on the real code: every truncation point, byte corruption and buffer size within bounds is executed'
        if i == 'P27':
            t = 'exhaustive fault injection into the real code: every allocation of every operation on every value of a bounded universe fails in turn'
        if i == 'P28':
            t = 'stateless exploration of the real code: all pairs of operations in two unsynchronised threads, in both orders, with vector-clock (happens-before) race detection so that each explored execution decides all its interleavings'
        checks.append({
            'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'model_checking',
            'level_note': 'No execution within the stated bounds (see coverage.rule in the evidence and DESIGN.md) violates the property; executed on code built from /repo with %s. Assumes the reference model in /verif/harness states the intent, and says nothing beyond the bounds.' % ('ThreadSanitizer' if i == 'P28' else 'ASan+UBSan')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build ' + ' '.join(c['property'] for c in checks), 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check uses the public interfaces. See DESIGN.md; known_findings.txt lists the defects repaired with fix: commits.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
