#!/usr/bin/env python3
"""writes MANIFEST.json from lib/checks.INFO and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
NA = {
    'C34': 'running time as a function of the input size is a runtime quantity: bounding the backtracking of the grammar engine and the cost of its internals needs a cost model of library code no sound static argument in reach provides (termination itself is C02)',
    'C35': 'the conversion is done by core\'s f64::from_str, whose rounding is library code outside this repository; that it is the function applied to the literal is part of C08',
    'C36': 'the reference implementation is not present and its behaviour is not in this source tree',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.INFO:
        inf = checks.INFO[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': inf['technique'],
            'level': 'other',
            'level_note': inf['how'] + ' Rule: ' + inf['rule'] + '.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no static check has been built for it yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
