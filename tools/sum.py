#!/usr/bin/env python3
# groups the results of the last run of a check: sum.py C01
import json, sys
e = json.load(open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../evidence/%s.json' % sys.argv[1]))['coverage']
def grp(l, f):
    d = {}
    for x in l: d.setdefault(f(x), []).append(x)
    return d
for n in ('violations', 'unconfirmed_counterexamples'):
    for k, v in grp(e[n], lambda x: (x['kind'], x['message'][:90], x['function'], x['location'])).items():
        print(n[:5], k, len(v)); 
        for x in v[:6]: print('       ', x['case'], '|', x['native'][:110])
for p in e['per_case']:
    if not p['complete'] or p['cuts'] or p['wall_s'] > 20: print('  slow/inc', p['case'], p['incomplete'], p['cuts'], p['wall_s'], 'paths', p['paths'], 'z3', p['z3'])
for n in ('not_explored', 'vacuity_missing', 'encoding_mismatches'):
    for x in e[n][:12]: print(n, x[:230])
