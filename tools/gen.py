#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/proptext.py (texts) and tools/cases.py (which checks exist)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import proptext, cases
V = '/verif'
with open(V + '/properties.jsonl', 'w') as f:
    for p in proptext.P:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in proptext.P:
    if p['id'] in cases.PROPS:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 tools/check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'bounded symbolic execution of the LLVM IR of the real code, decided by Z3 (devsym)', 'level': 'model_checking', 'level_note': p['note']})
na = [{'property': p['id'], 'reason': p['na']} for p in proptext.P if p['id'] not in cases.PROPS]
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'n/a')
# DESIGN.md: the parts between the markers come from the texts and from seeded/*/meta.json
import glob, re
b = []
for p in proptext.P:
    b.append('### %s %s\n%s\n' % (p['id'], p['title'], p['statement']))
    if p['id'] in cases.PROPS:
        cs = cases.PROPS[p['id']]['cases']; hs = sorted({'%s.cpp:%s' % (c['h'], c['e']) for c in cs})
        b.append('*Decided* by `%s` (%d cases; symbolic: %s). Bounds: %s. %s\n' % ('`, `'.join(hs), len(cs), p['quantifier']['text'], p['note'] or 'see evidence', 'Beyond the tests: ' + p['why_tests_cant']))
    else: b.append('*Not applicable*: %s\n' % p['na'])
s = open(V + '/DESIGN.md').read()
def put(s, tag, text):
    a, z = '<!-- %s -->\n' % tag, '<!-- /%s -->' % tag
    if '@@%s@@' % tag in s: return s.replace('@@%s@@' % tag, a + text + z)
    i, j = s.index(a), s.index(z); return s[:i] + a + text + s[j:]
s = put(s, 'PROPS', '\n'.join(b))
rows = ['| change | property | needs | caught |\n|---|---|---|---|\n']
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); n = m.split('/')[-2]; rows.append('| %s | %s | %s | %s |\n' % (n, d['property'], d['needs'], res.get(n, '?')))
s = put(s, 'SEEDS', ''.join(rows)); open(V + '/DESIGN.md', 'w').write(s)
