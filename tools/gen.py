#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.py (P: claimed, N: not applicable)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props, checks, na = [], [], []
for m in sorted(os.listdir(os.path.join(V, 'meta'))):
    if not m.endswith('.py') or m == '__init__.py':
        continue
    M = importlib.import_module('meta.' + m[:-3])
    for p in getattr(M, 'P', []) + getattr(M, 'N', []):
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], 'more than three sentences')
        props.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                      'quantifier': {'over': p['over'], 'text': p['qt']}, 'why_tests_cant': p['why'],
                      'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                  'hook_needed': None}})
        for f in p['files']:
            assert os.path.exists('/repo/' + f), f
        if 'reason' in p:
            na.append({'property': p['id'], 'reason': p['reason']})
        else:
            cmd = 'python3 check.py ' + p['id']
            checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd,
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'static analysis: ' + p['tech'],
                           'level': 'other', 'level_note': p['note']})
ids = [p['id'] for p in props]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(props, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1,
           'setup_cmd': 'python3 -c "from sa import facts; print(facts.extractor())"',
           'checks': sorted(checks, key=lambda c: c['property']),
           'not_applicable': sorted(na, key=lambda c: c['property']),
           'notes': 'No hooks are used; the checks read the sources of /repo through a clang-based fact extractor.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
