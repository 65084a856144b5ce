#!/usr/bin/env python3
"""Writes DESIGN.md from doc/*.md, meta/*.py, the rules in evidence/*.json and known_findings.json."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
rd = lambda n: open(os.path.join(V, 'doc', n)).read().rstrip() + '\n'
P = []
for m in sorted(os.listdir(os.path.join(V, 'meta'))):
    if m.endswith('.py') and m != '__init__.py':
        M = importlib.import_module('meta.' + m[:-3])
        P += getattr(M, 'P', []) + getattr(M, 'N', [])
out = [rd('head.md'), '\n## How each property is decided\n']
seeds = {}
S = os.path.join(V, 'seeded')
for s in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    j = json.load(open(os.path.join(S, s, 'meta.json')))
    seeds.setdefault(j['property'], []).append((s, j))
for p in sorted(P, key=lambda p: p['id']):
    out.append('\n### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    if 'reason' in p:
        out.append('\n*Not applicable*: ' + p['reason'] + '\n')
        continue
    ev = os.path.join(V, 'evidence', p['id'] + '.json')
    rules, cov = [], ''
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e['coverage']
        m = re.search(r'rules: (.*?)(?:\. (?=[A-Z0-9])|\.?$)', c.get('explanation', ''), re.S)
        rules = c.get('rules') or (m.group(1).split('; ') if m else [])
        cov = '%.0f s' % e['wall_s']
    out.append('\n* Anchors: ' + '; '.join('%s (%s)' % (b, a) for a, b in p['mech']) + '. Domain: ' + p['qt'] + '.\n')
    out.append('* Technique: ' + p['tech'] + (' (about %s).' % cov if cov else '.') + '\n')
    if rules:
        out.append('* Rules: ' + '; '.join(rules) + '.\n')
    out.append('* Beyond tests: ' + p['why'] + '\n')
    if p.get('note'):
        out.append('* Limits: ' + p['note'] + '\n')
    for s, j in seeds.get(p['id'], []):
        out.append('* Planted and caught: `seeded/%s` - %s\n' % (s, j['what_it_breaks']))
K = json.load(open(os.path.join(V, 'known_findings.json')))
out.append('\n## Genuine defects\n\nRecorded, not repaired:\n\n' + ''.join('* %s: %s\n' % (f['property'], f['what']) for f in K['findings']))
out.append('\nRepaired (one "fix:" commit each):\n\n' + ''.join('* %s\n' % re.sub('^fixed: ', '', f) for f in K['fixed']))
out.append('\n' + rd('tail.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
