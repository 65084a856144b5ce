"""Obligations, evidence and exit status of one check."""
import json, os, sys, time, traceback
from .facts import VERIF

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Res:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obl = 0
        self.bad = []          # (key, where, msg)
        self.und = []          # (key, why)
        self.keys = {}
        self.analysed = {'functions': set(), 'paths': 0, 'call_sites': 0, 'branches': 0, 'units': set()}
        self.rules = []
        self.samples = []
        self.notes = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, key, n=1):
        self.obl += n
        self.keys[key] = self.keys.get(key, 0) + n

    def fail(self, key, where, msg, detail=None):
        self.obl += 1
        self.keys[key] = self.keys.get(key, 0) + 1
        if not any(b[0] == key and b[1] == where and b[2] == msg for b in self.bad):
            self.bad.append((key, where, msg, detail))

    def check(self, cond, key, where, msg, detail=None):
        if cond:
            self.ok(key)
        else:
            self.fail(key, where, msg, detail)
        return cond

    def undecided(self, key, why):
        if (key, why) not in self.und:
            self.und.append((key, why))

    def stats(self, I):
        self.analysed['functions'] |= I.stats['functions']
        self.analysed['paths'] += I.stats['paths']
        self.analysed['call_sites'] += I.stats['calls']
        self.analysed['branches'] += I.stats['branches']

    def unit(self, P):
        self.analysed['units'].add(P.source)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def known(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in d.get('findings', []) if k['property'] == prop]


def finish(res, tier, seed, error=None):
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kf = known(res.prop)
    new, old = [], []
    for b in res.bad:
        m = next((k for k in kf if k['key'] == b[0] and (not k.get('match') or k['match'] in b[2])), None)
        (old if m else new).append((b, m))
    a = res.analysed
    out = {
        'property': res.prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current sources; rules: ' + ' | '.join(res.rules),
            'obligations': res.obl,
            'obligations_by_rule': res.keys,
            'functions_analysed': len(a['functions']),
            'function_list': sorted(a['functions'])[:200],
            'abstract_paths': a['paths'], 'call_sites_evaluated': a['call_sites'],
            'branches_forked': a['branches'], 'translation_units': sorted(a['units']),
            'undecided': [{'rule': k, 'why': w} for k, w in res.und],
            'samples': res.samples or ['(none)'],
        },
        'wall_s': round(time.time() - res.t0, 3),
        'assumptions': res.notes,
        'violations': [{'rule': b[0], 'construct': b[1], 'message': b[2], 'detail': b[3]} for b, _ in new],
    }
    if error:
        out['coverage']['error'] = error
    path = os.path.join(ev, res.prop + '.json')
    json.dump(out, open(path, 'w'), indent=1, default=str)
    for b, m in old:
        print('KNOWN-FINDING: property=%s %s' % (res.prop, m.get('what', b[2])))
    for k, w in res.und:
        print('UNDECIDED property=%s rule=%s: %s' % (res.prop, k, w))
    if new:
        rp = os.path.join(ev, 'replay-%s.json' % res.prop)
        json.dump(out['violations'], open(rp, 'w'), indent=1, default=str)
        for b, _ in new:
            print('  [%s] %s: %s' % (b[0], b[1], b[2]))
        print('VIOLATION property=%s replay=%s' % (res.prop, rp))
        return 1
    if error:
        print('ERROR property=%s %s' % (res.prop, error))
        return 2
    if res.obl == 0 and not res.und:
        print('ERROR property=%s no obligation was found' % res.prop)
        return 2
    print('OK property=%s obligations=%d functions=%d paths=%d undecided=%d (%.1f s)' % (
        res.prop, res.obl, len(a['functions']), a['paths'], len(res.und), out['wall_s']))
    return 0
