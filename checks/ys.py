"""Family Y: the Yaml-Serializable library, analysed through a witness translation unit
that instantiates every template and macro a user can reach."""
import os
from sa import facts, yamlnode, prog as prog_mod
from sa.interp import (Interp, Policy, Undecided, C, TRUE, FALSE, NULL, isc, under, tree, strip_targs, root, mentions)

D = facts.REPO + '/legacy/Fierro_V0/src/Yaml-Serializable'
WIT = facts.VERIF + '/witness/yaml_serializable.cpp'
CE = 'Yaml::ConfigurationException'
NODE, OBJ = ('o', 'P1'), ('o', 'P0')


def prog():
    return facts.facts(WIT, ['-std=c++17', '-I' + D + '/include'], [facts.REPO, facts.VERIF + '/witness'])


class Pol(Policy):
    max_states = 6000
    max_rec = 2

    def __init__(self, throws=(), only=None, opaque=(), assume=(), keepall=False):
        self.throws, self.only, self.opaque = dict(throws), only, opaque
        self.assume = dict(assume)
        self.keepall = keepall

    def model(self, I, name):
        return yamlnode.model(I, name)

    def may_throw(self, I, name, e):
        return [x for k, v in self.throws.items() if name == k or name.endswith('::' + k) for x in v]

    def keep(self, ev, st):
        if self.keepall:
            return ev
        if ev[0] == 'ctor' and ev[1].startswith('std::'):
            return None
        if ev[0] in ('child', 'out'):
            return None
        return ev

    def choose(self, I, st, c):
        if c in self.assume:
            return self.assume[c]
        if self.only is not None and c[0] == 'op' and c[1] == '==' and c[2][0] == 'kind' and c[3] == C('None'):
            k = c[2][1]
            if k[0] == 'init' and k[1][0] == 'y' and k[1][1] == NODE and k[1][2] != C(self.only):
                return True
        return None


HOOKS = {'derive': [CE], 'validate': [CE]}

# what each witness structure declares: leaves (document path -> member path), base, required keys, hook classes (base first)
L_ = lambda *p: p
SPEC = {
    'WInner': dict(own=['leaf', 'text']),
    'WPlain': dict(own=['i', 'd', 'b', 's', 'c', ('in', 'leaf'), ('in', 'text')]),
    'WContainers': dict(own=['v', 'vs', 'st', 'o', 'sp', 'up', 'fixed', 'arr'], slice=True),
    'WEmpty': dict(own=[]),
    'WHooks': dict(own=['req', 'opt'], req=['req'], hooks=['WHooks']),
    'WOwnHooks': dict(base='WHooks', own=['own'], req=['own'], hooks=['WOwnHooks']),
    'WInheritedHooks': dict(base='WHooks', own=['own2']),
    'WNoHookBase': dict(own=['nb']),
    'WHookOnlyDerived': dict(base='WNoHookBase', own=['hd'], hooks=['WHookOnlyDerived']),
    'WBaseOnly': dict(base='WHooks', own=[]),
    'WL2': dict(base='WOwnHooks', own=['l2'], req=['l2'], hooks=['WL2']),
    'WVirtBase': dict(own=['vb']),
    'WVirt': dict(base='WVirtBase', own=['vd']),
    'WLeaf': dict(own=['req', 'leaf'], req=['req'], hooks=['WLeaf']),
    'WBase': dict(own=['type', 'common'], req=['type']),
    'WDerivedA': dict(base='WBase', own=['a']),
    'WDerivedB': dict(base='WBase', own=['b'], req=['b']),
    'WDerivedC': dict(base='WBase', own=['c'], hooks=['WDerivedC']),
    'WHolder': dict(own=['sp', 'up', 'many'], slice=True),
}
for n in ('WVecInt', 'WVecLeaf', 'WVecVec', 'WSetStr', 'WOptInt', 'WOptLeaf', 'WSp', 'WUp', 'WSpPoly', 'WUpPoly', 'WVecPoly', 'WSpH', 'WUpH',
          'WFix', 'WArr', 'WFixLeaf', 'WEnum', 'WBool'):
    SPEC[n] = dict(own=['x'], slice=False)
HOOKCLASSES = ('WHooks', 'WOwnHooks', 'WHookOnlyDerived', 'WL2', 'WLeaf', 'WDerivedC', 'WHBase', 'WHOwn')


def chain(T):
    out = []
    while T:
        out.append(T)
        T = SPEC[T].get('base')
    return out[::-1]


def leaves(T):
    out = []
    for c in chain(T):
        out += [(x,) if isinstance(x, str) else x for x in SPEC[c]['own']]
    return out


def required(T):
    return [r for c in chain(T) for r in SPEC[c].get('req', ())]


def hookclasses(T):
    return [h for c in chain(T) for h in SPEC[c].get('hooks', ())]


def fn(P, name, full):
    r = [f for f in P.named(name) if f['full'] == full]
    if not r:
        raise Undecided('%s is not instantiated (looked for %s)' % (name, full))
    return r[0]


_runs = {}


def deser(res, T, raw, only=None, hooks_throw=False, root_kind=None):
    """outcomes of Yaml::deserialize<T>(obj, node, raw)"""
    P = prog()
    key = (T, raw, only, hooks_throw)
    if key not in _runs:
        f = fn(P, 'Yaml::deserialize', 'Yaml::deserialize<%s>' % T)
        I = Interp(P, Pol(throws=HOOKS if hooks_throw else (), only=only))
        outs = I.run(f, args={2: (None, C(raw))})
        _runs[key] = (outs, I, f)
    outs, I, f = _runs[key]
    res.unit(P)
    res.stats(I)
    return [o for o in outs if o[1] != 'exit'], f


def seri(res, T):
    P = prog()
    key = ('ser', T)
    if key not in _runs:
        f = fn(P, 'Yaml::serialize', 'Yaml::serialize<%s>' % T)
        I = Interp(P, Pol())
        _runs[key] = (I.run(f), I, f)
    outs, I, f = _runs[key]
    res.unit(P)
    res.stats(I)
    return outs, f


def docloc(path):
    L = NODE
    for p in path:
        L = ('y', L, C(p))
    return L


def isnone(st, L):
    return st.facts.get(('op', '==', ('kind', ('init', L)), C('None')))


def presence(st, path):
    """'absent' when some prefix is known to be missing, 'present' when all are known to be there"""
    known = []
    for i in range(1, len(path) + 1):
        v = isnone(st, docloc(path[:i]))
        if v is True:
            return 'absent'
        known.append(v)
    return 'present' if all(k is False for k in known) else 'unknown'


def objloc(path):
    L = OBJ
    for p in path:
        L = ('f', L, p)
    return L


def touches(st, path):
    """events that change obj.<path>"""
    L = objloc(path)
    return [e for e in st.tr if e[0] == 'write' and (under(L, e[1]) or (under(e[1], L) and e[1] != OBJ))]


def dockeys(V):
    """first-level document keys the value was computed from"""
    ks = set()
    for t in tree(V):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'y' and t[1] == NODE:
            ks.add(t[2])
    return ks


def objfields(V):
    ks = set()
    for t in tree(V):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[1] == OBJ:
            ks.add(t[2])
    return ks


def excname(V):
    return V[0] if V else '?'


def excfield(I_, exc):
    return I_.part(exc[1], 'f', '_field_name', None)


def facts_text(st, n=8):
    out = []
    for c, v in list(st.facts.items()):
        if c[0] == 'eq':
            continue
        out.append('%s=%s' % (show(c), v))
    return ', '.join(x[:90] for x in out[:n])


def show(t):
    """readable form of a term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'o':
        return {'P0': 'obj', 'P1': 'node'}.get(t[1], t[1])
    if k == 'y':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'f':
        return '%s.%s' % (show(t[1]), t[2])
    if k == 'i':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'init':
        return show(t[1])
    if k == 'op':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]) if t[3] else '')
    if k == 'kind':
        return 'kind(%s)' % show(t[1])
    if k == 'not':
        return '!' + show(t[1])
    if k == 'v':
        return t[3]
    if k == 'parm':
        return 'arg%d' % t[1]
    if k == 'cat':
        return '+'.join(show(x) for x in t[1])
    if k in ('uninit', 'top', 'rec', 'agg', 'lam'):
        return '<%s>' % k
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:] if isinstance(x, (tuple, str))))[:200]


STRUCTS = list(SPEC)


# ---- Y01 / Y02: key <-> member ---------------------------------------------------------
def fields_of(T):
    return sorted({l[0] for l in leaves(T)})


def each_run(res, T, raws=(True, False)):
    sl = SPEC[T].get('slice')
    for raw in raws:
        for only in ([None] if not sl else fields_of(T)):
            outs, f = deser(res, T, raw, only)
            yield raw, only, outs, f


def y01(res, tier):
    res.rule('load: on every path through deserialize<T> that returns, each declared member whose key is present is assigned from that key and no other; '
             'no other member is assigned')
    res.rule('save: on every path through serialize<T>, each declared member is written under its own key, from that member only')
    P = prog()
    for T in STRUCTS:
        ls = leaves(T)
        loaded, saved = set(), set()
        for raw, only, outs, f in each_run(res, T, (False,) if tier == 'quick' else (True, False)):
            for st, k, v in outs:
                writes = [e for e in st.tr if e[0] == 'write' and under(OBJ, e[1])]
                for e in writes:
                    ok = any(under(objloc(l), e[1]) or under(e[1], objloc(l)) for l in ls) or e[1] == OBJ
                    res.check(ok, 'load-only-declared', e[3], '%s: loading writes %s, which is not a declared member' % (T, show(e[1])))
                    top = next((x for x in tree(e[1]) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'f' and x[1] == OBJ), None)
                    if top:
                        ks = dockeys(e[2])
                        res.check(ks <= {C(top[2])}, 'load-key', e[3], '%s: member %s is loaded from key %s' % (T, top[2], ', '.join(map(show, ks))))
                if k != 'n':
                    continue
                for l in ls:
                    if only and l[0] != only or presence(st, l) != 'present':
                        continue
                    t = touches(st, l)
                    val = any(C(l[0]) in dockeys(e[2]) or is_alloc_or_container(e[2]) for e in t)
                    if val:
                        loaded.add((raw, l))
                    if not is_list(T, l):
                        res.check(bool(t) and val, 'load-present', P.where(f), '%s: key %s is present but member %s is not loaded from it [%s]' % (
                            T, '.'.join(l), '.'.join(l), facts_text(st)))
            for l in ls:
                if only is None or l[0] == only:
                    res.check((raw, l) in loaded, 'load-present', P.where(f), '%s: no path loads member %s from its key' % (T, '.'.join(l)))
        outs, f = seri(res, T)
        for st, k, v in outs:
            if k != 'n':
                continue
            wr = [e for e in st.tr if e[0] in ('write', 'pushback') and under(NODE, e[1]) and e[1] != NODE]
            for e in wr:
                key = first_key(e[1])
                ok = any(C(l[0]) == key for l in ls)
                res.check(ok, 'save-only-declared', e[3], '%s: saving writes undeclared key %s' % (T, show(key)))
                if e[0] == 'write':
                    fs = objfields(e[2])
                    res.check(fs <= {key[1] if isc(key) else None}, 'save-key', e[3], '%s: key %s is saved from member %s' % (T, show(key), ', '.join(sorted(fs))))
            for l in ls:
                L = docloc(l)
                w = [e for e in wr if under(L, e[1])]
                if w:
                    saved.add(l)
                elif is_enum(T, l):
                    continue        # an enumerator outside the declared range has no name to save
                res.check(bool(w), 'save-present', P.where(f), '%s: member %s is not saved [%s]' % (T, '.'.join(l), facts_text(st)))
                vals = [e[2] for e in w if e[0] == 'write' and e[2] not in (('none',), ('seq', 0))]
                F = objloc((l[0],))
                if vals and all(x[0] == 'scalar' and isc(x[1]) for x in vals) and not any(mentions(c, F) for c in st.facts) \
                        and not any(e[0] in ('deref', 'call') and mentions(e, F) for e in st.tr):
                    res.fail('save-value', P.where(f), '%s: what is saved under %s is the constant %s' % (T, '.'.join(l), [show(x) for x in vals]))
        for l in ls:
            res.check(l in saved, 'save-present', P.where(f), '%s: no path saves member %s' % (T, '.'.join(l)))
        res.sample('%s: members %s' % (T, ', '.join('.'.join(l) for l in ls)))


def is_alloc_or_container(v):
    return v[0] in ('&', 'agg', 'top', 'pushed', 'some', 'uninit')


LISTS = {'WContainers': ('v', 'vs', 'st', 'fixed', 'arr'), 'WHolder': ('many',)}


def is_list(T, l):
    return l[0] in LISTS.get(T, ()) or T in ('WVecInt', 'WVecLeaf', 'WVecVec', 'WSetStr', 'WVecPoly', 'WFix', 'WArr', 'WFixLeaf')


def is_enum(T, l):
    return T in ('WEnum', 'WHolder', 'WSpPoly', 'WUpPoly') or l in (('c',), ('type',)) and T in ('WPlain', 'WBase', 'WDerivedA', 'WDerivedB', 'WDerivedC')


def first_key(L):
    while L[0] == 'y' and L[1] != NODE:
        L = L[1]
    return L[2]


def y02(res, tier):
    res.rule('on every path of deserialize<T> (normal or exceptional, raw or not) on which the key of a declared member is known absent, no instruction writes that member; '
             'no member is written on a path that never tested the presence of its key')
    for T in STRUCTS:
        for raw, only, outs, f in each_run(res, T):
            for st, k, v in outs:
                for l in leaves(T):
                    if only and l[0] != only:
                        continue
                    t = touches(st, l)
                    p = presence(st, l)
                    if p == 'absent':
                        res.check(not t, 'absent-untouched', t[0][3] if t else '', '%s: key %s is absent but member %s is written (%s)' % (
                            T, '.'.join(l), '.'.join(l), show(t[0][2]) if t else ''))
                    elif p == 'unknown' and t and l[0] not in required(T):
                        res.check(False, 'untested-write', t[0][3], '%s: member %s is written without testing that key %s is present' % (T, '.'.join(l), '.'.join(l)))


# ---- Y03 required --------------------------------------------------------------------------
def msg_of(exc):
    """constant text of the exception"""
    out = []
    for t in tree(exc[1]):
        if isinstance(t, tuple) and len(t) == 2 and t[0] == 'c' and isinstance(t[1], str):
            out.append(t[1])
    return out


def y03(res, tier):
    res.rule('every path of deserialize<T> on which a required key (own or inherited) is absent ends in a ConfigurationException naming a missing required key and writes no member; '
             'no path on which all required keys are present raises it')
    P = prog()
    for T in STRUCTS:
        req = required(T)
        for raw, only, outs, f in each_run(res, T):
            for st, k, v in outs:
                miss = [r for r in req if presence(st, (r,)) == 'absent']
                untested = [r for r in req if presence(st, (r,)) == 'unknown']
                if miss:
                    res.check(k == 'x' and excname(v) == CE, 'missing-rejected', P.where(f),
                              '%s: required key %s is absent but the load %s' % (T, miss[0], 'succeeds' if k == 'n' else 'raises ' + str(excname(v))))
                    if k == 'x':
                        res.check(any(m in t for m in miss for t in msg_of(v)), 'names-key', v[2], '%s: the error for missing %s does not name it' % (T, miss[0]))
                        w = [e for e in st.tr if e[0] == 'write' and under(OBJ, e[1])]
                        if not SPEC[T].get('base'):
                            res.check(not w, 'nothing-loaded', w[0][3] if w else '', '%s: %s is loaded before required %s is checked' % (T, show(w[0][1]) if w else '', miss[0]))
                elif k == 'n' and untested:
                    res.fail('tested', P.where(f), '%s: a load succeeds without testing required key %s' % (T, untested[0]))
                elif k == 'x' and excname(v) == CE and req and not nested(st, v) and any('Missing required' in t for t in msg_of(v)):
                    res.fail('no-false-reject', v[2], '%s: rejected as missing a required key although %s are present' % (T, req))
                else:
                    res.ok('all-present')
    # nested element types keep their own requirements
    for T, leaf in (('WVecLeaf', 'element'), ('WOptLeaf', 'value'), ('WSp', 'pointee'), ('WUp', 'pointee'), ('WFixLeaf', 'element'), ('WLeafIn', 'member')):
        if T == 'WLeafIn':
            SPEC.setdefault('WLeafIn', dict(own=[('x', 'req'), ('x', 'leaf')]))
        outs, f = deser(res, T, False)
        n = [st for st, k, v in outs if k == 'x' and any('Missing required field `req`' in t for t in msg_of(v))]
        res.check(bool(n), 'nested-required', P.where(f), '%s: a nested %s without its required key is accepted' % (T, leaf))
        for st, k, v in outs:
            if k != 'n':
                continue
            for c, b in st.facts.items():
                if b is True and c[0] == 'op' and c[1] == '==' and c[2][0] == 'kind' and c[3] == C('None') and c[2][1][0] == 'init' \
                        and c[2][1][1][0] == 'y' and c[2][1][1][2] == C('req'):
                    res.fail('nested-required', P.where(f), '%s: nested %s without required key accepted' % (T, leaf))


def nested(st, v):
    return bool([e for e in st.tr if e[0] == 'catch'])


# ---- Y04 error paths ----------------------------------------------------------------------
def parts(V):
    return list(V[1]) if V[0] == 'cat' else [V]


def path_shape(V):
    """constant skeleton of a field path, indices as '#', an inner unknown path as '@'"""
    s = ''
    for p in parts(V):
        if isc(p):
            s += str(p[1])
        elif p[0] == 'tostr':
            s += '#'
        elif p[0] == 'part' and p[2:] == ('f', '_field_name'):
            s += '@'
        else:
            s += '?'
    return s


Y04 = {
    'WLeafIn': {'x', 'x.@'},
    'WVecLeaf': {'x', 'x.<#>', 'x.<#>.@'},
    'WOptLeaf': {'x', 'x.@'},
    'WSp': {'x', 'x.@'},
    'WUp': {'x', 'x.@'},
    'WFixLeaf': {'x.<#>', 'x.<#>.@', 'x', 'x.<0>', 'x.<0>.@', 'x.<1>', 'x.<1>.@'},
    'WEnum': {'x'},
    'WVecInt': {'x'},
    'WSetStr': {'x'},
    'WSpPoly': {'x', 'x.type', 'x.@', 'x.common', 'x.a', 'x.b', 'x.c'},
    'WUpPoly': {'x', 'x.type', 'x.@', 'x.common', 'x.a', 'x.b', 'x.c'},
}


def y04(res, tier):
    res.rule('an exception raised while loading a nested value leaves deserialize<T> as a ConfigurationException whose field path is the key of every enclosing '
             'member and <index> of every enclosing list entry, outermost first, followed by the inner path; it is never swallowed; the original message is kept')
    P = prog()
    I = Interp(P, Pol())
    todo = dict(Y04)
    todo['WMid'] = {'inner', 'inner.@', 'list.<#>', 'list.<#>.@', 'list'}
    todo['WOuter'] = {'mid.inner', 'mid.inner.@', 'mid.list.<#>', 'mid.list.<#>.@', 'mid.list', 'mids', 'mids.<#>.inner', 'mids.<#>.inner.@',
                      'mids.<#>.list.<#>', 'mids.<#>.list.<#>.@', 'mids.<#>.list'}
    SPEC.setdefault('WMid', dict(own=[], slice=True, sl=['inner', 'list']))
    SPEC.setdefault('WOuter', dict(own=[], slice=True, sl=['mid', 'mids']))
    for T, shapes in todo.items():
        onlys = SPEC.get(T, {}).get('sl') or [None]
        for only in onlys:
            outs, f = deser(res, T, False, only, hooks_throw=True)
            nx = 0
            for st, k, v in outs:
                thrown = [e for e in st.tr if e[0] == 'call!']
                if thrown:
                    nx += 1
                    res.check(k == 'x', 'not-swallowed', thrown[-1][5], '%s: an error raised by a nested %s is swallowed' % (T, thrown[-1][1]))
                    catches = [e for e in st.tr if e[0] == 'catch']
                if k == 'x':
                    if excname(v) != CE:
                        if str(excname(v)).startswith('std::bad') or str(excname(v)).startswith('std::out'):
                            continue
                        res.fail('type', v[2], '%s: error surfaces as %s' % (T, excname(v)))
                        continue
                    s = path_shape(excfield(I, v))
                    res.check(s in shapes, 'path', v[2], '%s: error reported at `%s`, expected one of %s' % (T, s, sorted(shapes)))
                    if thrown:
                        m = I.part(v[1], 'f', 'msg', None)
                        res.check(any(isinstance(t, tuple) and t and t[0] == 'thrown' for t in tree(m)), 'message-kept', v[2],
                                  '%s: the original message is lost (%s)' % (T, show(m)))
                    res.sample('%s -> %s' % (T, s))
            if T in ('WLeafIn', 'WVecLeaf', 'WOptLeaf', 'WSp', 'WUp', 'WMid', 'WOuter', 'WFixLeaf'):
                res.check(nx > 0, 'reaches-hooks', P.where(f), '%s: no nested hook is reached' % T)


# ---- Y05 / Y06 hooks ----------------------------------------------------------------------
def hook_events(st):
    out = []
    for i, e in enumerate(st.tr):
        if e[0] in ('call', 'call!') and e[3] and '::' in e[1]:
            c, m = e[1].rsplit('::', 1)
            if m in ('derive', 'validate') and c in HOOKCLASSES:
                out.append((i, e[1], e[3][0], e))
    return out


def y05(res, tier):
    res.rule('on every returning path of deserialize<T>(.., raw=false) each class of the inheritance chain that defines hooks runs derive then validate exactly once, '
             'base classes first, and no member of that class or a base is assigned after its derive')
    res.rule('elements of lists, optionals and pointees run their hooks exactly once, before they are stored')
    P = prog()
    for T in STRUCTS:
        want = [h + '::' + m for h in hookclasses(T) for m in ('derive', 'validate')]
        for raw, only, outs, f in each_run(res, T, (False,)):
            for st, k, v in outs:
                if k != 'n':
                    continue
                hs = [h for h in hook_events(st) if h[2] == OBJ]
                res.check([h[1] for h in hs] == want, 'order', P.where(f), '%s: hooks run as %s, expected %s' % (T, [h[1] for h in hs], want))
                for cls in chain(T):
                    hk = [h for h in hs if h[1] == cls + '::derive']
                    if not hk:
                        continue
                    below = [(x,) if isinstance(x, str) else x for c in chain(cls) for x in SPEC[c]['own']]
                    late = [e for e in st.tr[hk[0][0]:] if e[0] == 'write' and any(under(objloc(l), e[1]) for l in below)]
                    res.check(not late, 'after-load', late[0][3] if late else '', '%s: %s is assigned after %s::derive' % (T, show(late[0][1]) if late else '', cls))
    for T in ('WVecLeaf', 'WOptLeaf', 'WSp', 'WUp', 'WFixLeaf', 'WLeafIn'):
        outs, f = deser(res, T, False)
        seen = 0
        for st, k, v in outs:
            if k != 'n':
                continue
            depth, cur, ev = 0, [], []
            for e in st.tr:
                if e[0] == 'call' and e[1] in ('WLeaf::derive', 'WLeaf::validate'):
                    cur.append(e[1])
                    seen += 1
                elif e[0] == 'write' and under(OBJ, e[1]) and holds_element(e, T):
                    res.check(cur == ['WLeaf::derive', 'WLeaf::validate'], 'element', e[3],
                              '%s: a nested value is stored after hooks %s' % (T, cur))
                    cur = []
                    ev.append(e)
            if T == 'WLeafIn':
                if presence(st, ('x',)) == 'present':
                    res.check(cur == ['WLeaf::derive', 'WLeaf::validate'], 'element', P.where(f), '%s: nested member hooks are %s' % (T, cur))
                    late = [i for i, e in enumerate(st.tr) if e[0] == 'call' and e[1] == 'WLeaf::derive']
                    w = [e for e in st.tr[late[0]:] if e[0] == 'write' and under(OBJ, e[1])] if late else []
                    res.check(not w, 'after-load', w[0][3] if w else '', '%s: nested member assigned after its hooks' % T)
            else:
                res.check(not cur, 'element', P.where(f), '%s: hooks %s ran on a value that is not stored' % (T, cur))
        res.check(seen > 0, 'element-reached', P.where(f), '%s: nested hooks never run' % T)
    # polymorphic: the base is parsed first, but its hooks and those of the derived class run once
    for T in ('WSpPoly', 'WUpPoly'):
        outs, f = deser(res, T, False)
        for st, k, v in outs:
            if k != 'n':
                continue
            hs = [h[1] for h in hook_events(st)]
            res.check(hs in ([], ['WDerivedC::derive', 'WDerivedC::validate']), 'poly-once', P.where(f), '%s: hooks of the pointee run as %s' % (T, hs))
        res.check(any(hook_events(o[0]) for o in outs), 'poly-reached', P.where(f), '%s: hooks of the derived class never run' % T)
    # a base class with hooks of its own: they run once, on the object that is kept
    base = ['WHBase::derive', 'WHBase::validate']
    allowed = [base, base + ['WHOwn::derive', 'WHOwn::validate']]
    for T in ('WSpH', 'WUpH'):
        outs, f = deser(res, T, False)
        got = set()
        for st, k, v in outs:
            if k != 'n' or presence(st, ('x',)) != 'present':
                continue
            hs = [h[1] for h in hook_events(st)]
            got.add(len(hs))
            res.check(hs in allowed, 'poly-base-once', P.where(f), '%s: hooks of the pointee run as %s' % (T, hs))
        res.check({2, 4} <= got, 'poly-reached', P.where(f), '%s: hooks of the pointee never run (%s)' % (T, sorted(got)))


def holds_element(e, T):
    if T == 'WOptLeaf':
        return e[1] == ('f', OBJ, 'x')
    if T in ('WSp', 'WUp'):
        return e[1] == ('f', OBJ, 'x')
    if T == 'WVecLeaf':
        return e[1] == ('f', OBJ, 'x') and e[2][0] in ('pushed',) or (e[2][0] == 'agg' and len(e[2][2]) > 0 if e[2][0] == 'agg' else False)
    if T == 'WFixLeaf':
        return e[1][0] == 'i' and e[1][1] == ('f', OBJ, 'x')
    return False


def y06(res, tier):
    res.rule('no path of deserialize<T>(.., raw=true) reaches a derive or validate hook, at any nesting depth')
    P = prog()
    for T in STRUCTS + ['WLeafIn']:
        if T == 'WLeafIn':
            runs = [(True, None) + deser(res, T, True)]
        else:
            runs = each_run(res, T, (True,))
        for raw, only, outs, f in runs:
            for st, k, v in outs:
                hs = hook_events(st)
                res.check(not hs, 'raw-no-hook', hs[0][3][5] if hs else '', '%s: hook %s runs in the validation-only load' % (T, hs[0][1] if hs else ''))
    for T in ('WMid', 'WOuter'):
        SPEC.setdefault('WMid', dict(own=[], slice=True, sl=['inner', 'list']))
        SPEC.setdefault('WOuter', dict(own=[], slice=True, sl=['mid', 'mids']))
        for only in SPEC[T]['sl']:
            outs, f = deser(res, T, True, only)
            for st, k, v in outs:
                hs = hook_events(st)
                res.check(not hs, 'raw-no-hook', hs[0][3][5] if hs else '', '%s: nested hook %s runs in the validation-only load' % (T, hs[0][1] if hs else ''))
    # the entry points: hooks only after the whole document was accepted
    strict_order(res, hooks_only=True)


# ---- Y07 / Y16 entry points ------------------------------------------------------------------
ENTRY_OPAQUE = ('Yaml::deserialize', 'Yaml::serialize', 'Yaml::validate_subset', 'Yaml::Parse', 'Yaml::Serialize')


def entry_points(P):
    for f in P.funcs.values():
        n = f['n']
        if n in ('Yaml::from_string', 'Yaml::from_string_strict', 'Yaml::from_file', 'Yaml::from_file_strict'):
            yield f


def run_entry(res, f):
    P = prog()
    key = ('entry', f['fid'])
    if key not in _runs:
        I = Interp(P, Pol(opaque=ENTRY_OPAQUE, throws={'Yaml::deserialize': [CE], 'Yaml::validate_subset': [CE], 'Yaml::Parse': ['Yaml::ParsingException']}))
        _runs[key] = (I.run(f), I, f)
    outs, I, _ = _runs[key]
    res.unit(P)
    res.stats(I)
    return outs


def entry_events(st):
    out = []
    for e in st.tr:
        if e[0] in ('call', 'call!') and e[1] in ENTRY_OPAQUE:
            out.append((e[1].split('::')[1], e[4], e[5], e[0] == 'call!', e))
    return out


def root_of(L):
    return L


def strict_order(res, hooks_only=False):
    P = prog()
    n = 0
    for f in entry_points(P):
        strict = f['n'].endswith('_strict')
        if hooks_only and not strict:
            continue
        n += 1
        outs = run_entry(res, f)
        ret_obj = f['ret'] not in ('void',)
        objs = None if ret_obj else [('o', 'P%d' % i) for i in range(1, len(f['p']))]
        name = f['full']
        for st, k, v in outs:
            evs = entry_events(st)
            threw = [e for e in evs if e[3]]
            seq = [(m, [a[0] for a in args], [a[1] for a in args], w) for m, args, w, t, _ in evs]
            parse = [s for s in seq if s[0] == 'Parse']
            if threw:
                res.check(k == 'x', 'propagates', threw[0][2], '%s swallows a failure of %s' % (name, threw[0][0]))
                after = evs[evs.index(threw[0]) + 1:]
                bad = [e for e in after if e[0] == 'deserialize']
                res.check(not bad, 'stops', bad[0][2] if bad else '', '%s continues loading after a failure of %s' % (name, threw[0][0]))
            node = parse[0][1][0] if parse else None
            cooked = [s for s in seq if s[0] == 'deserialize' and len(s[2]) > 2 and s[2][2] != TRUE]
            raws = [s for s in seq if s[0] == 'deserialize' and len(s[2]) > 2 and s[2][2] == TRUE]
            order = [s[0] + ('*' if s in raws else '') for s in seq]
            if not hooks_only:
                res.check(len(parse) == 1 and (not seq or seq[0][0] == 'Parse'), 'parse-first', P.where(f), '%s does not parse its input exactly once before loading (%s)' % (name, order))
                for s in cooked + raws:
                    res.check(s[1][1] == node, 'same-node', s[3], '%s loads from something other than the parsed document' % name)
            want = objs if objs is not None else None
            if k == 'n':
                got = [s[1][0] for s in cooked]
                if want is not None:
                    res.check(got == want, 'loads-all', P.where(f), '%s: fully loads %s, expected every object once, in order' % (name, [show(x) for x in got]))
                else:
                    res.check(len(got) == 1, 'loads-all', P.where(f), '%s: loads %d objects' % (name, len(got)))
                    if len(got) == 1:
                        res.check(returned(st, v, cooked[0]), 'returns-loaded', P.where(f), '%s does not return the object it loaded' % name)
            if strict and (cooked or k == 'n'):
                i0 = seq.index(cooked[0]) if cooked else len(seq)
                pre = seq[:i0]
                val = [s for s in pre if s[0] == 'validate_subset']
                rawed = [s[1][0] for s in pre if s in raws]
                ser = [s for s in pre if s[0] == 'serialize']
                targets = want if want is not None else [cooked[0][1][0]] if cooked else rawed
                res.check(bool(val), 'validated', P.where(f), '%s: runs the full load before the document was checked for unknown fields' % name)
                res.check(sorted(map(repr, rawed)) == sorted(map(repr, targets)), 'raw-all', P.where(f),
                          '%s: the trial load covers %s of %s' % (name, [show(x) for x in rawed], [show(x) for x in targets]))
                res.check(sorted(repr(s[1][0]) for s in ser) == sorted(map(repr, targets)), 'reserialize-all', P.where(f),
                          '%s: the comparison document covers %s of %s' % (name, [show(s[1][0]) for s in ser], [show(x) for x in targets]))
                if val:
                    iv = pre.index(val[0])
                    res.check(all(pre.index(s) < iv for s in ser) and all(pre.index(s) < iv for s in pre if s in raws), 'check-last', val[0][3],
                              '%s: the unknown-field check runs before every object was loaded and written back' % name)
                    for s in ser:
                        i = pre.index(s)
                        res.check(any(pre.index(r) < i for r in pre if r in raws and r[1][0] == s[1][0]), 'raw-before-save', s[3], '%s: an object is written back before its trial load' % name)
                    res.check(val[0][1][1] == node and all(s[1][1] == val[0][1][0] for s in ser) and val[0][1][0] != node, 'compares', val[0][3],
                              '%s: the unknown-field check does not compare the written-back objects (first) with the input document (second)' % name)
            if not strict and not hooks_only:
                res.check(not raws and not any(s[0] == 'validate_subset' for s in seq), 'lenient', P.where(f), '%s: non-strict load rejects unknown fields' % name)
        res.sample('%s: %s' % (name, [e[0] for e in entry_events(outs[0][0])] if outs else ''))
    res.check(n > 0, 'entry-points', 'yaml-serializable.h', 'no entry point found')


def returned(st, v, load):
    """the returned value is what the load left in the object"""
    L = load[1][0]
    return any(isinstance(t, tuple) and t[:1] == ('top',) for t in tree(v)) or mentions(v, L)


def y16(res, tier):
    res.rule('each from_string/from_file (strict or not, returning or filling) parses exactly once and loads every object it was given, once and in order, from the parsed document; '
             'string variants parse the text itself, file variants parse the named file; failures propagate and nothing is loaded after one')
    strict_order(res)
    P = prog()
    for f in entry_points(P):
        for st, k, v in run_entry(res, f):
            for e in st.tr:
                if e[0] in ('call', 'call!') and e[1] == 'Yaml::Parse':
                    c = next((x for x in P.funcs.values() if False), None)
                    pt = parse_variant(P, f, e)
                    want = 'file' if 'from_file' in f['n'] else 'string'
                    src = e[4][1][1]
                    res.check(mentions(src, ('init', ('o', 'P0'))), 'source', e[5], '%s does not parse its first argument' % f['full'])
                    res.check(pt == want, 'source-kind', e[5], '%s hands its argument to the %s parser' % (f['full'], pt))


def parse_variant(P, f, e):
    from sa.prog import walk
    # the overload resolved at this call site: char* names a file, std::string is text, streams are text
    for g in P.funcs.values():
        for x in walk(g.get('body')):
            if x.get('k') == 'call' and x.get('fn') == 'Yaml::Parse' and P.where(x) == e[5]:
                t = x['pt'][1]
                return 'file' if t.startswith('const char') else 'string'
    return '?'


def y07(res, tier):
    res.rule('validate_subset(a, b): every map key of b whose value is not empty must exist in a, every list entry of b must have a counterpart in a, kinds must agree, '
             'each pair is compared recursively, the iteration covers all of b, errors propagate with the key or <index> prefixed')
    res.rule('each strict entry point performs trial load of all objects, write-back of all, comparison, and only then the real load')
    P = prog()
    strict_order(res, hooks_only=True)
    f = P.named('Yaml::validate_subset')
    if not f:
        raise Undecided('validate_subset not found')
    f = f[0]

    class VPol(Pol):
        max_rec = 1

        def keep(self, ev, st):
            return ev

    I = Interp(P, VPol(throws={'Yaml::validate_subset': [CE]}))
    outs = I.run(f)
    res.stats(I)
    A, B = ('init', ('o', 'P0')), ('init', ('o', 'P1'))
    is_ = lambda st, V, k: I.known(st, ('op', '==', ('kind', V), C(k)))
    seen = set()
    for st, k, v in outs:
        bm, bs = is_(st, B, 'Map'), is_(st, B, 'Sequence')
        am, as_ = is_(st, A, 'Map'), is_(st, A, 'Sequence')
        w = P.where(f)
        if bm and am is False or bs and as_ is False:
            seen.add('kind')
            res.check(k == 'x' and excname(v) == CE, 'kind-mismatch', w, 'a %s in the input where the object has none is accepted' % ('dictionary' if bm else 'list'))
            continue
        if k == 'n' and (bm is None and bs is None):
            res.fail('kind-tested', w, 'validate_subset accepts an input without looking at its kind')
        if not bm and not bs:
            continue
        # split by loop iterations
        it = [i for i, e in enumerate(st.tr) if e[0] == 'loop+']
        body = st.tr[it[-1]:] if it else ()
        if k == 'n':
            # leaves only when b is exhausted
            res.check(exhausted(st, B), 'covers-all', w, 'the comparison of a %s ends before all of the input was visited' % ('dictionary' if bm else 'list'))
        rec = [e for e in body if e[0] in ('call', 'call!') and e[1] == 'Yaml::validate_subset']
        if it:
            child = None
            for c, x in st.facts.items():
                if c[0] == 'op' and c[1] == '==' and c[2][0] == 'kind' and c[3] == C('None') and c[2][1][0] == 'init' and c[2][1][1][:2] == ('y', ('o', 'P1')):
                    child = (c[2][1], x)
            if bm:
                if child and child[1] is True:
                    seen.add('skip-none')
                    res.ok('none-skipped')
                    continue
                missing = any(x is True and c[0] == 'op' and c[1] == '==' and c[2][0] == 'kind' and c[3] == C('None') and
                              c[2][1][0] == 'init' and c[2][1][1][:2] == ('y', ('o', 'P0')) for c, x in st.facts.items())
                if missing:
                    seen.add('unknown-key')
                    res.check(k == 'x' and excname(v) == CE, 'unknown-key', w, 'a key of the input that the object does not have is accepted')
                    continue
            else:
                aend = exhausted(st, A)
                if aend and not rec:
                    seen.add('short')
                    res.check(k == 'x' and excname(v) == CE, 'list-longer', w, 'list entries of the input that were not loaded are accepted')
                    continue
            adv = {}
            for e in body:
                if e[0] == 'advance':
                    adv[e[1]] = adv.get(e[1], 0) + 1
            if k == 'n' and adv:
                res.check(all(n == 1 for n in adv.values()), 'lockstep', w, 'one step of the comparison advances its cursors %s times' % sorted(adv.values()))
                if not bm:
                    res.check(len(adv) != 1, 'lockstep', w, 'only one of the two lists is advanced')
            res.check(bool(rec), 'recurses', w, 'an entry of the input is not compared recursively [%s]' % facts_text(st))
            if rec:
                seen.add('rec-' + ('map' if bm else 'seq'))
                e = rec[0]
                va, vb = e[4][0][1], e[4][1][1]
                okp = sub_of(va, A) and sub_of(vb, B) and same_key(va, vb)
                res.check(okp, 'pairs', e[5], 'entries are compared with the wrong counterpart: %s against %s' % (show(va), show(vb)))
                if e[0] == 'call!':
                    seen.add('propagate')
                    res.check(k == 'x' and excname(v) == CE, 'propagates', e[5], 'a mismatch found deeper in the document is swallowed')
                    if k == 'x' and excname(v) == CE:
                        s = path_shape(excfield(I, v))
                        res.check(s in (('?', '?.@') if bm else ('<#>', '<#>.@', '<0>', '<0>.@')), 'qualified', v[2], 'a deeper mismatch is reported at `%s`' % s)
    for need in ('kind', 'skip-none', 'unknown-key', 'short', 'rec-map', 'rec-seq', 'propagate'):
        res.check(need in seen, 'case-' + need, P.where(f), 'no path of validate_subset handles the case `%s`' % need)


def sub_of(v, base):
    return mentions(v, base[1])


def same_key(va, vb):
    """the child of a and the child of b are selected by the same key/position"""
    def key(v):
        t = v[1] if v[0] == 'init' else v
        if t[0] in ('y',):
            return t[2]
        if t[0] == 'part':
            return t[3]
        return None
    a, b = key(va), key(vb)
    if a is None or b is None or a == b:
        return True
    if a[0] == 'ykey':
        return b == ('pos', a[2])
    return (a[0] == 'pos') == (b[0] == 'pos')


def exhausted(st, V):
    """this path knows that every element of V was visited"""
    for c, x in st.facts.items():
        if c[0] == 'atend' and (c[1] == V or c[1][0] == 'rec' and c[1][1] == V) and x is True:
            return True
        if c[0] == 'op' and c[1] == '<' and c[3] == ('size', V) and x is False:
            return True
        if c[0] == 'op' and c[1] == '<' and c[2] == ('size', V) and x is True:
            return True
        if c[0] == 'op' and c[1] == '==' and ('size', V) in c[2:4] and x is True:
            return True
        if c[0] == 'op' and c[1] == '<' and c[2] == C(0) and c[3] == ('size', V) and x is False:
            return True
    return False


def interval(st, V):
    """bounds of an unsigned quantity known on this path"""
    lo, hi, ne = 0, float('inf'), set()
    for c, x in st.facts.items():
        if c[0] == 'eq' and c[1] == V and isc(x) and isinstance(x[1], int):
            lo, hi = max(lo, x[1]), min(hi, x[1])
        if c[0] != 'op' or len(c) < 4 or not isinstance(x, bool):
            continue
        a, b = c[2], c[3]
        k = b[1] if a == V and isc(b) else a[1] if b == V and isc(a) else None
        if not isinstance(k, int):
            continue
        if c[1] == '==':
            if x:
                lo, hi = max(lo, k), min(hi, k)
            else:
                ne.add(k)
        elif c[1] == '<':
            if a == V and x:
                hi = min(hi, k - 1)
            elif a == V:
                lo = max(lo, k)
            elif x:
                lo = max(lo, k + 1)
            else:
                hi = min(hi, k)
    while lo in ne:
        lo += 1
    while hi in ne:
        hi -= 1
    return lo, hi


def carried(V, uid, inds):
    """values of an earlier turn of loop uid (other than its counters) that V depends on"""
    return [t for t in tree(V) if isinstance(t, tuple) and len(t) == 4 and t[:2] == ('top', 'loop') and t[2] == uid and t not in inds
            and not (isinstance(t[3], tuple) and t[3][0] == 'itmark')]


# ---- Y08 fixed length ----------------------------------------------------------------------
def named(res, name, throws=(), opaque=(), args=None, this=None, assume=()):
    """outcomes of a witness function or library function looked up by (full) name"""
    P = prog()
    key = ('named', name, repr(throws), opaque)
    if key not in _runs:
        fs = [f for f in P.funcs.values() if f['full'] == name or f['n'] == name]
        if not fs:
            raise Undecided('%s not found' % name)
        I = Interp(P, Pol(throws=throws, opaque=opaque, assume=assume))
        _runs[key] = (I.run(fs[0], args=args, this=this) if args or this else I.run(fs[0]), I, fs[0])
    outs, I, f = _runs[key]
    res.unit(P)
    res.stats(I)
    return [o for o in outs if o[1] != 'exit'], f


def kind_is(st, L, k):
    v = st.facts.get(('op', '==', ('kind', ('init', L)), C(k)))
    return v


def idx_of(L):
    """index of the first list position below obj.x / node[x] in a location"""
    while L[0] in ('f', 'i', 'y'):
        if L[0] == 'i' and L[1] == ('f', OBJ, 'x'):
            return L[2]
        L = L[1]
    return None


def docidx(V):
    """positions of the document list node['x'] a value was computed from"""
    X = docloc(('x',))
    out = set()
    for t in tree(V):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'y' and t[1] == X:
            out.add(t[2])
    return out


FIXN = {'WFix': None, 'WArr': None, 'WFixLeaf': None}


def fixed_size(P, T):
    import re
    f = P.records[T]['fields'][0]
    m = re.search(r'\[(\d+)\]', f['t']) or re.search(r', (\d+)(?:UL)?>', f['t'])
    return int(m.group(1))


def y08(res, tier):
    res.rule('deserialize into T[N] / std::array<T,N>: on every path an element is stored only after the document list was found to have exactly N entries; entry i is stored at index i, '
             'for i = 0..N-1, each once; a list of any other length ends in a ConfigurationException with nothing stored; no index outside 0..N-1 is ever written')
    res.rule('serialize from T[N] / std::array<T,N>: exactly N entries are appended to an emptied list, entry i from index i')
    P = prog()
    for T in FIXN:
        N = fixed_size(P, T)
        X = docloc(('x',))
        done = False
        for raw in (False, True):
            outs, f = deser(res, T, raw)
            for st, k, v in outs:
                ws = [e for e in st.tr if e[0] == 'write' and idx_of(e[1]) is not None]
                for e in ws:
                    i = idx_of(e[1])
                    res.check(not isc(i) or 0 <= i[1] < N, 'in-bounds', e[3], '%s: index %s of a %d-element array is written' % (T, show(i), N))
                if kind_is(st, X, 'Sequence') is not True:
                    if k == 'x':
                        continue
                    if presence(st, ('x',)) == 'present' and kind_is(st, X, 'Scalar') is not True:
                        res.check(False, 'not-a-list', P.where(f), '%s: a value that is not a list is accepted' % T)
                    continue
                lo, hi = interval(st, ('size', ('init', X)))
                if (lo, hi) != (N, N):
                    if k == 'n' or ws:
                        res.fail('length', P.where(f), '%s: a list whose length is not known to be %d is %s' % (T, N, 'accepted' if k == 'n' else 'partly stored'))
                    else:
                        res.ok('length')
                    continue
                if k == 'n':
                    done = True
                    idxs = []
                    for e in ws:
                        i = idx_of(e[1])
                        if i not in idxs:
                            idxs.append(i)
                        dk = docidx(e[2])
                        if dk:
                            res.check(dk == {i}, 'element', e[3], '%s: element %s is loaded from list entry %s' % (T, show(i), [show(x) for x in dk]))
                    res.check(idxs == [C(j) for j in range(N)], 'all-elements', P.where(f), '%s: a list of %d entries fills indices %s' % (T, N, [show(x) for x in idxs]))
        res.check(done, 'reached', P.where(f), '%s: no path loads a list of the right length' % T)
        outs, f = seri(res, T)
        for st, k, v in outs:
            if k != 'n':
                continue
            pb = []
            for e in st.tr:
                if e[0] == 'pushback' and e[1] == X:
                    pb.append([e[2], None])
                elif e[0] == 'write' and e[1] == X:
                    pb = []
                elif e[0] == 'write' and pb and under(pb[-1][0], e[1]):
                    pb[-1][1] = e
            if any(e[0] == 'loop+' for e in st.tr):
                continue
            res.check(len(pb) == N, 'saves-all', P.where(f), '%s: %d of %d elements are saved' % (T, len(pb), N))
            for j, (L, e) in enumerate(pb):
                if e is None:
                    continue
                src = {t[2] for t in tree(e[2]) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'i' and t[1] == ('f', OBJ, 'x')}
                if src:
                    res.check(src == {C(j)}, 'saves-element', e[3], '%s: entry %d is saved from element %s' % (T, j, [show(x) for x in src]))
        res.sample('%s: N=%d' % (T, N))


# ---- Y09 lists and sets -----------------------------------------------------------------------
def y09(res, tier):
    res.rule('deserialize into std::vector/std::set: on every path that meets a non-empty value, the container is emptied before the first insertion; the loop over the document list visits '
             'positions 0,1,2,.. up to its size, and each turn inserts exactly one value, computed from that position and from nothing left over from another entry; a scalar that does not look like a [..] list is an error')
    res.rule('serialize: the node is emptied first; every element of the container is appended once, in iteration order')
    P = prog()
    X = docloc(('x',))
    for T in ('WVecInt', 'WVecLeaf', 'WVecVec', 'WSetStr', 'WVecPoly'):
        reached = set()
        for raw in (False, True):
            outs, f = deser(res, T, raw)
            w = P.where(f)
            for st, k, v in outs:
                ws = [e for e in st.tr if e[0] == 'write' and e[1] == ('f', OBJ, 'x')]
                if presence(st, ('x',)) != 'present':
                    res.check(not ws, 'absent', ws[0][3] if ws else '', '%s: an absent list changes the container' % T)
                    continue
                if kind_is(st, X, 'Scalar') is True:
                    m = [b for c, b in st.facts.items() if mentions(c, 'std::regex_match')]
                    if m and m[0] is False or not m and k == 'n' and False:
                        res.check(k == 'x' and excname(v) == CE, 'not-a-list', w, '%s: a scalar that is not a list is accepted' % T)
                        reached.add('scalar')
                    # '[]': an entry is appended only once there is text for it
                    for e in st.tr:
                        if e[0] != 'in' or e[2][0] != 'ss':
                            continue
                        guard = [c for c, b in st.facts.items() if mentions(c, e[2][1]) and not mentions(c, 'std::basic_ios::eof') and not mentions(c, 'std::regex_match')
                                 or any(isinstance(t, tuple) and t[:1] == ('extract',) and len(t) > 2 and t[2] == e[2] for t in tree(c))]
                        res.check(bool(guard), 'empty-brackets', e[4], '%s: a first entry is made from the brackets without checking that there is text between them' % T)
                    continue
                if k == 'n':
                    res.check(bool(ws) and emptyval(ws[0][2]), 'replaced', w, '%s: the list is loaded without emptying the container first' % T)
                if kind_is(st, X, 'Sequence') is not True:
                    continue
                lp = None
                for e in st.tr:
                    if e[0] == 'loop+':
                        lp = e
                        break
                if lp is None:
                    continue
                # positions of this document list used anywhere in the loop
                inds = {t: (t0, s) for ev in st.tr if ev[0] == 'loop+' for t, t0, s in ev[3]}
                pos = set()
                for c in st.facts:
                    pos |= docidx(c)
                for e in st.tr:
                    if e[0] == 'write':
                        pos |= docidx(e[2])
                for t in pos:
                    if t in inds:
                        reached.add('loop')
                        res.check(inds[t] == (C(0), C(1)), 'positions', lp[2], '%s: the positions of the document list are visited from %s in steps of %s' % (
                            T, show(inds[t][0]) if inds[t][0] else '?', show(inds[t][1])))
                    elif isc(t):
                        res.fail('positions', lp[2], '%s: the same list entry %s is loaded on every turn' % (T, show(t)))
                if k == 'n':
                    ins = [e for e in ws[1:] if e[2][0] == 'pushed' or e[2][0] == 'agg' and e[2][2]]
                    res.check(len(ins) == 1, 'one-per-turn', w, '%s: one turn of the loop inserts %d elements' % (T, len(ins)))
                    for e in ins:
                        if e[2][0] == 'pushed':
                            reached.add('insert')
                        item = e[2][-1] if e[2][0] == 'pushed' else e[2][2][-1]
                        old = carried(item, lp[1], inds)
                        res.check(not old, 'own-entry', e[3], '%s: an inserted element depends on %s left over from an earlier entry' % (T, show(old[0][3]) if old else ''))
                    end = exhausted(st, ('init', X))
                    res.check(end, 'covers-all', w, '%s: the loop ends before all list entries were visited' % T)
        for need in ('loop', 'insert'):
            res.check(need in reached, 'reached', w, '%s: no path loads a list (%s)' % (T, need))
        outs, f = seri(res, T)
        for st, k, v in outs:
            if k != 'n':
                continue
            w = P.where(f)
            evs = [e for e in st.tr if e[0] in ('write', 'pushback') and e[1] == X]
            nonempty = [e for e in st.tr if e[0] == 'loop+']
            lo = next((i for i, e in enumerate(st.tr) if e[0] in ('loop+', 'loop0')), len(st.tr))
            pre = [e for e in st.tr[:lo] if e[0] in ('write', 'pushback') and e[1] == X]
            res.check(any(e[0] == 'write' and e[2] in (('none',), ('seq', 0)) for e in pre), 'emptied', w, '%s: the list is saved on top of what the node held' % T)
            if nonempty:
                body = st.tr[lo:]
                pb = [e for e in body if e[0] == 'pushback' and e[1] == X]
                res.check(len(pb) == 1, 'append-each', w, '%s: one element is appended %d times' % (T, len(pb)))
        res.sample('%s: %s' % (T, sorted(reached)))


def emptyval(V):
    return V[0] == 'agg' and V[2] == () or V == ('zero',)


# ---- Y11 optional -----------------------------------------------------------------------------
def y11(res, tier):
    res.rule('deserialize into std::optional: present key => on every returning path the optional holds a value computed from that key; and from nothing the optional held before; absent key => untouched')
    res.rule('serialize: a set optional is saved from its value, an unset one leaves the key empty')
    P = prog()
    X = docloc(('x',))
    for T in ('WOptInt', 'WOptLeaf'):
        for raw in (False, True):
            outs, f = deser(res, T, raw)
            for st, k, v in outs:
                ws = [e for e in st.tr if e[0] == 'write' and under(('f', OBJ, 'x'), e[1])]
                p = presence(st, ('x',))
                if p == 'absent':
                    res.check(not ws and k == 'n', 'absent', P.where(f), '%s: an absent key changes the optional' % T)
                elif k == 'n' and p == 'present':
                    last = ws[-1][2] if ws else None
                    res.check(bool(ws) and last[0] == 'some', 'set', P.where(f), '%s: a present key leaves the optional %s' % (T, show(last) if last else 'untouched'))
                    if last:
                        res.check(not mentions(last, ('init', ('f', OBJ, 'x'))), 'determined', ws[-1][3], '%s: the value loaded depends on what the optional held before' % T)
                    if last and T == 'WOptInt':
                        res.check(C('x') in dockeys(last), 'value', ws[-1][3], '%s: the optional holds %s' % (T, show(last)))
        outs, f = seri(res, T)
        for st, k, v in outs:
            has = st.facts.get(('hasval', ('init', ('f', OBJ, 'x'))))
            if k != 'n' or has is None:
                if k == 'n' and has is None:
                    res.undecided('optional-save', '%s: presence of the value not tested in a recognised way' % T)
                continue
            vals = [e for e in st.tr if e[0] == 'write' and under(X, e[1]) and e[2] != ('none',)]
            if has:
                res.check(bool(vals), 'saved', P.where(f), '%s: the value of a set optional is not saved' % T)
                if vals:
                    res.check(all(not isc(e[2]) for e in vals), 'saved-value', P.where(f), '%s: a constant is saved for the optional' % T)
            else:
                res.check(not vals, 'unset-saved', vals[0][3] if vals else '', '%s: an unset optional is saved as %s' % (T, show(vals[0][2]) if vals else ''))
                clr = [e for e in st.tr if e[0] == 'write' and under(e[1], X) and e[2] == ('none',)]
                res.check(bool(clr), 'unset-cleared', P.where(f), '%s: saving an unset optional leaves what the output held under its key' % T)
        res.sample(T)


# ---- Y12 pointers ------------------------------------------------------------------------------
def y12(res, tier):
    res.rule('deserialize into shared_ptr/unique_ptr<T>: present key => the pointer is set to a newly allocated object whose contents come from that key; absent key => untouched')
    res.rule('polymorphic pointee: the type key is required, an unregistered type is a ConfigurationException, and the object built is of the class registered for the type that was read, '
             'loaded with that class\'s own keys; shared and unique pointers agree path for path')
    P = prog()
    shapes = {}
    for T in ('WSp', 'WUp', 'WSpPoly', 'WUpPoly'):
        poly = T.endswith('Poly')
        shapes[T] = set()
        for raw in (False, True):
            outs, f = deser(res, T, raw)
            w = P.where(f)
            for st, k, v in outs:
                ws = [e for e in st.tr if e[0] == 'write' and e[1] == ('f', OBJ, 'x')]
                p = presence(st, ('x',))
                ty = isnone(st, docloc(('x', 'type'))) if poly else None
                tgt = target_of(st)
                shapes[T].add((raw, p, k, excname(v) if k == 'x' else None, ty, tgt, bool(ws)))
                if p == 'absent':
                    res.check(not ws and k == 'n', 'absent', w, '%s: an absent key changes the pointer' % T)
                    continue
                if k == 'n' and p == 'present':
                    res.check(bool(ws) and fresh_pointer(ws[-1][2]), 'set', w, '%s: a present key leaves the pointer %s' % (T, show(ws[-1][2]) if ws else 'untouched'))
                    if ws and ws[-1][2][0] == '&':
                        h = root(ws[-1][2][1])
                        old = [V for L, V in st.mem.items() if root(L) == h and isinstance(V, tuple) and mentions(V, ('init', ('f', OBJ, 'x')))]
                        res.check(not old, 'determined', ws[-1][3], '%s: the new object depends on what the pointer held before' % T)
                if poly:
                    if ty is True:
                        res.check(k == 'x' and excname(v) == CE and not ws, 'type-required', w, '%s: a polymorphic object without type is accepted' % T)
                    has = registry_fact(st)
                    if has is False:
                        res.check(k == 'x' and excname(v) == CE and not ws, 'unknown-type', w, '%s: an unregistered type is accepted' % T)
                    if k == 'n' and p == 'present' and ws and ws[-1][2][0] == '&':
                        res.check(has is True, 'registered', w, '%s: an object is built without looking its type up in the registry' % T)
                        dyn = st.mem.get(('dyn', ws[-1][2][1]))
                        if tgt and dyn:
                            res.check(tgt == dyn, 'own-class', ws[-1][3], '%s: type entry of %s builds a %s' % (T, tgt, dyn))
    for a, b in (('WSp', 'WUp'), ('WSpPoly', 'WUpPoly')):
        d = shapes[a] ^ shapes[b]
        res.check(not d, 'siblings', 'yaml-serializable-containers.h', 'shared and unique pointers behave differently: %s' % sorted(map(repr, d))[:2])
    for T in ('WSp', 'WUp'):
        outs, f = seri(res, T)
        for st, k, v in outs:
            if k == 'n':
                for key in ('req', 'leaf'):
                    w = [e for e in st.tr if e[0] == 'write' and under(docloc(('x', key)), e[1])]
                    res.check(bool(w), 'saved', P.where(f), '%s: %s of the pointee is not saved' % (T, key))
    res.sample(sorted(map(repr, shapes['WSpPoly']))[:3])


def target_of(st):
    """class chosen by the virtual call through the registry entry on this path"""
    for c, b in st.facts.items():
        if b is True and c[0] == 'target':
            import re
            m = re.search(r'DerivedSerializer<([A-Za-z0-9_]+)', repr(c))
            if m:
                return m.group(1)
    return None


def registry_fact(st):
    r = None
    for c, b in st.facts.items():
        if c[0] == 'has' and not (c[1][0] == 'agg' and c[1][2] and isc(c[1][2][0][0]) and isinstance(c[1][2][0][0][1], str)):
            r = b
    return r


def fresh_pointer(V):
    return V[0] == '&' and root(V[1])[0] == 'h' or V[0] in ('top', 'call', 'new')


# ---- Y13 enums ----------------------------------------------------------------------------------
def y13(res, tier):
    res.rule('the name table of a serializable enum maps each enumerator\'s own name to that enumerator and nothing else; its inverse lists the names in enumerator order')
    res.rule('loading a name that is not in the table raises ConfigurationException and leaves the value; the inverse table is indexed only when 0 <= value < its size; '
             'an out-of-range value yields an empty name, which is not saved')
    P = prog()
    want = {}
    for e in P.enums['WColor']['e']:
        want[e['n']] = e['v']
    outs, f = named(res, 'w_from_name')
    ok = 0
    for st, k, v in outs:
        ws = [e for e in st.tr if e[0] == 'write' and under(NODE, e[1])]
        hs = [(c, b) for c, b in st.facts.items() if c[0] == 'has' and c[1][0] == 'agg']
        if not hs:
            res.undecided('enum-table', 'the name is not looked up in a recognised table')
            continue
        c, b = hs[0]
        tab = dict((x[0][1], x[1][1]) for x in c[1][2] if isc(x[0]) and isc(x[1])) if c[1][1] == 'map' else None
        if tab is not None:
            res.check(tab == want, 'table', P.where(f), 'names are read as %s, the enumerators are %s' % (tab, want))
        res.check(mentions(c[2], ('init', OBJ)), 'looks-up-input', P.where(f), 'the table is searched for something other than the input')
        if b:
            ok += 1
            res.check(k == 'n' and len(ws) == 1 and mentions(ws[0][2], ('init', OBJ)), 'assigned', P.where(f), 'a known name does not set the value from the table')
        else:
            res.check(k == 'x' and excname(v) == CE and not ws, 'unknown-name', P.where(f), 'an unknown name is accepted' if k == 'n' else 'an unknown name changes the value or raises %s' % excname(v))
    res.check(ok > 0, 'reached', P.where(f), 'no name is ever accepted')
    outs, f = named(res, 'w_name')
    V = ('init', OBJ)
    names = 0
    for st, k, v in outs:
        if k != 'n':
            continue
        if v == C(''):
            res.ok('out-of-range')
            continue
        if v[0] == 'part' and v[1][0] == 'agg':
            names += 1
            got = [x[1] for x in v[1][2] if isc(x)]
            res.check(got == sorted(want, key=want.get), 'inverse', P.where(f), 'names are written as %s for enumerators %s' % (got, want))
            lo = st.facts.get(('op', '<', V, C(0)))
            hi = [c for c, b in st.facts.items() if c[0] == 'op' and c[1] == '<' and c[2] == V and isc(c[3]) and c[3][1] > 0 and c[3][1] <= len(got) and b is True]
            hi += [c for c, b in st.facts.items() if c[0] == 'op' and c[1] == '<' and c[3] == V and isc(c[2]) and c[2][1] < len(got) and b is False]
            res.check(bool(hi), 'upper-bound', P.where(f), 'the name table is indexed with a value not known to be below its size')
            res.check(lo is False, 'lower-bound', P.where(f), 'the name table is indexed with a value not known to be non-negative')
    if not names:
        res.undecided('enum-inverse', 'the name is not taken from a recognised table')
    outs, f = deser(res, 'WEnum', False)
    for st, k, v in outs:
        ws = touches(st, ('x',))
        if presence(st, ('x',)) == 'present':
            res.check(k == 'x' and not ws or k == 'n' and len(ws) == 1, 'load', P.where(f), 'a present enum is neither assigned nor rejected')
    outs, f = seri(res, 'WEnum')
    for st, k, v in outs:
        for e in st.tr:
            if e[0] == 'write' and under(docloc(('x',)), e[1]):
                res.check(e[2] != ('scalar', C('')), 'no-empty', e[3], 'an out-of-range enum is saved as an empty name')


# ---- Y14 registry ---------------------------------------------------------------------------------
def y14(res, tier):
    res.rule('registerT: if the discriminator is already in the registry the path throws and stores nothing; otherwise exactly one entry is stored, under that class\'s own discriminator, serving that class; '
             'a static member is initialised by registerT for every registered class; the constructor of Register<T,V> sets type to V')
    res.rule('deserialize_as_derived/serialize_as_derived: the entry is selected by the object\'s own type value')
    P = prog()
    ev = {x['n']: x['v'] for x in P.enums['WKind']['e']}
    regs = {'WDerivedA': 'KA', 'WDerivedB': 'KB', 'WDerivedC': 'KC'}
    for T, K in regs.items():
        full = 'Yaml::TypeDiscriminated<WBase, WKind>::Register<%s, WKind::%s>' % (T, K)
        outs, f = named(res, full + '::registerT')
        w = P.where(f)
        seen = set()
        for st, k, v in outs:
            has = registry_fact2(st)
            ins = [e for e in st.tr if e[0] == 'write' and e[1][0] == 'i' and e[1][1][0] == 'g']
            if has is True:
                seen.add('dup')
                res.check(k == 'x', 'duplicate', w, '%s: a second registration of the same type value is accepted' % T)
                res.check(not ins, 'duplicate-kept', w, '%s: a duplicate registration replaces the first one' % T)
            elif k == 'n':
                seen.add('new')
                keys = {e[1][2] for e in ins}
                res.check(len(keys) == 1, 'stored', w, '%s: registration stores %d entries' % (T, len(keys)))
                res.check(keys <= {C(ev[K])}, 'own-key', w, '%s: registered under %s' % (T, [show(x) for x in keys]))
                for e in ins:
                    if e[2][0] == '&':
                        dyn = st.mem.get(('dyn', e[2][1]))
                        if dyn:
                            res.check('<%s>' % T in dyn, 'own-class', e[3], '%s: the entry serves %s' % (T, dyn))
                res.check(v == TRUE or v[0] != 'c', 'result', w, '%s: registration reports failure' % T)
        res.check(seen == {'dup', 'new'}, 'cases', w, '%s: registration does not distinguish new from duplicate type values (%s)' % (T, sorted(seen)))
        g = [x for x in P.globals.values() if x['n'] == full + '::registered']
        init = g and g[0].get('i')
        calls = []
        if init:
            from sa.prog import walk
            calls = [x.get('fn') for x in walk(init) if x.get('k') == 'call']
        if not g:
            res.undecided('static-init', '%s: no static member found' % T)
        else:
            res.check(any(c and c.endswith('registerT') for c in calls), 'static-init', w, '%s is never registered at program start' % T)
        ctors = [x for x in P.funcs.values() if x['n'] == full + '::Register' and not x.get('implicit') and len(x['p']) == 0]
        for c in ctors:
            I = Interp(P, Pol())
            outs = I.run(c, this=OBJ)
            res.stats(I)
            for st, k, v in outs:
                ws = [e for e in st.tr if e[0] == 'write' and e[1] == ('f', OBJ, 'type')]
                res.check(k == 'n' and bool(ws) and ws[-1][2] == C(ev[K]), 'ctor-type', P.where(c), 'a new %s has type %s' % (T, show(ws[-1][2]) if ws else 'unset'))
        res.check(bool(ctors), 'ctor', w, '%s: no constructor sets the type' % T)
    # saving picks the entry of the object's own type
    outs, f = named(res, 'Yaml::TypeDiscriminated<WBase, WKind>::serialize_as_derived')
    own = ('init', ('f', ('*', ('parm', 0)), 'type'))
    for st, k, v in outs:
        hs = [(c, b) for c, b in st.facts.items() if c[0] == 'has']
        for c, b in hs:
            if b is False:
                res.check(k == 'x' and excname(v) == CE, 'save-unknown', P.where(f), 'saving an object of unregistered type is accepted')
        keys = {e[1][2] for e in st.tr if e[0] == 'deref' and e[1][0] == 'i' and e[1][1][0] == 'g'}
        for c, b in hs:
            keys.add(c[2])
        for kk in keys:
            res.check(mentions(kk, 'type'), 'save-key', P.where(f), 'the registry is searched for %s when saving' % show(kk))
    outs, f = named(res, 'Yaml::TypeDiscriminated<WBase, WKind>::deserialize_as_derived', opaque=('Yaml::deserialize',), args={1: (None, ('parm', 1))})
    for st, k, v in outs:
        d = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::deserialize' and 'WBase' in str(e[2])]
        for e in d:
            if len(e[4]) > 2 and ('o', 'P0') == e[4][1][0]:
                base = e[4][0][0]
                first = e is d[0]
                if first:
                    res.check(e[4][2][1] == TRUE, 'base-raw', e[5], 'the type is read with a full load of the base, so its hooks run twice')
        keys = [c[2] for c, b in st.facts.items() if c[0] == 'has']
        for kk in keys:
            if d:
                res.check(mentions(kk, d[0][4][0][0]) or any(isinstance(t, tuple) and t[:1] == ('top',) for t in tree(kk)), 'load-key', P.where(f), 'the registry is searched for %s when loading' % show(kk))


def registry_fact2(st):
    for c, b in st.facts.items():
        if c[0] == 'has':
            return b
        if c[0] == 'op' and c[1] == '==' and 'has' in repr(c)[:60]:
            return b
    return None


# ---- Y15 dispatch -----------------------------------------------------------------------------------
DISPATCH = {
    # function -> handlers in order: (parameter index, class, by pointer)
    'w_try_ab': [(1, 'WDerivedA', False), (2, 'WDerivedB', True)],
    'w_try_ba': [(2, 'WDerivedB', True), (1, 'WDerivedA', False)],
    'w_try_abn': [(1, 'WDerivedA', False), (2, 'WDerivedB', True), (3, None, False)],
    'w_try_base': [(1, 'WBase', False), (2, 'WDerivedA', False)],
    'w_try_a': [(1, 'WDerivedA', False)],
    'w_apply_ab': [(1, 'WDerivedA', False), (2, 'WDerivedB', True)],
    'w_apply_a': [(1, 'WDerivedA', False)],
    'w_apply_b': [(1, 'WDerivedB', True)],
}


def handler_calls(st):
    out = []
    for e in st.tr:
        if e[0] in ('call', 'call!') and (e[1] == 'std::function::operator()' or e[1].startswith('WHandler')) and e[3]:
            L, V = e[3]
            t = V[1] if V[0] == 'init' and V[1][0] == 'o' else L if L and L[0] == 'o' else None
            out.append((int(t[1][1:]) if t else None, e))
    return out


def y15(res, tier):
    res.rule('apply/try_apply: on every path exactly the first handler whose argument type the object is (dynamic type test) is called, once, with this very object; '
             'when none matches, apply throws and try_apply returns false; when one is called try_apply returns true; an exception thrown by a handler leaves apply/try_apply unchanged, whatever its type')
    P = prog()
    TH = [t for t in ('std::bad_cast', 'std::runtime_error')]
    throws = {n: TH for n in ('std::function::operator()', 'WHandlerA::operator()', 'WHandlerBPtr::operator()', 'WHandlerNone::operator()', 'WHandlerBase::operator()')}
    for name, hs in DISPATCH.items():
        outs, f = named(res, name, throws=throws)
        w = P.where(f)
        hit = set()
        for st, k, v in outs:
            calls = handler_calls(st)
            if any(c[0] is None for c in calls):
                res.undecided('handler', '%s: a handler call could not be attributed' % name)
                continue
            want = None
            for i, cls, ptr in hs:
                is_ = True if cls is None else isa_fact(st, cls)
                if is_ is None and cls == 'WBase':
                    is_ = not calls or calls[0][0] == i or None
                if is_ is None:
                    want = '?'
                    break
                if is_:
                    want = i
                    break
            if want == '?':
                res.check(False, 'type-tested', w, '%s: a path decides without testing whether the object is a %s' % (name, cls))
                continue
            hit.add(want)
            got = [c[0] for c in calls]
            res.check(got == ([want] if want is not None else []), 'first-match', w, '%s: calls handlers %s, the first matching one is %s' % (name, got, want))
            thrown = [c for c in calls if c[1][0] == 'call!']
            if thrown:
                res.check(k == 'x' and excname(v) == excname_of(thrown[0][1]), 'handler-exception', thrown[0][1][5],
                          '%s: a %s thrown by the handler is swallowed' % (name, excname_of(thrown[0][1])))
                continue
            if want is None:
                if name.startswith('w_apply'):
                    res.check(k == 'x', 'unhandled', w, '%s: an unhandled type is not reported' % name)
                else:
                    res.check(k == 'n' and v == FALSE, 'reports-false', w, '%s: reports that an unhandled object was handled' % name)
            else:
                res.check(k == 'n', 'handled', w, '%s: throws although a handler matched' % name)
                if name.startswith('w_try') and k == 'n':
                    res.check(v == TRUE, 'reports-true', w, '%s: reports that a handled object was not handled' % name)
                for c in calls:
                    cls, ptr = [(a, b) for i, a, b in hs if i == c[0]][0]
                    if cls:
                        a = c[1][4][0]
                        okobj = a[1] == ('&', OBJ) if ptr else a[0] == OBJ
                        res.check(okobj, 'same-object', c[1][5], '%s: the handler receives %s instead of the object' % (name, show(a[1])))
        for i, cls, ptr in hs[:1] if name == 'w_try_base' else hs:
            res.check(i in hit, 'reached', w, '%s: handler %d is never called' % (name, i))
        res.sample('%s: handlers reached %s' % (name, sorted(map(str, hit))))


def excname_of(e):
    return e[6] if len(e) > 6 and isinstance(e[6], str) else (e[6][0] if len(e) > 6 and isinstance(e[6], tuple) else None)


def isa_fact(st, cls):
    for c, b in st.facts.items():
        if c[0] == 'isa' and c[1] == OBJ and c[2].replace('struct ', '').strip() == cls:
            return b
    return None


# ---- Y17 no indeterminate values ----------------------------------------------------------------------
def y17(res, tier):
    res.rule('no value stored into a loaded object (list and array elements, optional values, pointees, returned objects) has an indeterminate part on any path of the loaders')
    P = prog()
    for T in ('WVecInt', 'WVecLeaf', 'WVecVec', 'WSetStr', 'WOptInt', 'WOptLeaf', 'WSp', 'WUp', 'WFix', 'WArr', 'WFixLeaf', 'WPlain', 'WEnum', 'WBool'):
        outs, f = deser(res, T, True)
        for st, k, v in outs:
            for e in st.tr:
                if e[0] != 'write' or not under(OBJ, e[1]):
                    continue
                bad = indeterminate(P, e[2], st)
                res.check(not bad, 'stored', e[3], '%s: a value whose %s was never initialised is stored in %s [%s]' % (T, bad, show(e[1]), facts_text(st, 4)))
            for L, V in st.mem.items():
                if L[0] == 'h' and k == 'n':
                    bad = indeterminate(P, V, st, L)
                    res.check(not bad, 'pointee', P.where(f), '%s: the new object has an uninitialised %s' % (T, bad))
    for f in entry_points(P):
        if f['ret'] == 'void' or not f['full'].endswith('<WPlain>'):
            continue
        for st, k, v in run_entry(res, f):
            for e in st.tr:
                if e[0] == 'call' and e[1] == 'Yaml::deserialize':
                    V = e[4][0][1]
                    res.check(V[0] != 'uninit', 'returned', e[5], '%s returns an object that starts uninitialised' % f['full'])


def indeterminate(P, V, st, L=None):
    if V[0] == 'uninit':
        return 'value'
    if V[0] == 'rec' and V[1][0] == 'uninit':
        return 'remaining members'
    if V[0] in ('some', 'pushed'):
        return indeterminate(P, V[-1], st)
    if V[0] == 'agg' and V[1] in ('list', 'set', 'arr'):
        for x in V[2]:
            r = indeterminate(P, x, st)
            if r:
                return r
    return None


# ---- Y20 validation helpers ---------------------------------------------------------------------------
def y20(res, tier):
    res.rule('validate_value returns its input exactly when it is in the allowed set, validate_map returns the mapped value exactly when the key is in the map, '
             'validate_filepath returns the absolute path exactly when the file exists; every other path throws ConfigurationException')
    P = prog()
    for name, res_of in (('w_value', lambda v: v == ('init', OBJ)), ('w_map', None), ('w_path', None)):
        outs, f = named(res, name)
        w = P.where(f)
        seen = set()
        for st, k, v in outs:
            if name == 'w_path':
                t = [b for c, b in st.facts.items() if mentions(c, 'std::filesystem::exists')]
                tested = [c for c, b in st.facts.items() if mentions(c, 'std::filesystem::exists')]
            else:
                t = [b for c, b in st.facts.items() if c[0] == 'has' and mentions(c[1], NODE) and c[2] == ('init', OBJ)]
                tested = t
            if not t:
                if k == 'n':
                    res.fail('tested', w, '%s: a value is accepted without being checked' % name)
                continue
            seen.add(t[0])
            if t[0]:
                res.check(k == 'n', 'accepts', w, '%s: an allowed value is rejected' % name)
                if k == 'n' and name == 'w_value':
                    res.check(v == ('init', OBJ), 'unchanged', w, '%s: returns %s instead of the value' % (name, show(v)))
                if k == 'n' and name == 'w_map':
                    res.check(mentions(v, NODE) and mentions(v, ('init', OBJ)), 'mapped', w, '%s: returns %s' % (name, show(v)))
                if k == 'n' and name == 'w_path':
                    res.check(mentions(v, ('init', OBJ)), 'path', w, '%s: returns %s' % (name, show(v)))
            else:
                res.check(k == 'x' and excname(v) == CE, 'rejects', w, '%s: a value that is not allowed is accepted' % name)
        res.check(seen == {True, False}, 'cases', w, '%s: does not distinguish allowed from other values' % name)
        res.sample('%s: %d paths' % (name, len(outs)))


def finds(x):
    if isinstance(x, dict):
        if x.get('k') == 'call' and strip_targs(x.get('fn') or '') in ('std::find_if', 'std::find_if_not', 'std::ranges::find_if', 'std::ranges::find_if_not') and x.get('a'):
            yield x
        for v in x.values():
            yield from finds(v)
    elif isinstance(x, list):
        for v in x:
            yield from finds(v)


def trims(res, P, f):
    """which characters the predicates of a splitting function drop at the ends of the text"""
    from checks import yp
    for e in finds(f['body']):
        lam = e['a'][-1]
        while lam.get('k') not in ('lambda', None) and len(lam.get('a') if isinstance(lam.get('a'), list) else [lam.get('a')]) == 1 and isinstance(lam.get('a'), (list, dict)):
            lam = lam['a'][0] if isinstance(lam['a'], list) else lam['a']
        g = P.funcs.get(lam.get('fid')) if lam.get('k') == 'lambda' else None
        if not g or len(g['p']) != 1 or lam.get('caps'):
            res.undecided('edges', 'the characters dropped at the ends of the text')
            continue
        right = 'reverse_iterator' in str(e.get('pt'))
        neg = strip_targs(e['fn']).endswith('_not')
        drop, unsure = set(), False
        for ch in range(9, 127):
            if 13 < ch < 32:
                continue
            I = Interp(P, yp.Pol())
            got = set()
            for st, k, v in I.run(g, args={0: (None, C(ch))}):
                if k != 'n':
                    continue
                ok = True
                for c, x in st.facts.items():
                    t = c[2] if c[0] == 'op' and c[1] == '==' and len(c) == 4 and c[3] == C(0) else c
                    if t[0] == 'call' and isinstance(t[1], str) and t[1].endswith('isspace') and isinstance(x, bool):
                        ok = ok and (x if t is c else not x) == (ch in (9, 10, 11, 12, 13, 32))
                if not ok:
                    continue
                b = yp.truth(v)
                if b is None and mentions(v, 'isspace') or b is None and 'isspace' in str(v):
                    inner = v
                    flip = False
                    while inner[0] in ('not', 'op', 'cast') and 'isspace' in str(inner):
                        if inner[0] == 'not':
                            flip, inner = not flip, inner[1]
                        elif inner[0] == 'op' and inner[1] == '==' and inner[3] == C(0):
                            flip, inner = not flip, inner[2]
                        elif inner[0] == 'op' and inner[1] == '!=' and inner[3] == C(0):
                            inner = inner[2]
                        else:
                            break
                    if inner[0] == 'call' and str(inner[1]).endswith('isspace'):
                        b = (ch in (9, 10, 11, 12, 13, 32)) != flip
                got.add(b)
            if len(got) != 1 or None in got:
                unsure = True
            elif got.pop() == neg:
                drop.add(chr(ch))
        if unsure:
            res.undecided('edges', 'the characters dropped at the ends of the text')
            continue
        w = P.where(e)
        extra = {c for c in drop if not c.isspace()} - {'[', ']'}
        res.check(not extra, 'edges', w, 'the text of a list loses %s at its %s' % (', '.join(repr(c) for c in sorted(extra)), 'end' if right else 'start'))
        if ' ' in drop or '[' in drop or ']' in drop:
            other = {strip_targs(c.get('fn') or '').rsplit('::', 1)[-1] for c in prog_mod.calls_in(f['body'])} & {'substr', 'pop_back', 'front', 'back', 'remove_prefix', 'remove_suffix', 'assign', 'replace'}
            if (']' if right else '[') in drop:
                res.ok('edges')
            elif other:
                res.undecided('edges', 'how the bracket is dropped')
            else:
                res.fail('edges', w, 'the bracket at the %s of a list text stays' % ('end' if right else 'start'))


def y10(res, tier):
    from checks import yp
    res.rule('conversion of a node to a list: every turn of the loop over the pieces appends exactly one new entry and gives it that piece, unchanged and in order; the pieces are those of the text of the node, separated by commas; a list node is used as it is')
    res.rule('splitting: the brackets at both ends are dropped; every turn reads exactly one piece and keeps exactly that piece, without the blanks on both sides; the loop ends only when the text is used up')
    P = prog()
    cons = [f for f in P.funcs.values() if f.get('body') and f['l'] and P.where(f).split(':')[0].endswith('yaml-serializable-containers.h')]

    def reads(f, seen=()):
        for e in prog_mod.calls_in(f["body"]):
            n = strip_targs(e.get('fn') or '')
            if n == 'std::getline':
                return True
        return False
    toks = [f for f in cons if reads(f)]
    convs = [f for f in cons if f['ret'].replace('Yaml::', '') == 'Node' and len(f['p']) == 1 and 'Node' in f['p'][0]['t']]
    if not convs:
        res.undecided('conversion', 'no function that converts a node to a list')

    class TP(yp.Pol):
        keep_facts = True
    split = {f['n'] for f in toks} - {f['n'] for f in convs}
    for f in convs:
        w = P.where(f)
        I = Interp(P, TP(opaque=tuple(split) + ('Yaml::Node::PushBack',)))
        outs = I.run(f)
        res.stats(I)
        N = ('init', ('o', 'P0'))
        for st, k, v in outs + [(s, 'more', None) for u, wh, s in I.backs]:
            seq = [val for c, val in st.facts.items() if c[0] == 'call' and c[1] == 'Yaml::Node::IsSequence' and mentions(c, ('o', 'P0'))]
            sca = [val for c, val in st.facts.items() if c[0] == 'call' and c[1] == 'Yaml::Node::IsScalar' and mentions(c, ('o', 'P0'))]
            for e in st.tr:
                if e[0] == 'call' and e[1] in split:
                    vals = [a[1] for a in e[4]]
                    res.check(any(x is not None and mentions(x, 'Yaml::Node::AsString') for x in vals), 'text', e[5], 'the text split is not that of the node')
                    sep = [x[1] for x in vals if x is not None and isc(x)]
                    res.check(not sep or sep[0] in (44, ','), 'separator', e[5], 'a list is split at %s' % (sep[0] if sep else ''))
            if k == 'n' and seq and seq[0] and not (sca and sca[0]):
                res.check(v == N, 'kept', w, 'a list node is converted to %s' % show(v))
            if k != 'more' and not (k == 'n' and any(e[0] == 'loop-' for e in st.tr)):
                continue
            push = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::Node::PushBack']
            if any(e[0] == 'call' and e[1] in split for e in st.tr):
                res.check(len(push) == 1, 'one-entry', w, 'a piece of the text makes %d entries' % len(push))
            for e in push:
                i = st.tr.index(e)
                new = ('*', e[6])
                ws = [x for x in st.tr[i:] if x[0] == 'write' and x[1] == new]
                if any(mentions(x[2], 'each') for x in ws):
                    res.check(len(ws) == 1 and ws[0][2][0] == 'part' , 'piece', ws[0][3], 'an entry is given %s' % show(ws[0][2]))
                elif not ws:
                    res.fail('piece', e[5], 'a new entry is not given its piece')
                elif any(isc(x[2]) for x in ws):
                    res.fail('piece', ws[0][3], 'an entry is given a fixed text')
                else:
                    res.undecided('piece', show(ws[0][2]))
        if any(g['n'] in split for g in toks):
            pass
    for f in toks:
        w = P.where(f)
        I = Interp(P, TP())
        outs = I.run(f)
        res.stats(I)
        trims(res, P, f)
        for st, k, v in outs + [(s, 'more', None) for u, wh, s in I.backs]:
            ins = [(i, e) for i, e in enumerate(st.tr) if e[0] == 'in']
            if k == 'x':
                res.fail('total', w, 'splitting a text raises %s' % v[0])
                continue
            if not ins:
                continue
            if len(ins) == 2 and all(x[0] == 'loop-' or x[0] == 'call' and x[3] is None for x in st.tr[ins[1][0] + 1:]):
                ins.pop()           # the read that decides whether there is another turn
            res.check(len(ins) == 1, 'one-piece', ins[-1][1][4], 'one turn of the loop reads %d pieces' % len(ins))
            i, e = ins[0]
            failed = [val for c, val in st.facts.items() if c[0] == 'call' and c[1] in ('std::basic_ios::operator bool', 'std::basic_ios::operator!', 'std::basic_ios::fail') and (val is False) == c[1].endswith('bool')]
            if k == 'n' and failed:
                res.ok('all')       # nothing was read: the text is used up
                continue
            sep = [x for x in e[6] if x is not None]
            if sep and isc(sep[0]):
                res.check(sep[0][1] == 44, 'separator', e[4], 'a list is split at %r' % chr(sep[0][1] % 256))
            elif not sep:
                res.fail('separator', e[4], 'a list is split at line ends')
            word = e[3]
            lst = [x for x in st.tr[i:] if x[0] == 'write' and x[2] and x[2][0] == 'pushed']
            lists = [t for L, t in st.mem.items() if isinstance(t, tuple) and t and t[0] == 'pushed']
            nl = len(lists)
            if k == 'more' or k == 'n':
                depth = 0
                t = v if k == 'n' else lists[0] if lists else None
                while t and t[0] == 'pushed':
                    depth += 1
                    t = t[1]
                res.check(depth == 1, 'kept', w, 'a piece that was read is kept %d times' % depth)
            calls = [x for x in st.tr[i:] if x[0] in ('call', 'write') and (x[0] == 'call' and x[3] is not None and x[3][0] == word or x[0] == 'write' and x[1] == word)]
            rest = str(calls) + str(lists)
            left = any(y in rest for y in ('find_first_not_of', 'find_if'))
            right = any(y in rest for y in ('find_last_not_of', 'rbegin'))
            other = any(e2[0] == 'call' for e2 in st.tr[i:] if e2 not in calls and not mentions(e2[6] if len(e2) > 6 else e2, 'eof'))
            loops = any(e2[0] in ('loop+', 'loop0') for e2 in st.tr[i:])
            if left and right:
                res.ok('trim')
                sets = {y[1] for t in tree(tuple(calls) + tuple(lists)) if isinstance(t, tuple) and t[:1] and t[0] == 'call' and len(t) > 2 and isinstance(t[1], str) and t[1].endswith('_not_of') for y in t[2:] if isc(y) and isinstance(y[1], str)}
                for x in sets:
                    res.check(' ' in x and ',' not in x and not any(ch.isalnum() for ch in x), 'trim', e[4], 'the characters dropped at the ends of a piece are %r' % x)
            elif other or loops:
                res.undecided('trim', 'how the blanks around a piece are dropped')
            else:
                res.fail('trim', e[4], 'the blanks %s a piece are kept' % ('around' if not left and not right else 'before' if not left else 'behind'))
            if k == 'n':
                end = [val for c, val in st.facts.items() if c[0] == 'call' and isinstance(c[1], str) and c[1].startswith('std::basic_ios')]
                res.check(bool(end), 'all', w, 'splitting ends before the text is used up')


CHECKS = {'Y01': y01, 'Y02': y02, 'Y03': y03, 'Y04': y04, 'Y05': y05, 'Y06': y06, 'Y07': y07, 'Y08': y08, 'Y09': y09, 'Y10': y10, 'Y11': y11,
          'Y12': y12, 'Y13': y13, 'Y14': y14, 'Y15': y15, 'Y16': y16, 'Y17': y17, 'Y20': y20}
