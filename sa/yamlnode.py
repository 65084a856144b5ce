"""Abstract model of Yaml::Node for analysing the code that uses it.

A node value is ('init', L) (unknown document node), ('none',), ('scalar', s),
('seq', n) with children at ('y', L, ('c', i)), or a component of those.  The
model is what Node promises (decided separately on Yaml.cpp): operator[] names
a child, Is* partition the kinds, Clear empties, PushBack appends."""
from .interp import C, TRUE, FALSE, isc
from .models import strv

KINDS = ('None', 'Scalar', 'Sequence', 'Map')


def kindof(V):
    if V == ('none',) or V[0] == 'uninit':
        return C('None')
    if V[0] == 'scalar':
        return C('Scalar')
    if V[0] == 'seq':
        return C('Sequence')
    if V[0] == 'rec':
        b = kindof(V[1])
        if b == C('None') and any(s[0][0] == 'y' for s, _ in V[2]):
            ks = [s[0][1] for s, v in V[2] if s[0][0] == 'y']
            return C('Map') if any(isc(k) and isinstance(k[1], str) for k in ks) else ('kind', V)
        return b
    return ('kind', V)


def is_kind(V, k):
    t = kindof(V)
    return C(t[1] == k) if isc(t) else ('op', '==', t, C(k))


def node_model(I, st, fr, e, L, args, name):
    m = name.rsplit('::', 1)[1]
    if m == 'Node':
        pts = e.get('pt') or []
        if not args:
            v = ('none',)
        elif 'Node' in pts[0]:
            v = args[0][1]
        else:
            v = ('scalar', strv(I, st, args[0][1]))
        I.write(st, L, v, e, event=False)
        return [(st, 'n', ('top', 'void', 0))]
    V = I.read(st, L)
    if m in ('IsNone', 'IsMap', 'IsSequence', 'IsScalar'):
        return [(st, 'n', is_kind(V, m[2:]))]
    if m == 'Type':
        k = kindof(V)
        return [(st, 'n', C(('None', 'Sequence', 'Map', 'Scalar').index(k[1])) if isc(k) else ('ktype', k))]
    if m == 'Clear':
        I.write(st, L, ('none',), e)
        return [(st, 'n', ('top', 'void', 0))]
    if m == 'Size':
        if V == ('none',):
            return [(st, 'n', C(0))]
        b = V[1] if V[0] == 'rec' else V
        return [(st, 'n', C(b[1]) if b[0] == 'seq' else ('size', V))]
    if m == 'operator[]':
        k = args[0][1]
        if isc(k) and isinstance(k[1], bool):
            k = C(int(k[1]))
        I.emit(st, ('child', L, k, I.loc(e)))
        return [(st, 'n', ('ref!', ('y', L, k)))]
    if m == 'operator=':
        v = args[0][1]
        if 'Node' not in e['pt'][0]:
            v = ('scalar', strv(I, st, v))
        I.write(st, L, v, e)
        return [(st, 'n', ('ref!', L))]
    if m == 'PushBack':
        b = V[1] if V[0] == 'rec' else V
        if b[0] == 'seq' and isinstance(b[1], int):
            n = b[1]
            st.mem[L] = ('seq', n + 1)
            c = ('y', L, C(n))
        elif b == ('none',) or b[0] in ('scalar',):
            I.write(st, L, ('seq', 1), e, event=False)
            c = ('y', L, C(0))
        else:
            st.mem[L] = ('pushedseq', b if b[0] != 'pushedseq' else b[1])
            c = ('y', L, ('push', I.uid(e)))
        I.write(st, c, ('none',), e, event=False)
        I.emit(st, ('pushback', L, c, I.loc(e)))
        return [(st, 'n', ('ref!', c))]
    if m == 'Erase':
        b = V[1] if V[0] == 'rec' else V
        k = args[0][1]
        if b[0] == 'seq' and isc(k) and k[1] == b[1] - 1:
            I.write(st, L, ('seq', b[1] - 1), e)
        else:
            I.havoc(st, L, e)
        return [(st, 'n', ('top', 'void', 0))]
    if m in ('As', 'AsString'):
        t = e['ta'][0] if m == 'As' else 'std::string'
        if 'basic_string' in t or t == 'std::string':
            if V[0] == 'scalar':
                return [(st, 'n', V[1])]
            t = 'std::string'
        if len(args) > 0 and m == 'As':
            return [(st, 'n', ('as', t, V, args[0][1]))]
        return [(st, 'n', ('as', t, V))]
    if m == 'Begin':
        return [(st, 'n', ('yit', L, V, C(0)))]
    if m == 'End':
        return [(st, 'n', ('yend', L, V))]
    return NotImplemented


def iter_model(I, st, fr, e, L, args, name):
    m = name.rsplit('::', 1)[1]
    if m in ('Iterator', 'ConstIterator'):
        if args:
            I.write(st, L, args[0][1], e, event=False)
        return [(st, 'n', ('top', 'void', 0))]
    if m in ('~Iterator', '~ConstIterator'):
        return [(st, 'n', ('top', 'void', 0))]
    V = I.read(st, L)
    if m == 'operator=':
        I.write(st, L, args[0][1], e)
        return [(st, 'n', ('ref!', L))]
    if m == 'operator++':
        if V[0] == 'yit':
            nv = ('yit', V[1], V[2], I.arith('+', V[3], C(1)))
            I.emit(st, ('advance', V[1], V[3], I.loc(e)))
        else:
            nv = ('itnext', V)
        I.write(st, L, nv, e)
        return [(st, 'n', ('ref!', L) if not args else V)]
    if m in ('operator==', 'operator!='):
        o = args[0][1]
        a, b = (V, o) if o[0] == 'yend' else (o, V)
        c = ('atend', b[2] if b[0] == 'yend' else b, a[3] if a[0] == 'yit' else a)
        return [(st, 'n', c if m == 'operator==' else I.neg(c))]
    if m == 'operator*':
        if V[0] == 'yit':
            nl, nv, pos = V[1], V[2], V[3]
        else:
            nl, nv, pos = ('*', V), V, V
        T = ('t', fr.d, ('yit*', I.uid(e)))
        key = ('t', fr.d, ('ykey*', I.uid(e)))
        st.mem[key] = ('ykey', nv, pos)
        child = ('y', nl, ('pos', pos))
        st.mem[('f', T, 'first')] = ('&', key, 'ref')
        st.mem[('f', T, 'second')] = ('&', child, 'ref')
        return [(st, 'n', ('ref!', T))]
    return NotImplemented


def model(I, name):
    if name.startswith('Yaml::Node::'):
        return node_model
    if name.startswith('Yaml::Iterator::') or name.startswith('Yaml::ConstIterator::'):
        return iter_model
    return None
