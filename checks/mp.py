"""Family M: the input parsers of the multiphysics application. One block of the input file at a time is described by its
keys; the parser is interpreted on it with every value unknown."""
import glob
import os
import re
import tempfile
from sa import facts
from sa.interp import St, Interp, Policy, Undecided, C, NULL, isc, tree, strip_targs, mentions, root
from sa.models import strv
from checks.ev import one

SRC = facts.REPO + '/apps/multiphysics/src'
Y = 'Yaml::Node::'
ROOT = ('o', 'P0')
MTR = re.compile(r'mtr::(\w+)::(.*)$')


_units = {}


def unit(res, name):
    """the parser together with the helpers it calls"""
    if name not in _units:
        dirs = sorted(d for d, _, _ in os.walk(SRC))
        fd, tu = tempfile.mkstemp(suffix='.cpp', prefix=name + '-')
        with os.fdopen(fd, 'w') as f:
            f.write(''.join('#include "%s/input/%s.cpp"\n' % (SRC, s) for s in ('parse_tools', name)))
        try:
            _units[name] = facts.facts(tu, ['-std=c++17', '-w', '-I' + facts.VERIF + '/stubs/mp'] + ['-I' + d for d in dirs]
                                       + ['-I' + facts.VERIF + '/stubs/inc'], [facts.REPO], allow_errors=True)
        finally:
            os.unlink(tu)
        _units[name].source = 'apps/multiphysics/src/input/%s.cpp' % name
    if res is not None:
        res.unit(_units[name])
    return _units[name]


def path(L):
    p = ()
    while L is not None and L[0] == 'y':
        p = (L[2],) + p
        L = L[1]
    return p if L == ROOT else None


def key(t):
    return t[1] if isc(t) else t


class YP(Policy):
    """the document: keys per block, texts per entry, lengths per list; every other value is unknown"""
    max_unroll = 40
    max_states = 3000
    keep_facts = False
    opaque = ('exact_array_values',)
    pure = ('exact_array_values', 'std::stod', 'std::stoi', 'std::stof', 'std::stol', 'atof', 'atoi')

    def __init__(self, keys, texts=None, sizes=None):
        self.keys, self.texts, self.sizes = keys, texts or {}, sizes or {}

    def keep(self, ev, st):
        return ev if ev[0] in ('push', 'note') else None

    def name(self, p):
        return tuple(key(k) for k in p)

    def model(self, I, name):
        if name.startswith(Y):
            return self.node
        if name.startswith('Yaml::Iterator::') or name.startswith('Yaml::ConstIterator::'):
            return self.iter
        if name == 'Yaml::operator!=' or name == 'Yaml::operator==':
            return self.iter
        m = MTR.match(name)
        if m:
            return self.matar
        if name == 'mtr::each':
            return self.each
        if name == 'std::all_of' or name == 'std::any_of' or name == 'std::none_of':
            return self.quantifier
        if name == 'std::for_each':
            return self.for_each
        if name.startswith('std::') and name.count('::') == 1:
            return self.closure
        if name in ('std::operator<<', 'std::basic_ostream::operator<<', 'printf', 'std::printf', 'Kokkos::printf'):
            return self.out
        return None

    def out(self, I, st, fr, e, L, args, name):
        S = L if L is not None else args[0][0] if args else None
        return [(st, 'n', ('ref!', S) if S is not None and e.get('t') != 'int' else C(0))]

    def each(self, I, st, fr, e, L, args, name):
        a, b = args[0][1], args[1][1]
        if isc(a) and isc(b) and b[1] == a[1] + 1:
            return [(st, 'n', a)]
        I.P.ucount += 1
        return [(st, 'n', ('each', I.P.ucount, args[0][1], args[1][1]))]

    def closure(self, I, st, fr, e, L, args, name):
        """an algorithm without a model may call what it is given any number of times"""
        if any(v is not None and v[0] == 'lam' for _, v in args):
            raise Undecided('%s is not modelled' % name)
        return self.out(I, st, fr, e, L, args, name) if name == 'std::operator<<' else NotImplemented

    def for_each(self, I, st, fr, e, L, args, name):
        b, f = args[0][1], args[2][1]
        if b[0] != 'begin' or b[1][0] != 'agg':
            raise Undecided('for_each over an unknown range')
        cur, done = [st], []
        for x in b[1][2]:
            nxt = []
            for s in cur:
                s = s.copy()
                T = ('o', ('elt', x))
                s.mem[T] = x
                for s2, k, v in I.call_value(f, e, s, fr, [(T, x)]):
                    (nxt if k in ('n', 'ret') else done).append(s2 if k in ('n', 'ret') else (s2, k, v))
            cur = nxt
        return done + [(s, 'n', f) for s in cur]

    def quantifier(self, I, st, fr, e, L, args, name):
        b, f = args[0][1], args[2][1]
        if b[0] != 'begin' or b[1][0] != 'agg':
            raise Undecided('%s over an unknown range' % name)
        want = {'std::all_of': False, 'std::any_of': True, 'std::none_of': True}[name]
        cur, done = [st], []
        for x in b[1][2]:
            nxt = []
            for s in cur:
                s = s.copy()
                T = ('o', ('elt', x))
                s.mem[T] = x
                for s2, k, v in I.call_value(f, e, s, fr, [(T, x)]):
                    if k not in ('n', 'ret'):
                        done.append((s2, k, v))
                        continue
                    for s3, r in I.branch(s2, I.tobool(v)):
                        if r == want:
                            done.append((s3, 'n', C(name == 'std::any_of')))
                        else:
                            nxt.append(s3)
            cur = nxt
        return done + [(s, 'n', C(name != 'std::any_of')) for s in cur]

    # ---- the document ---------------------------------------------------------------------------
    def node(self, I, st, fr, e, L, args, name):
        m = name[len(Y):]
        if m == 'operator[]':
            k = strv(I, st, args[0][1])
            return [(st, 'n', ('ref!', ('y', L, k)))]
        p = path(L)
        if p is None:
            return NotImplemented
        n = self.name(p)
        if m == 'Size':
            if n in self.keys:
                return [(st, 'n', C(len(self.keys[n])))]
            if n in self.sizes:
                return [(st, 'n', C(self.sizes[n]))]
            return [(st, 'n', ('size', ('doc',) + p))]
        if m == 'As' or m == 'AsString' or m.startswith('As<'):
            t = (e.get('ta') or ('',))[0]
            t = t if isinstance(t, str) else ''
            if n in self.texts:
                return [(st, 'n', C(self.texts[n]))]
            return [(st, 'n', ('as', t, ('doc',) + p))]
        if m in ('Begin', 'End'):
            if n not in self.keys:
                raise Undecided('the entries of %s are visited' % (n,))
            return [(st, 'n', ('yit', L, C(0 if m == 'Begin' else len(self.keys[n]))))]
        if m in ('IsNone', 'IsMap', 'IsSequence', 'IsScalar', 'Type'):
            if m == 'IsNone' and (n in self.keys or n in self.texts or n in self.sizes):
                return [(st, 'n', C(False))]
            if n in self.keys and m != 'Type':
                return [(st, 'n', C(m == 'IsMap'))]
            return [(st, 'n', ('call', m, ('doc',) + p))]
        return NotImplemented

    def iter(self, I, st, fr, e, L, args, name):
        m = name.rsplit('::', 1)[1]
        if m in ('operator!=', 'operator=='):
            a = [I.read(st, L)] if L is not None else []
            a += [v for _, v in args]
            if len(a) == 2 and a[0][0] == a[1][0] == 'yit' and a[0][1] == a[1][1]:
                return [(st, 'n', C((a[0][2] == a[1][2]) == (m == 'operator==')))]
            return NotImplemented
        if L is None:
            return NotImplemented
        v = I.read(st, L)
        if m in ('Iterator', 'ConstIterator'):
            if args and args[0][1] is not None and args[0][1][0] == 'yit':
                I.write(st, L, args[0][1], e, event=False)
                return [(st, 'n', None)]
            return NotImplemented
        if m == 'operator=':
            I.write(st, L, args[0][1], e, event=False)
            return [(st, 'n', ('ref!', L))]
        if v[0] != 'yit':
            return NotImplemented
        if m == 'operator++':
            I.write(st, L, ('yit', v[1], C(v[2][1] + 1)), e, event=False)
            return [(st, 'n', ('ref!', L) if not args else v)]
        if m in ('operator*', 'operator->'):
            k = self.keys[self.name(path(v[1]))][v[2][1]]
            T = ('f', ('*', v), 'pair')
            X = ('o', ('key', k))
            st.mem[X] = C(k)
            st.mem[('f', T, 'first')] = ('&', X)
            st.mem[('f', T, 'second')] = ('&', ('y', v[1], C(k)))
            return [(st, 'n', ('ref!', T) if m[-1] == '*' else ('&', T))]
        return NotImplemented

    # ---- arrays ---------------------------------------------------------------------------------
    def matar(self, I, st, fr, e, L, args, name):
        cls, m = MTR.match(name).groups()
        if m == cls or m == '~' + cls:
            I.write(st, L, ('array', cls), e, event=False)
            return [(st, 'n', None)]
        if m == 'operator=':
            return [(st, 'n', ('ref!', L))]
        if L is not None and L[0] == 'f' and L[2] == 'host':
            L = L[1]
        if m == 'operator()':
            for _, v in args:
                L = ('i', L, v)
            return [(st, 'n', ('ref!', L))]
        if m in ('update_host', 'update_device', 'set_values'):
            return [(st, 'n', C(None))]
        return NotImplemented


def words(L):
    """the fields of a location, and its indices"""
    w = []
    while isinstance(L, tuple) and L[0] in 'fiy':
        w.append(L[2] if L[0] == 'f' else key(L[2]))
        L = L[1]
    return tuple(reversed(w)), L


def docs(t):
    return {tuple(key(k) for k in x[1:]) for x in tree(t) if isinstance(x, tuple) and x and x[0] == 'doc'}


def analyse(P, fn, keys, texts=None, sizes=None, args=None):
    f = one(None, P, fn)
    pol = YP(keys, texts, sizes)
    I = Interp(P, pol)
    outs = I.run(f, args=args)
    if REPORT:
        REPORT[0].stats(I)
    return f, outs


def accepted(outs):
    return [o for o in outs if o[1] in ('n', 'ret')]


def stores(o):
    """field (without indices) -> values, of everything a parser leaves behind: its output parameters and its tables"""
    out = {}
    for L, V in o[0].mem.items():
        w, r = words(L)
        if r[0] == 'v':
            w = (r[3],) + w
        elif r[0] != 'o' or r == ROOT or isinstance(r[1], tuple):
            continue
        name = tuple(x for x in w if isinstance(x, str))
        idx = tuple(x for x in w if not isinstance(x, str))
        out.setdefault(name, []).append((idx, V, L))
    return out



# ---- what the documentation says ----------------------------------------------------------------
REAL, INT, TEXT, FLAG = 'real', 'integer', 'text', 'flag'


class V:
    """the value of one entry, or of one part of it"""
    def __init__(self, kind, path, part=None):
        self.kind, self.path, self.part = kind, path, part

    def __str__(self):
        return 'the %s of %s' % (self.kind if self.part is None else 'part %d' % self.part, '.'.join(str(x) for x in self.path))

    def fits(self, P, v):
        if docs(v) != {self.path}:
            return False
        got = None
        for x in tree(v):
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == 'op' and (x[1] != 'trunc' or self.kind == REAL):
                return False
            if x[0] == 'call' and x[1] not in YP.pure:
                return False
            if x[0] == 'call' and x[1] in ('std::stoi', 'std::stol', 'atoi') and self.kind == REAL:
                return False
            if x[0] == 'as':
                got = x[1]
            if x[0] == 'part' and self.part is not None and not any(y == C(self.part) for y in x[2:]):
                return False
        if self.part is not None and not any(isinstance(x, tuple) and x and x[0] == 'part' for x in tree(v)):
            return False
        conv = any(isinstance(x, tuple) and x and x[0] == 'call' and x[1].startswith(('std::sto', 'ato')) for x in tree(v))
        text = got is not None and ('basic_string' in got or got == 'std::string')
        if self.kind == TEXT:
            return text and not conv
        if text:
            return conv
        if self.kind == REAL:
            return got in ('double', 'float', 'real_t')
        if self.kind == FLAG:
            return got == 'bool'
        return got is not None and got not in ('double', 'float', 'bool')


class E:
    """an enumerator or a constant"""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return str(self.name)

    def fits(self, P, v):
        if not isinstance(self.name, str):
            return isc(v) and v[1] == self.name
        scope, n = self.name.rsplit('::', 1) if '::' in self.name else ('', self.name)
        want = {x['v'] for k, d in P.enums.items() for x in d['e'] if x['n'] == n and (k == scope or k.startswith(scope + '::'))}
        return isc(v) and v[1] in want and len(want) == 1


class F:
    """a function of a model"""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name

    def fits(self, P, v):
        return any(isinstance(x, tuple) and x and x[0] in ('fn', 'fref') and self.name in x for x in tree(v))


class Has:
    """a list of chosen fields, in the order they were given"""
    def __init__(self, names):
        self.names = names

    def __str__(self):
        return 'the list of ' + ', '.join(n.name.rsplit('::')[-1] for n in self.names)

    def fits(self, P, v):
        got = []
        while isinstance(v, tuple) and v and v[0] == 'pushed':
            got.insert(0, v[2])
            v = v[1]
        if isinstance(v, tuple) and v and v[0] == 'agg':
            got = list(v[2]) + got
        return len(got) >= len(self.names) and all(n.fits(P, g) for n, g in zip(self.names, got))


class Scope:
    """one block of the input file
    at: the field of the outputs a block with identifier n lands in; keys: entry -> expected stores; options: entry -> text -> stores"""
    def __init__(self, title, unit, fn, base, required, keys, options, args=None, ids=(), inner=None, texts=None, more=None, sub=(), also=()):
        self.title, self.unit, self.fn, self.base, self.required = title, unit, fn, base, required
        self.keys, self.options, self.args, self.ids = keys, options, args, ids
        self.inner = inner or {}
        self.texts = texts or {}
        self.more = more or {}
        self.sub = sub
        self.also = also
        self.memo = {}

    def config(self, keys=(), texts=None, sizes=None, drop=(), blocks=None):
        """outputs of every accepted path of one input block with the required entries, those of the block and the given ones"""
        P = unit(None, self.unit)
        b = self.base
        K, T, S = {}, {}, {}
        lst = len(b) > 1 and b[1] == 0
        for n in range(len(blocks) if blocks else 1):
            bb = (b[0], n) + b[2:] if lst else b
            K[bb] = [k for k in self.required if k not in drop]
            for q, ks in self.inner.items():
                K[bb + q] = [k for k in ks if q != self.sub or k not in drop]
            at = bb + self.sub
            K[at] = K.get(at, []) + [k for k in keys if k not in K.get(at, [])]
            for i in self.ids:
                T[bb + (i,)] = blocks[n] if blocks and (i != 'material_id') else 0
            T.update({bb + k: t for k, t in self.texts.items()})
            T.update({at + (k if isinstance(k, tuple) else (k,)): t for k, t in (texts or {}).items()})
            S.update({at + (k,): n2 for k, n2 in (sizes or {}).items()})
        if lst:
            S[b[:1]] = len(blocks) if blocks else 1
        if b == ('multimaterial_options',):
            K[()] = [b[0]]
        f, outs = analyse(P, self.fn, K, T, S, self.args)
        return P, f, [outputs(o) for o in accepted(outs)], len(outs)

    def base_paths(self):
        if 'base' not in self.memo:
            self.memo['base'] = self.config()
        return self.memo['base'][2]


def outputs(o):
    """what the caller can see: output parameters and globals"""
    out = {}
    for L, v in o[0].mem.items():
        w, r = words(L)
        if r[0] == 'o' and r != ROOT and not isinstance(r[1], tuple):
            out[(str(r[1]),) + w] = v
    return out


def differs(a, b):
    out = {k for k, v in a.items() if b.get(k, 0) != v} | {k for k in b if k not in a}
    return out


def show(v):
    if v is None:
        return 'nothing'
    if isc(v):
        return repr(v[1])
    if v[0] == 'fn':
        return v[2]
    d = docs(v)
    if d:
        return 'a value made of ' + ', '.join('.'.join(str(x) for x in p) for p in sorted(d, key=str))
    return v[0]


def agrees(res, s, tag, P, f, paths, expect, extra=(), frame=True, skip=(), short=False):
    """every accepted path holds the expected stores and no other store the required entries alone would not make"""
    w = P.where(f)
    if not paths:
        return res.fail('accepted', w, '%s: %s is refused' % (s.title, tag))
    res.ok('accepted')
    base = s.base_paths()
    for x in paths:
        bad = False
        for loc, m in expect:
            v = x.get(loc)
            if short and isinstance(m, V) and m.part is not None and v is not None and isc(v) and v[1] == 0:
                continue        # the point has fewer parts on this path
            if v is None or not m.fits(P, v):
                bad = True
                res.fail('stored', w, '%s: with %s, %s holds %s instead of %s' % (s.title, tag, place(loc), show(v), m))
            else:
                res.ok('stored')
        if bad or not base or not frame:
            continue
        want = {loc for loc, _ in expect} | set(skip)
        new = min((differs(x, y) - want for y in base), key=len)
        for loc in sorted(new, key=str):
            v = x.get(loc)
            if any(a in loc for a in s.also) or any(a in loc for a in extra) or \
               (v is not None and not isc(v) and v[0] != 'fn' and not docs(v)):
                continue
            res.fail('only', w, '%s: %s also changes %s to %s' % (s.title, tag, place(loc), show(v)))
        res.ok('only')


def place(loc):
    return '.'.join(str(k) if not isinstance(k, tuple) else '?' for k in loc[1:])


def same(P, names, kind, b, sub=()):
    """entries stored in fields of their own names"""
    return {n: [((P,) + (n,), V(kind, b + sub + (n,)))] for n in names.split()}


def table(d, at):
    return {t: [(at, E(n))] for t, n in d.items()}


def pairs(s):
    return [tuple(x.split(':', 1)) if ':' in x else (x, x) for x in s.split()]


def dynamic():
    b = ('dynamic_options',)
    k = same('P1', 'time_initial time_final dt_min dt_max dt_start dt_cfl fuzz tiny small', REAL, b)
    k.update(same('P1', 'cycle_stop rk_num_stages', INT, b))
    return Scope('dynamic_options', 'parse_dynamic_inputs', 'parse_dynamic_options', b, ['time_final', 'cycle_stop'], k, {})


def output():
    b = ('output_options',)
    k = same('P1', 'graphics_time_step', REAL, b)
    k.update(same('P1', 'graphics_iteration_step', INT, b))
    o = {'output_file_format': {t: [(('P1', 'format'), E('output_options::' + t))] for t in 'viz ensight state viz_and_state'.split()},
         'timer_output_level': {'thorough': [(('P1', 'timer_level'), E('output_options::thorough'))]}}
    lists = {}
    for key_, fld, names in (('elem_field_outputs', 'output_elem_state', 'den:material_pt_state::density pres:material_pt_state::pressure stress:material_pt_state::stress sie:material_pt_state::specific_internal_energy sspd:material_pt_state::sound_speed mass:material_pt_state::mass'),
                            ('node_field_outputs', 'output_node_state', 'coords:node_state::coords vel:node_state::velocity temp:node_state::temp mass:node_state::mass force:node_state::force grad_level_set:node_state::gradient_level_set'),
                            ('gauss_pt_field_outputs', 'output_gauss_pt_state', 'volume:gauss_pt_state::volume level_set:gauss_pt_state::level_set vel_grad:gauss_pt_state::gradient_velocity'),
                            ('mat_pt_field_outputs', 'output_mat_pt_state', 'den:material_pt_state::density pres:material_pt_state::pressure stress:material_pt_state::stress sie:material_pt_state::specific_internal_energy sspd:material_pt_state::sound_speed mass:material_pt_state::mass volfrac:material_pt_state::volume_fraction eroded:material_pt_state::eroded_flag')):
        lists[key_] = (('P1', fld), pairs(names))
    s = Scope('output_options', 'parse_output_options', 'parse_output_options', b, [], k, o)
    s.lists = lists
    return s


def mesh():
    b = ('mesh_options',)
    k = same('P1', 'inner_radius outer_radius starting_angle ending_angle scale_x scale_y scale_z', REAL, b)
    k.update(same('P1', 'num_radial_elems num_angular_elems', INT, b))
    k['polynomial_order'] = [(('P1', 'p_order'), V(INT, b + ('polynomial_order',)))]
    k['num_dims'] = [(('P1', 'num_dims'), V(INT, b + ('num_dims',)))]
    for a, kind in (('origin', REAL), ('length', REAL), ('num_elems', INT)):
        k[a] = [(('P1', a, j), V(kind, b + (a,), j)) for j in range(2)]
    s = Scope('mesh_options', 'parse_mesh_inputs', 'parse_mesh_inputs', b, ['source', 'num_dims'], k,
              {'type': {'box': [(('P1', 'type'), E('mesh_input::type::Box'))], 'polar': [(('P1', 'type'), E('mesh_input::type::Polar'))]}},
              texts={('source',): 'generate'})
    s.loose = {('P1', a, 2): (a, b + (a,)) for a in ('origin', 'length', 'num_elems')}
    return s


def solver():
    b = ('solver_options', 0, 'solver')
    k = {'time_end': [(('P1', 0, 'time_end'), V(REAL, b + ('time_end',)))],
         'use_moving_heat_source': [(('P1', 0, 'use_moving_heat_source'), V(FLAG, b + ('use_moving_heat_source',)))]}
    o = {'method': {t: [(('P1', 0, 'method'), E('solver_input::method::' + n))] for t, n in
                    pairs('dynx_FE:SGH3D dynx_FE_rz:SGHRZ thrmex_FE:SGTM3D level_set:levelSet qstatx_FE:TLQS3D')}}
    return Scope('solver_options', 'parse_solver_inputs', 'parse_solver_input', b, ['method', 'id'], k, o, ids=('id',), texts={('method',): 'dynx_FE'})


BN = (None, C(1))


def conditions():
    b = ('boundary_conditions', 0, 'boundary_condition')
    en, fu = ('P1', 'BoundaryConditionEnums', 0), ('P1', 'BoundaryConditionFunctions', 0)

    def listed(kind):
        return [(('P1', 'num_%s_bdy_sets_in_solver' % kind, 0), E(1)), (('P1', '%s_bdy_sets_in_solver' % kind, 0, 0), E(0))]
    o = {'velocity_model': {t: [(en + ('BCVelocityModel',), E('boundary_conditions::' + n)), (fu + ('velocity',), F(c + '::velocity'))] + listed('vel')
                            for t, n, c in (('constant', 'constantVelocityBC', 'ConstantVelocityBC'), ('time_varying', 'timeVaryingVelocityBC', 'TimeVaryingVelocityBC'),
                                            ('reflected', 'reflectedVelocityBC', 'ReflectedVelocityBC'), ('fixed', 'zeroVelocityBC', 'ZeroVelocityBC'),
                                            ('user_defined', 'userDefinedVelocityBC', 'UserDefinedVelocityBC'), ('piston', 'pistonVelocityBC', 'PistonVelocityBC'))},
         'temperature_model': {t: [(en + ('BCTemperatureModel',), E('boundary_conditions::%sTemperatureBC' % t))] + listed('temperature')
                               for t in ('constant', 'convection', 'radiation')},
         'location': {t: [(en + ('Location',), E('boundary_conditions::BCFcnLocation::' + t))] for t in ('host', 'device')},
         'stress_model': {t: [(en + ('BCStressModel',), E('boundary_conditions::' + n))] + ([(fu + ('stress',), F(c + '::stress'))] if c else []) + m + listed('stress')
                          for t, n, c, m in (('constant', 'constantStressBC', 'ConstantStressBC', []), ('time_varying', 'timeVaryingStressBC', 'TimeVaryingStressBC', []),
                                             ('user_defined', 'userDefinedStressBC', 'UserDefinedStressBC', []),
                                             ('fracture', 'fractureStressBC', 'fractureStressBC', [(('P1', 'allow_fracture'), E(True)), (('P1', 'fracture_bc_id'), E(0))]))}}
    k = {}
    for q in ('velocity', 'temperature', 'stress'):
        n = q + '_bc_global_vars'
        k[n] = [(('P1', n, 0, j), V(REAL, b + (n, j))) for j in range(2)] + [(('P1', 'num_' + n, 0), E(2))]
    k['contact_bc_vars'] = [(('P1', n), V(INT, b + ('contact_bc_vars', j))) for j, n in enumerate(('contact_max_local_iter', 'contact_max_global_iter'))]
    return Scope('boundary_condition', 'parse_bdy_conds_inputs', 'parse_bcs', b, ['solver_id', 'surface'], k, o, {2: BN}, ('solver_id',), {('surface',): []},
                 also=('temperature',))


def surface():
    b = ('boundary_conditions', 0, 'boundary_condition')
    at = ('P1', 'BoundaryConditionSetup', 0)
    sb = b + ('surface',)
    k = {'plane_position': [(at + ('value',), V(REAL, sb + ('plane_position',)))], 'radius': [(at + ('value',), V(REAL, sb + ('radius',)))],
         'tolerance': [(at + ('tolerance',), V(REAL, sb + ('tolerance',)))],
         'origin': [(at + ('origin', j), V(REAL, sb + ('origin',), j)) for j in range(2)]}
    s = Scope('boundary_condition.surface', 'parse_bdy_conds_inputs', 'parse_bcs', b, ['solver_id', 'surface'], k,
              {'type': {t: [(at + ('surface',), E('boundary_conditions::BdyTag::' + n))] for t, n in pairs('x_plane:xPlane y_plane:yPlane z_plane:zPlane cylinder sphere global')}},
              {2: BN}, ('solver_id',), {('surface',): []}, sub=('surface',))
    s.loose = {at + ('origin', 2): ('origin', sb + ('origin',))}
    return s


def multi():
    b = ('multimaterial_options',)
    k = {'max_num_mats_per_element': [(('P1', 'max_num_mats_per_element'), V(INT, b + ('max_num_mats_per_element',)))]}
    for q, n in (('mat_', ''), ('geo_', 'geo_')):
        v = n + 'equilibration_global_vars'
        k[q + 'equilibration_global_vars'] = [(('P1', v, j), V(REAL, b + (q + 'equilibration_global_vars', j))) for j in range(2)] + [(('P1', 'num_' + v), E(2))]
    o = {q: {t: [(('P1', f), E('model::EquilibrationModels::' + n))] for t, n in pairs('no_equilibration:noEquilibration tipton:tiptonEquilibration user_defined:userDefinedEquilibration')}
         for q, f in (('mat_equilibration_model', 'EquilibrationModels'), ('geo_equilibration_model', 'GeoEquilibrationModels'))}
    s = Scope('multimaterial_options', 'parse_material_inputs', 'parse_multimaterial_options', b, [], k, o)
    return s


def materials(dim=3):
    b = ('materials', 0, 'material')
    fu, en = ('P1', 'MaterialFunctions', 0), ('P1', 'MaterialEnums', 0)
    k = {n: [(fu + (n,), V(REAL, b + (n,)))] for n in 'erode_tension_val erode_density_val normal_velocity curvature_velocity'.split()}
    for q, n in (('eos', 2), ('strength', 2), ('dissipation', 6)):
        v = q + '_global_vars'
        k[v] = [(('P1', v, 0, j), V(REAL, b + (v, j))) for j in range(n)] + [(('P1', 'num_' + v, 0), E(n))]

    def fns(d, *names):
        return {t: [(fu + (n,), F(c + '::' + n)) for n in names] for t, c in d.items()}
    strength = {'no_strength': 'NoStrengthModel', 'user_defined_strength': 'UserDefinedStrengthModel', 'host_ann_strength': 'HostANNStrengthModel'}
    strength['hypo_plasticity_strength' if dim == 3 else 'hypo_plasticity_strength_rz'] = 'HypoPlasticityModel' if dim == 3 else 'HypoPlasticityRZModel'
    o = {'eos_model_type': {t: [(en + ('EOSType',), E('model::EOSType::' + n))] for t, n in pairs('coupled:coupledEOSType decoupled:decoupledEOSType')},
         'strength_model_type': {'no_strength': [(en + ('StrengthType',), E('model::StrengthType::noStrengthType'))], 'increment_based': [(en + ('StrengthType',), E('model::StrengthType::incrementBased'))]},
         'strength_model': fns(strength, 'calc_stress', 'init_strength_state_vars'),
         'erosion_model': fns({'no_erosion': 'NoErosionModel', 'basic': 'BasicErosionModel'}, 'erode'),
         'level_set_type': {t: [(en + ('levelSetType',), E('model::levelSetType::' + n))] for t, n in pairs('no_level_set:noLevelSet evolve_front:evolveFront')}}
    s = Scope('material (%dD)' % dim, 'parse_material_inputs', 'parse_materials', b, ['id'], k, o, {2: (None, C(dim))}, ('id',))
    eos = {t: [(fu + (f,), F(c + '::' + f)) for f in ('calc_pressure', 'calc_sound_speed')] + [(en + ('EOSModels',), E('model::EOSModels::' + n))] for t, c, n in
           (('gamma_law_gas', 'GammaLawGasEOSModel', 'gammaLawGasEOS'), ('void', 'VoidEOSModel', 'voidEOS'), ('user_defined_eos', 'UserDefinedEOSModel', 'userDefinedEOS'),
            ('host_user_defined_eos', 'HostUserDefinedEOSModel', 'hostUserDefinedEOS'), ('linear_elastic_eos', 'LinearElasticEOS', 'linearElasticEOS'))}
    diss = {t: [(en + ('DissipationModels',), E('model::DissipationModels::' + n))] + ([(fu + ('calc_dissipation',), F(c + '::calc_dissipation'))] if c else []) for t, n, c in
            ((('MARS', 'MARS', 'MARSDissipationModel'), ('directional_MARS', 'directionalMARS', None)) if dim == 3 else
             (('MARS_rz', 'MARSRZ', 'MARSRZDissipationModel'), ('directional_MARS_rz', 'directionalMARSRZ', None)))}
    s.with_ = {'eos_model': (['eos_model_type', 'eos_global_vars'], {'eos_model_type': 'decoupled'}, {'eos_global_vars': 6}),
               'dissipation_model': (['dissipation_global_vars'], {}, {'dissipation_global_vars': 6})}
    o['eos_model'], o['dissipation_model'] = eos, diss
    s.extra = {'erosion_model': ('ErosionModels',), 'strength_model': ('StrengthModels', 'StrengthSetupLocation', 'StrengthRunLocation', 'StrengthSetup'),
               'eos_model': ('EOSType', 'EOSRunLocation', 'eos_global_vars', 'num_eos_global_vars'), 'dissipation_model': ('dissipation_global_vars', 'num_dissipation_global_vars', 'calc_dissipation'),
               'dissipation_global_vars': ()}
    return s


RB = ('regions', 0, 'region')
RIN = {('volume',): ['type'], ('density',): ['type']}
RTX = {('volume', 'type'): 'global', ('density', 'type'): 'uniform'}
RREQ = ['material_id', 'volume', 'density']


def rscope(title, k, o, sub, extra=()):
    inner = dict(RIN)
    req, tx = list(RREQ), dict(RTX)
    if sub and sub not in inner:
        inner[sub] = ['type']
        req.append(sub[0])
        tx[sub + ('type',)] = 'cartesian' if sub == ('velocity',) else 'uniform'
    s = Scope(title, 'parse_regions', 'parse_regions', RB, req, k, o, {7: BN}, ('solver_id', 'material_id'), inner, tx, sub=sub, also=extra)
    return s


def regions():
    out = []
    a3, a4 = ('P3', 0), ('P4', 0)
    sb = RB + ('volume',)
    k = {n: [(a3 + (n,), V(REAL, sb + (n,)))] for n in 'radius1 radius2 x1 x2 y1 y2 z1 z2'.split()}
    k['part_id'] = [(a3 + ('part_id',), V(INT, sb + ('part_id',)))]
    for n in 'scale_x scale_y scale_z'.split():
        k[n] = [(a4 + (n,), V(REAL, sb + (n,)))]
    k['file_path'] = [(a4 + ('file_path',), V(TEXT, sb + ('file_path',)))]
    k['origin'] = [(a3 + ('origin', j), V(REAL, sb + ('origin',), j)) for j in range(2)]
    s = rscope('region.volume', k, {'type': {t: [(a3 + ('volume',), E('region::vol_tag::' + n))] for t, n in
                                             pairs('global box sphere cylinder voxel_file:readVoxelFile vtu_file:readVTUFile')}}, ('volume',))
    s.loose = {a3 + ('origin', 2): ('origin', sb + ('origin',))}
    out.append(s)
    sb = RB + ('velocity',)
    s = rscope('region.velocity', {n: [(a3 + (n,), V(REAL, sb + (n,)))] for n in 'u v w speed'.split()},
               {'type': {t: [(a3 + ('vel_field',), E('init_conds::' + n))] for t, n in pairs(
                   'static:stationary cartesian radial:radialVec spherical:sphericalVec radial_linear:radialLinearVec spherical_linear:sphericalLinearVec tg_vortex:tgVortexVec')}}, ('velocity',))
    out.append(s)
    scal = pairs('uniform radial:radialScalar spherical:sphericalScalar x_linear:xlinearScalar y_linear:ylinearScalar z_linear:zlinearScalar tg_vortex:tgVortexScalar')
    for f, n in pairs('density:den specific_internal_energy:sie internal_energy:ie specific_heat thermal_conductivity temperature level_set volume_fraction:volfrac'):
        sb = RB + (f,)
        k = {'value': [(a3 + (n,), V(REAL, sb + ('value',)))]}
        if f in ('level_set', 'volume_fraction'):
            k['slope'] = [(a3 + (n + '_slope',), V(REAL, sb + ('slope',)))]
            k['origin'] = [(a3 + (n + '_origin', j), V(REAL, sb + ('origin',), j)) for j in range(2)]
        s = rscope('region.' + f, k, {'type': {t: [(a3 + (n + '_field',), E('init_conds::' + x))] for t, x in scal}}, (f,))
        s.loose = {a3 + (n + '_origin', 2): ('origin', sb + ('origin',))}
        s.maybe = () if f in ('level_set', 'volume_fraction') else ('radial', 'spherical', 'x_linear', 'y_linear', 'z_linear')
        out.append(s)
    return out


_scopes = []
REPORT = []


def scopes():
    if not _scopes:
        _scopes.extend([dynamic(), output(), mesh(), solver(), conditions(), surface(), multi(), materials(3), materials(2)] + regions())
    return _scopes


def lists_of(s, k):
    """an entry that is a list needs a length"""
    n = len([1 for loc, m in s.keys.get(k, []) if isinstance(m, V) and m.path[-1:] != (k,)])
    return {k: n} if n else {}


def guard(res, what, fn):
    try:
        return fn()
    except Undecided as x:
        res.undecided(what, str(x)[:200])


def units(res):
    REPORT[:] = [res]
    bad = False
    for s in scopes():
        P = unit(res, s.unit)
        if P.errors:
            res.undecided('source', '%s has %s errors' % (P.source, P.errors))
            bad = True
    return not bad


def m03(res, tier):
    res.rule('a block with the required entries and one more is accepted, and compared with the block without that entry exactly the fields that belong to the entry change: each becomes the value read from that entry, unscaled, read with a type that fits')
    res.rule('component j of a point or list comes from part j of its entry; blocks of a list land under their own number')
    if not units(res):
        return
    for s in scopes():
        for k, expect in s.keys.items():
            def go():
                P, f, paths, n = s.config([k], sizes=lists_of(s, k))
                loose = [loc for loc in getattr(s, 'loose', {}) if s.loose[loc][0] == k]
                if loose:
                    point(res, s, k, P, f, paths, expect, loose)
                else:
                    agrees(res, s, 'entry ' + k, P, f, paths, expect)
            guard(res, '%s %s' % (s.title, k), go)
    together(res)


def point(res, s, k, P, f, paths, expect, loose):
    """components that are not given are zero; some path stores all of them"""
    if not paths:
        return agrees(res, s, 'entry ' + k, P, f, paths, expect)
    want = expect + [(loc, V(expect[0][1].kind, s.loose[loc][1], 2)) for loc in loose]
    where = {loc for loc, _ in want}
    full = False
    for x in paths:
        given = [i for i in want if x.get(i[0]) is not None and docs(x[i[0]])]
        full = full or len(given) == len(want)
        zero = [i[0] for i in want if x.get(i[0]) is None or isc(x[i[0]]) and x[i[0]][1] == 0 or x[i[0]][0] == 'init']
        agrees(res, s, 'entry ' + k, P, f, [x], [i for i in want if i[0] not in zero], skip=where)
    res.check(full, 'stored', P.where(f), '%s: no path stores all parts of %s' % (s.title, k))


CLASH = {'boundary_condition.surface': ('radius',), 'multimaterial_options': (), 'mesh_options': ()}


def moved(expect, n):
    """the same stores for block n of the list, which has identifier m"""
    b, m = n

    def loc(l):
        out, done = [], False
        for x in l:
            if x == 0 and not done:
                out.append(m)
                done = True
            else:
                out.append(x)
        return tuple(out)

    def val(v):
        return V(v.kind, (v.path[0], b) + v.path[2:], v.part) if isinstance(v, V) else v
    return [(loc(l), val(v)) for l, v in expect]


def together(res):
    """all entries of a block at once, in both orders; and two blocks"""
    for s in scopes():
        ks = [k for k in s.keys if k not in CLASH.get(s.title, ()) and k not in s.required]
        if not ks:
            continue
        sizes = {}
        for k in ks:
            sizes.update(lists_of(s, k))
        expect = [x for k in ks for x in s.keys[k]]
        for order, how in ((ks, 'all entries'), (ks[::-1], 'all entries in reverse order')):
            def go():
                P, f, paths, n = s.config(order, sizes=sizes)
                agrees(res, s, how, P, f, paths, expect, frame=False, short=True)
            guard(res, s.title + ' ' + how, go)
        if len(s.base) > 1:
            own = s.ids and s.title.startswith(('solver', 'material'))
            ids = [1, 0] if own else [0, 0]

            def two():
                P, f, paths, n = s.config(ks, sizes=sizes, blocks=ids)
                both = [x for b in (0, 1) for x in moved(expect, (b, ids[b] if own else b))]
                if any(l[1] == 'contact_max_local_iter' for l, _ in both):
                    both = [(l, v) for l, v in both if l[1] not in ('contact_max_local_iter', 'contact_max_global_iter')]
                agrees(res, s, 'two blocks', P, f, paths, both, frame=False, short=True)
            guard(res, s.title + ' two blocks', two)


def m04(res, tier):
    res.rule('per option text: the block is accepted and exactly the fields of that option get its enumerator and its model functions')
    res.rule('a text that is no option is refused on every path')
    if not units(res):
        return
    for s in scopes():
        for k, opts in s.options.items():
            keys, tx, sz = getattr(s, 'with_', {}).get(k, ([], {}, {}))
            extra = getattr(s, 'extra', {}).get(k, ())
            for t, expect in opts.items():
                def go():
                    P, f, paths, n = s.config(keys + [k], dict(tx, **{k: t}), sz)
                    if t in getattr(s, 'maybe', ()) and not paths:
                        return res.ok('refused')
                    agrees(res, s, '%s: %s' % (k, t), P, f, paths, expect, extra, frame=k not in s.required and k != 'type')
                guard(res, '%s %s %s' % (s.title, k, t), go)
            for t in ('no_such_option', sorted(opts)[0] + '_', sorted(opts)[0][:-1]):
                def no():
                    P, f, paths, n = s.config(keys + [k], dict(tx, **{k: t}), sz)
                    res.check(not paths, 'refused', P.where(f), '%s: %s: %s is no option, but is not refused' % (s.title, k, t))
                if t not in opts:
                    guard(res, '%s %s %s' % (s.title, k, t), no)
        for k, (loc, names) in getattr(s, 'lists', {}).items():
            for (t, n), (t2, n2) in zip(names, names[1:] + names[:1]):
                def lst():
                    P, f, paths, _ = s.config([k], {(k, 0): t, (k, 1): t2}, {k: 2})
                    agrees(res, s, '%s: %s, %s' % (k, t, t2), P, f, paths, [(loc, Has([E(n), E(n2)]))])
                guard(res, '%s %s %s' % (s.title, k, t), lst)
            for t in ('no_such_option', names[0][0] + '_'):
                def no2():
                    P, f, paths, _ = s.config([k], {(k, 0): names[0][0], (k, 1): t}, {k: 2})
                    res.check(not paths, 'refused', P.where(f), '%s: %s: %s is no option, but is not refused' % (s.title, k, t))
                guard(res, '%s %s %s' % (s.title, k, t), no2)


def m01(res, tier):
    res.rule('without any one of its required entries a block is refused on every path, alone and with all other entries present')
    if not units(res):
        return
    for s in scopes():
        need = [k for k in s.required]
        if s.sub:
            need = ['type'] if s.title == 'region.volume' else []
        elif s.title.startswith('region'):
            need = ['material_id', 'volume']
        ks = [k for k in s.keys if k not in CLASH.get(s.title, ()) and k not in s.required]
        sizes = {}
        for k in ks:
            sizes.update(lists_of(s, k))
        for k in need:
            for more, how in (([], 'alone'), (ks, 'with all other entries')):
                def go():
                    P, f, paths, n = s.config(more, sizes=sizes, drop=(k,))
                    res.check(not paths, 'refused', P.where(f), '%s: a block without the required entry %s is not refused (%s)' % (s.title, k, how))
                guard(res, '%s %s' % (s.title, k), go)
        if s.sub == ('volume',):
            s2 = rscope('region', {}, {}, ())
            for k in ('material_id', 'volume'):
                def reg():
                    P, f, paths, n = s2.config(drop=(k,))
                    res.check(not paths, 'refused', P.where(f), 'region: a block without the required entry %s is not refused' % k)
                guard(res, 'region %s' % k, reg)


def m02(res, tier):
    res.rule('a block with an entry that is none of its keywords is refused on every path: an arbitrary word, every keyword without its last letter, every keyword with a letter more')
    if not units(res):
        return
    for s in scopes():
        known = set(s.keys) | set(s.options) | set(getattr(s, 'lists', {})) | set(s.required)
        other = {'id', 'type', 'source', 'file_path'}
        words_ = ['no_such_entry'] + [k[:-1] for k in sorted(known)] + [k + 'x' for k in sorted(known)]
        for w in words_:
            if w in known or w in other:
                continue

            def go():
                P, f, paths, n = s.config([w])
                res.check(not paths, 'refused', P.where(f), '%s: the entry %s is unknown, but is not refused' % (s.title, w))
            guard(res, '%s %s' % (s.title, w), go)


def m05(res, tier):
    res.rule('two blocks with the identifiers 0 and 1 in either order are accepted; a repeated, negative or too large identifier of a solver or material is refused on every path')
    res.rule('a boundary condition or region that names a solver there is not is refused on every path')
    if not units(res):
        return

    def case(s, ids, good, what, drop=()):
        def go():
            P, f, paths, n = s.config(blocks=ids)
            res.check(bool(paths) == good, 'accepted' if good else 'refused', P.where(f), '%s: %s %s: %s' % (
                s.title, what, ', '.join(str(i) for i in ids), 'refused' if good else 'not refused'))
        guard(res, '%s %s' % (s.title, ids), go)
    for s in scopes():
        if s.title == 'solver_options' or s.title.startswith('material ('):
            for ids in ([0], [0, 1], [1, 0], [2, 0, 1]):
                case(s, ids, True, 'identifiers')
            for ids in ([1], [-1], [0, 0], [1, 1], [0, 2], [2, 0], [-1, 0], [0, -1], [0, 1, 1], [0, 3, 1]):
                case(s, ids, False, 'identifiers')
        elif s.title == 'boundary_condition':
            for n in (1, 2):
                s.args = {2: (None, C(n))}
                for i in range(n):
                    case(s, [i], True, 'with %d solvers, solver' % n)
                    case(s, [i, 0], True, 'with %d solvers, solver' % n)
                for ids in ([n], [n + 1], [-1], [0, n], [n, 0]):
                    case(s, ids, False, 'with %d solvers, solver' % n)
            s.args = {2: BN}
    r = rscope('region', {}, {}, ())
    r.required = r.required + ['solver_id']
    r.ids = ('solver_id',)
    r.texts = dict(r.texts)
    r.texts[('material_id',)] = 0
    for n in (1, 2):
        r.args = {7: (None, C(n))}
        for i in range(n):
            case(r, [i], True, 'with %d solvers, solver' % n)
            case(r, [i, 0], True, 'with %d solvers, solver' % n)
        for ids in ([n], [n + 1], [-1], [0, n], [n, 0]):
            case(r, ids, False, 'with %d solvers, solver' % n)


PARTS = [('parse_mesh_inputs', ['mesh_input']), ('parse_dynamic_options', ['dynamic_options']), ('parse_output_options', ['output_options']),
         ('parse_solver_input', ['solver_inputs']), ('parse_bcs', ['P3']),
         ('parse_regions', ['reg_fills_in_solver', 'num_reg_fills_in_solver', 'region_fills', 'region_fills_host', 'fill_gauss_states', 'fill_node_states']),
         ('parse_materials', ['P2']), ('parse_multimaterial_options', ['P2'])]


class Calls(YP):
    def keep(self, ev, st):
        return ev if ev[0] == 'call' and ev[1].startswith('parse_') else None


def m06(res, tier):
    res.rule('on every path through parse_yaml each parser is called exactly once with the whole document and with the part of the simulation it describes')
    res.rule('boundary conditions and regions get the number of solvers as read, and the materials the number of dimensions as read')
    P = unit(res, 'parse_yaml')
    if P.errors:
        return res.undecided('source', '%s has %s errors' % (P.source, P.errors))
    f = one(None, P, 'parse_yaml')
    I = Interp(P, Calls({}, {}))
    try:
        outs = I.run(f)
    except Undecided as x:
        return res.undecided('parse_yaml', str(x)[:200])
    res.stats(I)
    w = P.where(f)
    ok = accepted(outs)
    res.check(bool(ok), 'returns', w, 'no input is ever accepted')
    for st, k, v in ok:
        sims = ('o', 'P1')
        solvers = I.read(st, ('f', sims, 'solver_inputs'))
        dims = I.read(st, ('f', ('f', sims, 'mesh_input'), 'num_dims'))
        for name, parts in PARTS:
            calls = [e for e in st.tr if e[1].split('::')[-1] == name]
            if not res.check(len(calls) == 1, 'once', w, '%s is called %d times' % (name, len(calls))):
                continue
            e = calls[0]
            a = e[4]
            res.check(a[0][0] == ROOT, 'document', e[5], '%s does not get the document' % name)
            for n, part in enumerate(parts):
                L = a[1 + n][0] if len(a) > 1 + n else None
                got = None if L is None else L[2] if L[0] == 'f' else L[1] if L[0] == 'o' else None
                res.check(got == part and (L[0] == 'o' or root(L) == sims), 'part', e[5], '%s fills %s instead of %s' % (name, got, part))
            if name in ('parse_bcs', 'parse_regions'):
                c = a[1 + len(parts)][1]
                res.check(c == ('size', solvers) and solvers[0] != 'init', 'solvers', e[5], '%s does not get the number of solvers that were read' % name)
            if name == 'parse_materials':
                c = a[1 + len(parts)][1]
                res.check(c == dims and not any(isinstance(x, tuple) and x and x[0] == 'init' for x in tree(c)), 'dimensions', e[5], 'the materials are not read for the number of dimensions of the mesh')


CHECKS = {'M01': m01, 'M02': m02, 'M03': m03, 'M04': m04, 'M05': m05, 'M06': m06}
