"""Family E, I/O layer of the EVPFFT programs: MPI-IO, HDF5 (E07-E12)."""
import glob
import os
import re
from sa import facts
from sa.interp import Interp, Undecided, C, NULL, isc, tree, mentions, under, root
from checks.yp import fns, show
from sa.prog import calls_in
from checks.ev import EP, BASE

THIS = ('o', 'this')
INC = os.path.join(facts.VERIF, 'stubs', 'inc')

# handle made through an out parameter: function -> (index, kind)
OUTH = {'MPI_Type_contiguous': (2, 'type'), 'MPI_Type_vector': (4, 'type'), 'MPI_Type_create_subarray': (6, 'type'), 'MPI_Type_dup': (1, 'type'),
        'MPI_File_open': (4, 'file'), 'MPI_Info_create': (0, 'info'), 'MPI_Comm_dup': (1, 'comm'), 'MPI_Comm_split': (3, 'comm')}
RETH = {'H5Screate_simple': 'space', 'H5Screate': 'space', 'H5Scopy': 'space', 'H5Dget_space': 'space', 'H5Pcreate': 'plist', 'H5Pcopy': 'plist',
        'H5Fcreate': 'h5file', 'H5Fopen': 'h5file', 'H5Dcreate2': 'dataset', 'H5Dopen2': 'dataset', 'H5Gcreate': 'group', 'H5Gcreate2': 'group', 'H5Gopen2': 'group',
        'H5Tcopy': 'h5type', 'H5Dget_type': 'h5type'}
FREE = {'MPI_Type_free': 'type', 'MPI_File_close': 'file', 'MPI_Info_free': 'info', 'MPI_Comm_free': 'comm', 'H5Sclose': 'space', 'H5Pclose': 'plist',
        'H5Fclose': 'h5file', 'H5Dclose': 'dataset', 'H5Gclose': 'group', 'H5Tclose': 'h5type'}
OUTV = {'MPI_Comm_rank': 1, 'MPI_Comm_size': 1, 'MPI_Type_size': 1}
NAME = {'type': 'MPI datatype', 'file': 'MPI file', 'info': 'MPI info object', 'comm': 'communicator', 'space': 'HDF5 dataspace', 'plist': 'HDF5 property list',
        'h5file': 'HDF5 file', 'dataset': 'HDF5 dataset', 'group': 'HDF5 group', 'h5type': 'HDF5 datatype'}
API = re.compile(r'(MPI_|H5[A-Z])\w+$')
COLLECTIVE = re.compile(r'(MPI_(Barrier|Bcast|Reduce|Allreduce|I?Gatherv?|Allgatherv?|Scatterv?|Alltoallv?|Comm_(dup|split|free)|Finalize|Init\w*'
                        r'|File_(open|close|set_view|set_size|preallocate|sync|\w+_all|\w+_ordered|delete))|H5(F(create|open|close)|D(create2?|open2|write|close|read)|G(create2?|close)))$')


PTRS = ('data', 'stride', 'global', 'local', 'start', 'name', 'filename')


class MP(EP):
    """MPI and HDF5 calls with their handles as terms: ('mk', function, n) for every object made"""
    max_unroll = 12
    keep_facts = True

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.snap = {}
        self.types = {}

    def choose(self, I, st, c):
        # the pointers handed in are not null
        if c[0] == 'not':
            r = self.choose(I, st, c[1])
            return None if r is None else not r
        if c[0] == 'sym' and c[1] in PTRS:
            return True
        if c[0] == 'op' and c[1] == '==' and len(c) == 4:
            # the handles MPI defines differ from each other and from null
            g, h = gname(c[2]), gname(c[3])
            if g and h and g.startswith('MPI_') and h.startswith('MPI_') and g != h:
                return False
            if g and g.startswith('MPI_') and isc(c[3]) and not c[3][1] or h and h.startswith('MPI_') and isc(c[2]) and not c[2][1]:
                return False
        if c[0] == 'op' and len(c) == 4 and c[1] == '==' and (c[2][0] == 'sym' and c[2][1] in PTRS and isc(c[3]) and not c[3][1] or c[3][0] == 'sym' and c[3][1] in PTRS and isc(c[2]) and not c[2][1]):
            return False
        return super().choose(I, st, c)

    def model(self, I, name):
        return self.api if API.match(name) else self.fmt if name in ('sprintf', 'snprintf', 'std::sprintf', 'std::snprintf') else None

    def fmt(self, I, st, fr, e, L, args, name):
        name = name.split('::')[-1]
        o = 0 if name == 'sprintf' else 1
        if len(args) < 2 + o:
            return NotImplemented
        I.P.ucount += 1
        F = args[1 + o][1]
        txt = ('fmt', F, tuple(v for _, v in args[2 + o:]), I.P.ucount)
        ev = ('call', name, (), None, tuple(args), I.loc(e), ('len', txt))
        I.emit(st, ev)
        self.types[('len', txt)] = [strip(a) for a in e['a'][2 + o:]]
        D = args[0][1]
        if D[0] in ('&', 'arr!') and not (D[1][0] == 'i' and not isc(D[1][2])):
            I.write(st, D[1], txt, e, event=False)
        return [(st, 'n', ('len', txt))]

    def api(self, I, st, fr, e, L, args, name):
        I.P.ucount += 1
        n = I.P.ucount
        before = st
        av = []
        for i, (l, v) in enumerate(args):
            if v is not None and v[0] == '&' and (name in FREE or name == 'MPI_Type_commit'):
                v = I.read(st, v[1])
            av.append((l, v))
        r = ('mk', name, n) if name in RETH else ('call', name, (), None, tuple(v for _, v in av), n)
        self.snap[r] = before
        h = ('mk', name, n) if name in OUTH else r if name in RETH else None
        I.emit(st, ('call', name, (), None, tuple(av), I.loc(e), r if h is None else h))
        if h is not None:
            self.snap[h] = before
        done = None
        if name in OUTH or name in OUTV:
            i = OUTH[name][0] if name in OUTH else OUTV[name]
            if i < len(args) and args[i][1][0] in ('&', 'arr!'):
                done = i
                val = h if name in OUTH else ('api', name, av[0][1])
                I.write(st, args[i][1][1], val, e, event=False)
        elif name in FREE and args and args[0][1][0] == '&':
            done = 0
            I.write(st, args[0][1][1], NULL, e, event=False)
        elif name == 'MPI_Type_commit':
            done = 0
        pts = e.get('pt') or []
        for i, (l, v) in enumerate(args):
            pt = pts[i] if i < len(pts) else ''
            if i != done and v[0] in ('&', 'arr!') and pt.endswith('*') and not pt.startswith('const '):
                I.havoc(st, v[1], e, 'arg')
        if name in self.noreturn:
            return [(st, 'exit', ('exit', name, tuple(v for _, v in av), I.loc(e)))]
        return [(st, 'n', r)]


def strip(a):
    t = a.get('t') if isinstance(a, dict) else None
    return t.replace('const ', '').replace('&', '').strip() if t else None


def copies(res, name, stub=None):
    """one program per app copy holding the source `name` (through the stub that instantiates its templates)"""
    out = []
    for src in sorted(glob.glob(BASE + '/*/src/' + name)):
        flags = ['-std=c++17', '-I' + INC, '-I' + os.path.dirname(src)]
        P = facts.facts(os.path.join(facts.VERIF, 'stubs', stub) if stub else src, flags, [facts.REPO], allow_errors=True)
        P.app = src.split('/')[-3]
        if P.errors:
            res.undecided('parse', '%s needs declarations the stubs do not have: %s' % (src, P.stderr.split('error:')[1][:80] if 'error:' in P.stderr else ''))
            continue
        res.unit(P)
        out.append(P)
    if not out:
        raise Undecided(name + ' not found')
    return out


def sym(x):
    return (None, ('sym', x))


def elems(I, st, V, n):
    """the n values a pointer argument points to, as of st"""
    if V[0] not in ('&', 'arr!'):
        if V[0] == 'sym' or V[0] in ('parm', 'init'):
            return [I.read(st, ('i', ('*', V), C(k))) for k in range(n)]
        return None
    L = V[1]
    if L[0] == 'i' and isc(L[2]):
        return [I.read(st, ('i', L[1], C(L[2][1] + k))) for k in range(n)]
    return [I.read(st, ('i', L, C(k))) for k in range(n)]


def poly(t):
    """integer term as {sorted tuple of atoms: coefficient}; None when it is no sum of products"""
    if isc(t):
        return {(): t[1]} if isinstance(t[1], int) else None
    if t[0] == 'op' and len(t) == 4 and t[1] in '+-*':
        a, b = poly(t[2]), poly(t[3])
        if a is None or b is None:
            return None
        r = {}
        if t[1] == '*':
            for x, c in a.items():
                for y, d in b.items():
                    k = tuple(sorted(x + y, key=repr))
                    r[k] = r.get(k, 0) + c * d
        else:
            r = dict(a)
            for y, d in b.items():
                r[y] = r.get(y, 0) + (d if t[1] == '+' else -d)
        return {k: c for k, c in r.items() if c}
    return {(t,): 1}


def plain(t):
    """every part of the term is a known input: no havocked value, no unread memory"""
    bad = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] in ('top', 'uninit', 'part', 'call', 'new', 'loop') and isinstance(x[0], str):
                bad.append(x)
            for y in x:
                walk(y)
    walk(t)
    return not bad


def same(a, b):
    """True / False / None: the two terms are equal for every input"""
    if a == b:
        return True
    if a is None or b is None:
        return None
    p, q = poly(a), poly(b)
    if p is not None and p == q:
        return True
    if plain(a) and plain(b):
        return False
    return None


def expect(res, rule, w, got, want, msg):
    s = same(got, want)
    if s is True:
        res.ok(rule)
    elif s is None:
        res.undecided(rule, '%s: %s' % (msg, show(got) if got is not None else '?'))
    else:
        res.fail(rule, w, '%s: %s instead of %s' % (msg, nice(got), nice(want)))


def nice(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'c':
        return 'null' if t[1] is None else str(t[1])
    if t[0] == 'sym':
        return t[1]
    if t[0] == 'o':
        return t[1]
    if t[0] == 'init':
        return nice(t[1])
    if t[0] in ('f', 'i'):
        return '%s%s' % (nice(t[1]), '.' + t[2] if t[0] == 'f' else '[%s]' % nice(t[2])) if t[0] != 'f' or isinstance(t[2], str) else nice(t[1])
    if t[0] in ('*', '&'):
        return nice(t[1])
    if t[0] == 'g':
        return t[1]
    if t[0] == 'op':
        return '(%s %s %s)' % (nice(t[2]), t[1], nice(t[3]))
    if t[0] == 'mk':
        return 'the object of ' + t[1]
    if t[0] == 'len':
        return 'length(%s)' % nice(t[1])
    return show(t)[:80]


def g(name):
    return name


def isg(t, name):
    """the term is the global constant `name`"""
    if t[0] == 'init':
        t = t[1]
    return t[0] == 'g' and t[1] == name


def gname(t):
    if t is not None and t[0] == 'init':
        t = t[1]
    return t[1] if t is not None and t[0] == 'g' else None


def calls(st, name):
    return [e for e in st.tr if e[0] == 'call' and e[1] == name]


def maker(st, tok):
    """the call that made the object"""
    if tok is None or tok[0] != 'mk':
        return None
    return next((e for e in st.tr if e[0] == 'call' and e[6] == tok), None)


def arg(e, i):
    return e[4][i][1]


# ---- the objects of the I/O layer --------------------------------------------------------------------

LAYOUT = {0: 'C', 1: 'Fortran'}


def classes(P, short):
    """{class name: {'ctor': f, 'dtor': f|None, 'methods': [...]}} for each instance of the class template"""
    out = {}
    for f in P.funcs.values():
        if not f.get('body') or f.get('implicit'):
            continue
        rec = f.get('rec')
        if not rec or not re.match(re.escape(short) + '<', rec):
            continue
        d = out.setdefault(rec, {'ctor': [], 'dtor': None, 'methods': []})
        if f.get('ctor'):
            d['ctor'].append(f)
        elif f.get('dtor'):
            d['dtor'] = f
        else:
            d['methods'].append(f)
    return out


def targs(rec):
    m = re.match(r'\w+<(.*)>$', rec)
    return [x.strip() for x in m.group(1).split(',')] if m else []


MGR_ARGS = {0: sym('comm'), 1: (('o', 'full'), None), 2: (('o', 'sub'), None), 3: (('o', 'start'), None), 4: (None, C(3)), 5: sym('ghosts')}
PNAME = ('first', 'second', 'third', 'fourth')


def objects(res, P, short, ctor_args):
    """(class, interpreter, states after construction) for each instance of the class template"""
    for rec, d in sorted(classes(P, short).items()):
        if len(d['ctor']) != 1:
            res.undecided('construct', '%s has %d constructors' % (rec, len(d['ctor'])))
            continue
        for tag, args in ctor_args(rec, d['ctor'][0]):
            pol = MP()
            I = Interp(P, pol)
            st0 = [o for o in I.run(d['ctor'][0], args=args)]
            yield rec, d, I, pol, st0, tag


def mgr_args(rec, f):
    return [('', MGR_ARGS)]


def mow_args(rec, f):
    a = {0: sym('comm'), 1: sym('filename'), 2: (None, C(3)), 3: sym('global'), 4: sym('local'), 5: sym('start')}
    return [('default stride', {**a, 6: (None, NULL)}), ('given stride', {**a, 6: sym('stride')})]


def mname(f):
    return f['n'].split('::')[-1] + ('<%s>' % f['ta'][0] if f.get('ta') else '')


def margs(f):
    """named arguments for a method, by parameter name"""
    return {i: sym(p['n']) for i, p in enumerate(f['p']) if not p.get('ref')}


def public(d):
    # helpers are analysed inside the methods that call them
    used = set()
    for f in d['methods'] + d['ctor'] + ([d['dtor']] if d['dtor'] else []):
        used |= {x.get('fid') for x in calls_in(f['body'])} - {f['fid']}
    return [f for f in d['methods'] if f['fid'] not in used]


def deep(t, h):
    return isinstance(t, tuple) and (t == h or any(deep(x, h) for x in t))


def ledger(res, st, who, ret=None, fields=None, commit=True):
    """walks the events of one path: every object made is released once and not used afterwards"""
    live, gone, committed = {}, {}, set()
    heap, freed = {}, {}
    for e in st.tr:
        if e[0] == 'call' and API.match(e[1]):
            name, args, w, r = e[1], e[4], e[5], e[6]
            vals = [a[1] for a in args]
            if name in FREE and vals:
                t = vals[0]
                kind = FREE[name]
                if t in live:
                    res.check(live[t][0] == kind, 'kind', w, 'the %s made at %s is released with %s' % (NAME[live[t][0]], live[t][1], name))
                    gone[t] = live.pop(t)
                    res.ok('released')
                elif t in gone:
                    res.fail('twice', w, 'the %s made at %s is released a second time' % (NAME[gone[t][0]], gone[t][1]))
                elif isc(t) or t[0] == 'uninit':
                    res.fail('nothing', w, '%s: there is no %s to release' % (who, NAME[kind]))
                elif t[0] == 'g':
                    res.fail('foreign', w, 'the predefined %s is released' % t[1])
                continue
            if name == 'MPI_Type_commit':
                committed.add(vals[0])
                continue
            for i, t in enumerate(vals):
                if t in gone:
                    res.fail('used', w, 'the %s made at %s is used after its release' % (NAME[gone[t][0]], gone[t][1]))
                elif t[0] == 'uninit' and i != (OUTH.get(name) or (None,))[0] and name in OUTH:
                    res.fail('unset', w, 'argument %d of %s has no value' % (i + 1, name))
                if t[0] == 'mk' and t in live and live[t][0] == 'type' and re.match(r'MPI_(File_(set_view|write|read)|Send|Recv|Bcast|Reduce|Allreduce|Gather|Scatter)', name):
                    res.check(t in committed, 'commit', w, 'the MPI datatype made at %s is used without being committed' % live[t][1])
            if name in OUTH:
                live[r] = (OUTH[name][1], w)
            elif name in RETH:
                live[r] = (RETH[name], w)
        elif e[0] == 'new' and e[3]:
            heap[e[1]] = e[4]
            freed.pop(e[1], None)
        elif e[0] == 'delete':
            if e[1] in heap:
                res.check(e[2], 'array', e[3], 'the array made at %s is released with delete instead of delete[]' % heap[e[1]])
                freed[e[1]] = heap.pop(e[1])
                res.ok('released')
            elif e[1] in freed:
                res.fail('twice', e[3], 'the array made at %s is released a second time' % freed[e[1]])
    def handed(t):
        # the result, or stored through a parameter
        return ret is not None and deep(ret, t) or any(root(L)[0] == '*' or root(L)[0] == 'o' and str(root(L)[1]).startswith('P') or root(L)[0] == 'g'
                                                       for L, V in st.mem.items() if isinstance(L[0], str) and L[0] in 'fio*g' and deep(V, t))

    for t, (kind, w) in live.items():
        if handed(t):
            res.ok('returned')
        else:
            res.fail('leak', w, '%s: the %s made here is never released' % (who, NAME[kind]))
    for L, w in heap.items():
        if handed(L):
            res.ok('returned')
        else:
            res.fail('leak', w, '%s: the array made here is never released' % who)


IO = ('manager_mpi_io.h', 'io_types.cpp')


def free_functions(P):
    for f in sorted(P.funcs.values(), key=lambda f: f['full']):
        if f.get('body') and not f.get('rec') and not f.get('implicit') and f['short'] != 'deduce_hdf5_datatype':
            yield f


def e07(res, tier):
    res.rule('on every path through construction, any method and destruction, and through every free I/O function: each MPI datatype, info object and file, HDF5 file, dataspace, dataset and property list, and each array, is released exactly once with the function of its kind, unless it is the result')
    res.rule('no object is used after its release, and no datatype is used for input or output before it is committed')
    for P in copies(res, *IO):
        for f in free_functions(P):
            for n in ((1, 2) if any(p['n'].startswith('num_dims') for p in f['p']) else (None,)):
                args = {i: sym(p['n']) for i, p in enumerate(f['p']) if not p.get('ref')}
                for i, p in enumerate(f['p']):
                    if p['n'].startswith('num_dims'):
                        args[i] = (None, C(n))
                I = Interp(P, MP())
                outs = I.run(f, args=args)
                res.stats(I)
                for st, k, v in outs:
                    if k == 'n':
                        ledger(res, st, f['short'], v)
        for short, mk in (('Manager_MPI_IO', mgr_args), ('MicroOutputWriter', mow_args)):
            for rec, d, I, pol, sts, tag in objects(res, P, short, mk):
                if d['dtor'] is None:
                    res.undecided('dtor', rec)
                    continue
                for st, k, v in sts:
                    if k != 'n':
                        continue
                    for m in [None] + public(d):
                        mid = [(st, 'n', None)] if m is None else I.run(m, this=THIS, args=margs(m), st=st.copy())
                        for s2, k2, v2 in mid:
                            if k2 != 'n':
                                continue
                            for s3, k3, v3 in I.run(d['dtor'], this=THIS, st=s2.copy()):
                                if k3 == 'n':
                                    ledger(res, s3, short + ('' if m is None else '::' + mname(m)))
                res.stats(I)


CHECKS = {'E07': e07}


# ---- E08: collective calls ---------------------------------------------------------------------------

PER_RANK = re.compile(r'data|local|sub|start|rank|buf')


def per_rank(t):
    """the term differs from rank to rank"""
    if isinstance(t, tuple):
        if t[:2] == ('api', 'MPI_Comm_rank'):
            return True
        if len(t) == 2 and t[0] in ('sym', 'o') and isinstance(t[1], str) and PER_RANK.search(t[1]):
            return True
        return any(per_rank(x) for x in t)
    return False


def facts_of(st):
    """{condition: value} of a path, loop-free facts only"""
    return {c: v for c, v in st.facts.items() if isinstance(v, bool)}


def sequence(st, start=0):
    out = []
    for e in st.tr[start:]:
        if e[0] == 'call' and COLLECTIVE.match(e[1]):
            comm = next((a[1] for a in e[4][:1] if a[1][0] == 'sym'), None) if e[1].startswith('MPI_') else None
            out.append((e[1], comm, e[5]))
    return out


def compare_ranks(res, who, w, outs, start=0):
    runs = [(st, sequence(st, start)) for st, k, v in outs if k == 'n']
    n = 0
    for i, (a, sa) in enumerate(runs):
        fa = facts_of(a)
        for b, sb in runs[i + 1:]:
            fb = facts_of(b)
            apart = [c for c in fa if c in fb and fa[c] != fb[c]]
            n += 1
            if any(not per_rank(c) for c in apart):
                res.ok('same-input')
                continue
            x, y = [s[:2] for s in sa], [s[:2] for s in sb]
            if x == y:
                res.ok('same-calls')
                continue
            if not apart:
                # the paths differ in nothing that was decided: no claim
                res.undecided('same-calls', '%s: two paths without a condition between them' % who)
                continue
            k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            odd = (sa + sb)[k] if k < len(sa) else sb[k]
            cond = nice(apart[0])
            res.fail('same-calls', odd[2], '%s: depending on %s, a value that differs between ranks, the ranks make different collective calls (%s)' % (who, cond, odd[0]))
    for st, s in runs:
        for e in st.tr[start:]:
            if e[0] == 'call' and e[1] in ('MPI_Bcast', 'MPI_Reduce', 'MPI_Gather', 'MPI_Scatter', 'MPI_Gatherv', 'MPI_Scatterv'):
                rt = e[4][-2][1] if e[1] != 'MPI_Reduce' else e[4][5][1]
                res.check(not per_rank(rt), 'root', e[5], '%s: the root of %s differs between ranks' % (who, e[1]))
    return n


def e08(res, tier):
    res.rule('two paths of a function that part only at conditions on values that differ between ranks (rank number, local block, local data) make the same collective calls in the same order on the same communicator; a root is the same on all ranks')
    for P in copies(res, *IO):
        for f in free_functions(P):
            args = {i: sym(p['n']) for i, p in enumerate(f['p']) if not p.get('ref')}
            I = Interp(P, MP())
            compare_ranks(res, f['short'], P.where(f), I.run(f, args=args))
            res.stats(I)
        for short, mk in (('Manager_MPI_IO', mgr_args), ('MicroOutputWriter', mow_args)):
            for rec, d, I, pol, sts, tag in objects(res, P, short, mk):
                compare_ranks(res, short, P.where(d['ctor'][0]), sts)
                for st, k, v in sts:
                    if k != 'n':
                        continue
                    for m in public(d) + ([d['dtor']] if d['dtor'] else []):
                        outs = I.run(m, this=THIS, args=margs(m), st=st.copy())
                        compare_ranks(res, '%s::%s' % (short, mname(m)), P.where(m), outs, len(st.tr))
                res.stats(I)


CHECKS['E08'] = e08


# ---- E09: where a rank's block lies in the file ------------------------------------------------------

def space_of(st, pol, tok, before=None):
    """(make call, last selection call) of a dataspace"""
    mk = maker(st, tok)
    sel = [e for e in st.tr if e[0] == 'call' and re.match(r'H5Sselect_(hyperslab|all|none)$', e[1]) and arg(e, 0) == tok]
    return mk, sel


def inp(name, k):
    return ('init', ('i', ('*', ('sym', name)), C(k)))


def check_space(res, I, pol, st, tok, n, want, w, who):
    """want: {'dims'|'start'|'stride'|'count': [terms]}"""
    mk, sel = space_of(st, pol, tok)
    if mk is None or mk[1] != 'H5Screate_simple':
        res.undecided('space', '%s: %s' % (who, show(tok) if tok else '?'))
        return
    w = mk[5]
    expect(res, 'rank', w, arg(mk, 0), C(n), '%s: the number of dimensions' % who)
    before = pol.snap[tok]
    got = elems(I, before, arg(mk, 1), n)
    for k in range(n):
        expect(res, 'dims', w, got and got[k], want['dims'][k], '%s: extent %d' % (who, k + 1))
    mx = arg(mk, 2)
    if not (isc(mx) and mx[1] is None):
        m = elems(I, before, mx, n)
        for k in range(n):
            expect(res, 'max-dims', w, m and m[k], want['dims'][k], '%s: largest extent %d' % (who, k + 1))
    if not sel:
        res.fail('selected', w, '%s: no block of the dataspace is selected' % who)
        return
    e = sel[-1]
    w = e[5]
    if e[1] != 'H5Sselect_hyperslab':
        res.fail('selected', w, '%s: %s instead of the block of this rank' % (who, e[1]))
        return
    if len(sel) > 1 or not (isc(arg(e, 1)) and arg(e, 1)[1] == 0):
        res.check(isc(arg(e, 1)) and arg(e, 1)[1] == 0, 'selected', w, '%s: the selection is combined with an earlier one' % who)
    bf = pol.snap[e[6]]
    for what, i in (('start', 2), ('stride', 3), ('count', 4)):
        a = arg(e, i)
        if isc(a) and a[1] is None:
            got = [C(1)] * n if what == 'stride' else None
            if what != 'stride':
                res.fail(what, w, '%s: no %s is given' % (who, what))
                continue
        else:
            got = elems(I, bf, a, n)
        if want.get(what) is None:
            continue
        for k in range(n):
            expect(res, what, w, got and got[k], want[what][k], '%s: %s %d' % (who, what, k + 1))
    b = arg(e, 5)
    if isc(b) and b[1] is None:
        res.ok('block')
    else:
        got = elems(I, bf, b, n)
        for k in range(n):
            expect(res, 'block', w, got and got[k], C(1), '%s: block %d' % (who, k + 1))


def pn(f, i):
    return f['p'][i]['n']


def e09(res, tier):
    res.rule('the file space made for n dimensions (1 to 3) has the global extents and selects exactly the given start, stride and local extents; the memory space has the local extents plus ghost cells on both sides and selects the inner block')
    res.rule('the output writer gives these functions its own extents, in their order for C layout and reversed for Fortran layout, with stride 1 when none is given, and opens the named file, on its communicator, truncated')
    for P in copies(res, *IO):
        for n in (1, 2, 3):
            f = fns(P, 'create_hdf5_filespace')
            if len(f) == 1 and len(f[0]['p']) == 5:
                f = f[0]
                pol = MP()
                I = Interp(P, pol)
                a = {0: (None, C(n)), 1: sym('global'), 2: sym('local'), 3: sym('start'), 4: sym('stride')}
                for st, k, v in I.run(f, args=a):
                    if k == 'n':
                        check_space(res, I, pol, st, v, n, {'dims': [inp('global', k) for k in range(n)], 'start': [inp('start', k) for k in range(n)],
                                                            'stride': [inp('stride', k) for k in range(n)], 'count': [inp('local', k) for k in range(n)]}, P.where(f), 'file space')
                res.stats(I)
            else:
                res.undecided('filespace', 'create_hdf5_filespace')
            f = fns(P, 'create_hdf5_memspace')
            if len(f) == 1 and len(f[0]['p']) == 4:
                f = f[0]
                pol = MP()
                I = Interp(P, pol)
                G = ('sym', 'ghosts')
                a = {0: (None, C(n)), 1: sym('local'), 2: sym('stride'), 3: (None, G)}
                for st, k, v in I.run(f, args=a):
                    if k == 'n':
                        check_space(res, I, pol, st, v, n, {'dims': [('op', '+', inp('local', k), ('op', '*', C(2), G)) for k in range(n)], 'start': [G] * n,
                                                            'count': [inp('local', k) for k in range(n)]}, P.where(f), 'memory space')
                res.stats(I)
            else:
                res.undecided('memspace', 'create_hdf5_memspace')
        for rec, d, I, pol, sts, tag in objects(res, P, 'MicroOutputWriter', mow_args):
            fortran = targs(rec)[0] == '1'
            idx = [2, 1, 0] if fortran else [0, 1, 2]
            lay = 'Fortran' if fortran else 'C'
            for st, k, v in sts:
                if k != 'n':
                    res.fail('construct', P.where(d['ctor'][0]), 'the output writer cannot be constructed')
                    continue
                S = [inp('stride', j) for j in idx] if tag == 'given stride' else [C(1)] * 3
                toks = {F: I.read(st, ('f', THIS, F)) for F in ('filespace_', 'memspace_', 'file_id_')}
                who = 'output writer, %s layout, %s' % (lay, tag)
                w = P.where(d['ctor'][0])
                check_space(res, I, pol, st, toks['filespace_'], 3, {'dims': [inp('global', j) for j in idx], 'start': [inp('start', j) for j in idx],
                                                                    'stride': S, 'count': [inp('local', j) for j in idx]}, w, who + ', file space')
                check_space(res, I, pol, st, toks['memspace_'], 3, {'dims': [inp('local', j) for j in idx], 'start': [C(0)] * 3,
                                                                   'count': [inp('local', j) for j in idx]}, w, who + ', memory space')
                check_file(res, st, toks['file_id_'], 'H5Fcreate', ('sym', 'filename'), ('sym', 'comm'), w, who)
            res.stats(I)
        for name, fn, flag in (('create_hdf5_file', 'H5Fcreate', 2), ('open_hdf5_file', 'H5Fopen', 0)):
            f = fns(P, name)
            if len(f) != 1:
                res.undecided('file', name)
                continue
            I = Interp(P, MP())
            for st, k, v in I.run(f[0], args={0: sym('filename'), 1: sym('comm')}):
                if k == 'n':
                    check_file(res, st, v, fn, ('sym', 'filename'), ('sym', 'comm'), P.where(f[0]), name)
            res.stats(I)


def check_file(res, st, tok, fn, name, comm, w, who):
    mk = maker(st, tok)
    if mk is None:
        res.undecided('file', '%s: %s' % (who, show(tok)))
        return
    w = mk[5]
    res.check(mk[1] == fn, 'mode', w, '%s: the file is made with %s' % (who, mk[1]))
    if mk[1] != fn:
        return
    expect(res, 'name', w, arg(mk, 0), name, '%s: the file' % who)
    fl = arg(mk, 1)
    if isc(fl):
        want = (2,) if fn == 'H5Fcreate' else (0, 1)
        res.check(fl[1] in want, 'mode', w, '%s: the access flag is %s' % (who, fl[1]))
    else:
        res.undecided('mode', show(fl))
    pl = arg(mk, 3 if fn == 'H5Fcreate' else 2)
    pm = maker(st, pl)
    if pm is None:
        if isc(pl):
            res.fail('parallel', w, '%s: the file is opened without the access list of the communicator' % who)
        else:
            res.undecided('parallel', show(pl))
        return
    at = [i for i, e in enumerate(st.tr) if e is mk][0]
    sets = [e for e in st.tr[:at] if e[0] == 'call' and e[1] == 'H5Pset_fapl_mpio' and arg(e, 0) == pl]
    if not sets:
        res.fail('parallel', w, '%s: the file is opened without the access list of the communicator' % who)
    else:
        expect(res, 'parallel', sets[-1][5], arg(sets[-1], 1), comm, '%s: the communicator of the file' % who)


CHECKS['E09'] = e09


# ---- E10: datasets -----------------------------------------------------------------------------------

H5T = {'int': 'H5T_NATIVE_INT', 'float': 'H5T_NATIVE_FLOAT', 'double': 'H5T_NATIVE_DOUBLE', 'long double': 'H5T_NATIVE_LDOUBLE', 'unsigned short': 'H5T_NATIVE_USHORT'}


def e10(res, tier):
    res.rule('each instance of the datatype deduction gives the native HDF5 type of the element type, or an exception')
    res.rule('writing creates the dataset of the given name in the given file or group with that type and the file space, and writes the given data with the same type, memory space, file space and a collective transfer list; reading opens the named dataset and reads in the same way; the writer uses its own file, or the given group, and its own spaces')
    for P in copies(res, *IO):
        fs = [f for f in P.funcs.values() if f['short'] == 'deduce_hdf5_datatype' and f.get('body') and f.get('ta')]
        if len(fs) < 4:
            res.undecided('deduce', '%d instances' % len(fs))
        for f in fs:
            T = f['ta'][0]
            I = Interp(P, MP())
            for st, k, v in I.run(f):
                w = P.where(f)
                if k == 'x':
                    res.check(T not in ('int', 'float', 'double'), 'type', w, 'data of type %s are refused' % T)
                elif k == 'n':
                    if gname(v):
                        res.check(gname(v) == H5T[T], 'type', w, 'data of type %s are given the HDF5 type %s' % (T, gname(v)))
                    elif v[0] == 'uninit':
                        res.fail('type', w, 'data of type %s are given no HDF5 type' % T)
                    else:
                        res.undecided('type', show(v))
            res.stats(I)
        jobs = []
        for f in P.funcs.values():
            if f['short'] in ('write_hdf5_dataset', 'read_hdf5_dataset') and f.get('body') and f.get('ta') and len(f['p']) == 6:
                pol = MP()
                I = Interp(P, pol)
                a = {i: sym(x) for i, x in enumerate(('name', 'data', 'file', 'memspace', 'filespace', 'comm'))}
                outs = I.run(f, args=a)
                res.stats(I)
                jobs.append((f, outs, 0, f['ta'][0], ('sym', 'file'), ('sym', 'memspace'), ('sym', 'filespace'), f['short'].startswith('write')))
        for rec, d, I, pol, sts, tag in objects(res, P, 'MicroOutputWriter', mow_args):
            if tag != 'default stride':
                continue
            for st, k, v in sts:
                for m in d['methods']:
                    if k != 'n' or m['short'] != 'write' or not m.get('ta') or len(m['p']) not in (2, 3):
                        continue
                    outs = I.run(m, this=THIS, args={i: sym(x) for i, x in enumerate(('name', 'data', 'group')[:len(m['p'])])}, st=st.copy())
                    R = {F: I.read(st, ('f', THIS, F)) for F in ('filespace_', 'memspace_', 'file_id_')}
                    jobs.append((m, outs, len(st.tr), m['ta'][0], R['file_id_'] if len(m['p']) == 2 else ('sym', 'group'), R['memspace_'], R['filespace_'], True))
            res.stats(I)
        if len(jobs) < 8:
            res.undecided('transfer', '%d transfer functions' % len(jobs))
        for f, outs, start, T, loc, ms, fsp, wr in jobs:
            for st, k, v in outs:
                if k == 'n':
                    transfer(res, P, f, st, start, T, loc, ms, fsp, wr)
                else:
                    res.check(k == 'x' and T not in ('int', 'float', 'double'), 'transfer', P.where(f), '%s does not return for data of type %s' % (f['short'], T))


def transfer(res, P, f, st, start, T, loc, ms, fsp, wr):
    who = '%s of %s' % (f['short'], T)
    tr = st.tr[start:]
    io = [e for e in tr if e[0] == 'call' and e[1] in ('H5Dwrite', 'H5Dread')]
    w = P.where(f)
    if len(io) != 1 or (io[0][1] == 'H5Dwrite') != wr:
        res.fail('once', w, '%s: the data are transferred by %s' % (who, ', '.join(e[1] for e in io) or 'nothing'))
        return
    e = io[0]
    w = e[5]
    mk = maker(st, arg(e, 0))
    if mk is None or not mk[1].startswith('H5D'):
        res.undecided('dataset', '%s: %s' % (who, show(arg(e, 0))))
    else:
        res.check(mk[1] == ('H5Dcreate2' if wr else 'H5Dopen2'), 'dataset', mk[5], '%s: the dataset is made with %s' % (who, mk[1]))
        expect(res, 'place', mk[5], arg(mk, 0), loc, '%s: the file of the dataset' % who)
        expect(res, 'name', mk[5], arg(mk, 1), ('sym', 'name'), '%s: the name of the dataset' % who)
        if mk[1] == 'H5Dcreate2':
            typ(res, mk[5], arg(mk, 2), T, '%s: the type of the dataset' % who)
            expect(res, 'file-space', mk[5], arg(mk, 3), fsp, '%s: the space of the dataset' % who)
    typ(res, w, arg(e, 1), T, '%s: the type of the data in memory' % who)
    expect(res, 'memory-space', w, arg(e, 2), ms, '%s: the memory space' % who)
    expect(res, 'file-space', w, arg(e, 3), fsp, '%s: the file space' % who)
    expect(res, 'data', w, arg(e, 5), ('sym', 'data'), '%s: the data' % who)
    pl = arg(e, 4)
    pm = maker(st, pl)
    if pm is None:
        if isc(pl):
            res.fail('collective', w, '%s: the transfer list is the default one' % who)
        else:
            res.undecided('collective', show(pl))
    else:
        at = [i for i, x in enumerate(st.tr) if x is e][0]
        sets = [x for x in st.tr[:at] if x[0] == 'call' and x[1] == 'H5Pset_dxpl_mpio' and arg(x, 0) == pl]
        if not sets:
            res.fail('collective', w, '%s: the transfer is not set to collective' % who)
        elif isc(arg(sets[-1], 1)):
            res.check(arg(sets[-1], 1)[1] == 1, 'collective', sets[-1][5], '%s: the transfer is set to independent' % who)
        else:
            res.undecided('collective', show(arg(sets[-1], 1)))


def typ(res, w, t, T, what):
    if gname(t):
        res.check(gname(t) == H5T.get(T), 'type', w, '%s is %s' % (what, gname(t)))
    else:
        res.undecided('type', '%s: %s' % (what, show(t)))


CHECKS['E10'] = e10


# ---- E11, E12: MPI-IO --------------------------------------------------------------------------------

MPIT = {'int': 'MPI_INT', 'float': 'MPI_FLOAT', 'double': 'MPI_DOUBLE', 'long double': 'MPI_LONG_DOUBLE'}
RD, WR, RDWR, CREATE = 2, 4, 8, 1


def box(name, k):
    return ('init', ('i', ('o', name), C(k)))


def subarray(res, I, pol, st, tok, sizes, subs, starts, order, base, w, what):
    mk = maker(st, tok)
    if mk is None or mk[1] != 'MPI_Type_create_subarray':
        if gname(tok) or mk is not None:
            res.fail('block', w, '%s is %s, not the block of this rank' % (what, gname(tok) or 'a type of ' + mk[1]))
        else:
            res.undecided('block', '%s: %s' % (what, show(tok)))
        return
    w = mk[5]
    bf = pol.snap[tok]
    expect(res, 'dims', w, arg(mk, 0), C(3), '%s: the number of dimensions' % what)
    for i, (nm, want) in enumerate((('extent', sizes), ('block size', subs), ('block start', starts))):
        got = elems(I, bf, arg(mk, 1 + i), 3)
        for k in range(3):
            expect(res, nm, w, got and got[k], want[k], '%s: %s %d' % (what, nm, k + 1))
    expect(res, 'order', w, arg(mk, 4), C(order), '%s: the order of the dimensions' % what)
    base(arg(mk, 5), w, what)


def opened(res, P, f, st, k, who, modes, start):
    """the open call of a path; None when there is nothing more to check"""
    op = [e for e in st.tr[start:] if e[0] == 'call' and e[1] == 'MPI_File_open']
    w = P.where(f)
    if len(op) != 1:
        res.fail('open', w, '%s: %d files are opened' % (who, len(op)))
        return None
    e = op[0]
    w = e[5]
    expect(res, 'comm', w, arg(e, 0), ('sym', 'comm'), '%s: the communicator of the file' % who)
    expect(res, 'name', w, arg(e, 1), ('sym', 'filename'), '%s: the name of the file' % who)
    m = arg(e, 2)
    if isc(m) and isinstance(m[1], int):
        res.check(m[1] & modes[0] and not m[1] & modes[1], 'mode', w, '%s: the file is opened with mode %d' % (who, m[1]))
    else:
        res.undecided('mode', show(m))
    return e


def result_of(st, e):
    """what a path knows about the result of the open call e: True it is 0, False it is not, None not asked"""
    at = e[6][2]
    for c, v in st.facts.items():
        if c[0] == 'op' and len(c) == 4 and c[1] in ('==', '<') and isinstance(v, bool):
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                if x[0] == 'call' and x[1] == 'MPI_File_open' and isc(y):
                    if c[1] == '==' and y[1] in (0, False):
                        return v
                    return 'other'
    return None


def transfer_of(res, st, start, who, w, names):
    io = [e for e in st.tr[start:] if e[0] == 'call' and re.match(r'MPI_File_(write|read)\w*$', e[1])]
    main = [e for e in io if e[1] in names]
    if len(main) != 1:
        if not io or all(e[1] in ('MPI_File_write_all', 'MPI_File_read_all', 'MPI_File_write', 'MPI_File_read') for e in io):
            res.fail('transfer', w, '%s: the data are transferred by %s' % (who, ', '.join(e[1] for e in io) or 'nothing'))
        else:
            res.undecided('transfer', '%s: %s' % (who, ', '.join(e[1] for e in io)))
        return None, io
    return main[0], io


def view_of(st, e):
    at = next(i for i, x in enumerate(st.tr) if x is e)
    v = [x for x in st.tr[:at] if x[0] == 'call' and x[1] == 'MPI_File_set_view' and arg(x, 0) == arg(e, 0)]
    return v[-1] if v else None


def native(res, T):
    def chk(t, w, what):
        if gname(t):
            res.check(gname(t) == MPIT[T], 'element', w, '%s: the element type of %s data is %s' % (what, T, gname(t)))
        elif isc(t):
            res.fail('element', w, '%s: the element type of %s data is not set' % (what, T))
        else:
            res.undecided('element', '%s: %s' % (what, show(t)))
    return chk


GH = ('sym', 'ghosts')
FULL = [box('full', k) for k in range(3)]
SUB = [box('sub', k) for k in range(3)]
START = [box('start', k) for k in range(3)]
LFULL = [('op', '+', s, ('op', '*', C(2), GH)) for s in SUB]


def managers(res, P):
    for rec, d, I, pol, sts, tag in objects(res, P, 'Manager_MPI_IO', mgr_args):
        T, lay = targs(rec)
        for st, k, v in sts:
            if k == 'n':
                yield T, int(lay), d, I, pol, st
            else:
                res.check(k == 'x' and T not in MPIT, 'construct', P.where(d['ctor'][0]), 'the manager of %s data cannot be constructed' % T)
        res.stats(I)


def e11(res, tier):
    res.rule('binary reading and writing open the named file on the communicator of the manager with a mode that allows the transfer, and raise an exception when that fails, before anything is transferred')
    res.rule('the view starts at the given offset and shows the rank the block (given sizes, starts, layout) of the global array of native elements; one collective transfer moves exactly the inner block of the local array with its ghost cells; reading and writing use the same view')
    for P in copies(res, *IO):
        n = 0
        for T, lay, d, I, pol, st0 in managers(res, P):
            for f in d['methods']:
                if f['short'] not in ('write_binary', 'read_binary') or len(f['p']) != 3:
                    continue
                n += 1
                wr = f['short'] == 'write_binary'
                who = '%s of %s, %s layout' % (f['short'], T, LAYOUT[lay])
                start = len(st0.tr)
                w = P.where(f)
                outs = I.run(f, this=THIS, args={0: sym('filename'), 1: sym('data'), 2: sym('offset')}, st=st0.copy())
                for st, k, v in outs:
                    e = opened(res, P, f, st, k, who, (WR | RDWR, RD) if wr else (RD | RDWR, WR), start)
                    if e is None:
                        continue
                    ok = result_of(st, e)
                    io = [x for x in st.tr[start:] if x[0] == 'call' and re.match(r'MPI_File_(write|read)', x[1])]
                    if k != 'n':
                        res.check(ok is not True, 'refused', e[5], '%s: fails although the file was opened' % who)
                        res.check(not io, 'before', e[5], '%s: data are transferred before the failure is reported' % who)
                        continue
                    if ok in (None, False):
                        res.fail('unreported', e[5], '%s: a file that cannot be opened is not reported' % who)
                        continue
                    t, io = transfer_of(res, st, start, who, w, ('MPI_File_write_all',) if wr else ('MPI_File_read_all',))
                    if t is None:
                        continue
                    expect(res, 'file', t[5], arg(t, 0), ('mk', 'MPI_File_open', e[6][2]) if e[6][0] == 'mk' else e[6], '%s: the file of the transfer' % who)
                    expect(res, 'data', t[5], arg(t, 1), ('sym', 'data'), '%s: the data' % who)
                    expect(res, 'count', t[5], arg(t, 2), C(1), '%s: the count' % who)
                    subarray(res, I, pol, st, arg(t, 3), LFULL, SUB, [GH] * 3, lay, native(res, T), t[5], who + ', memory')
                    vw = view_of(st, t)
                    if vw is None:
                        res.fail('view', t[5], '%s: the transfer has no view' % who)
                        continue
                    expect(res, 'offset', vw[5], arg(vw, 1), ('sym', 'offset'), '%s: the offset of the view' % who)
                    native(res, T)(arg(vw, 2), vw[5], who + ', view')
                    subarray(res, I, pol, st, arg(vw, 3), FULL, SUB, START, lay, native(res, T), vw[5], who + ', file')
        if n < 8:
            res.undecided('methods', '%d binary transfer methods' % n)


CHECKS['E11'] = e11


def width(fmt):
    """length of every text the format gives for numbers with exponents of two digits; None when it varies"""
    m = re.fullmatch(r'([^%]*)%([-+ #0]*)(\d*)(?:\.(\d+))?(?:l|ll|L)?([a-zA-Z])([^%]*)', fmt, re.S)
    if not m:
        return None
    pre, fl, wd, pr, cv, post = m.groups()
    wd = int(wd or 0)
    pr = int(pr) if pr is not None else 6
    need = {'E': pr + 7, 'e': pr + 7, 'd': 11, 'i': 11, 'u': 10}.get(cv)
    if need is None:
        return None
    if cv in 'Ee' and pr == 0 and '#' not in fl:
        need -= 1
    if '+' in fl or ' ' in fl:
        # always a sign: a fixed length even without a width
        return len(pre) + max(wd, need) + len(post) if cv in 'Ee' else (len(pre) + wd + len(post) if wd >= need else None)
    return len(pre) + wd + len(post) if wd >= need else None


def e12(res, tier):
    res.rule('ASCII output: rank 0 alone writes the header, whole, at the start of the file; the view of all ranks starts right behind it and shows the rank its block of the global array of records; a record is a contiguous type of as many characters as a number (or line) takes')
    res.rule('every number of the local array is formatted, with one format whose texts all have that length and end the line, at its own place in a buffer with room for all of them and the terminator; the values handed to the format have the type it asks for')
    for P in copies(res, *IO):
        n = 0
        for T, lay, d, I, pol, st0 in managers(res, P):
            for f in d['methods']:
                if f['short'] != 'write_ascii' or len(f['p']) not in (3, 4):
                    continue
                n += 1
                nums = len(f['p']) == 3
                who = 'write_ascii of %s, %s layout' % (T if nums else 'text lines', LAYOUT[lay])
                start = len(st0.tr)
                w = P.where(f)
                names = ('filename', 'data', 'header') if nums else ('filename', 'data', 'header', 'linelen')
                outs = I.run(f, this=THIS, args={i: sym(x) for i, x in enumerate(names)}, st=st0.copy())
                for st, k, v in outs:
                    e = opened(res, P, f, st, k, who, (WR | RDWR, RD), start)
                    if e is None:
                        continue
                    ok = result_of(st, e)
                    io = [x for x in st.tr[start:] if x[0] == 'call' and re.match(r'MPI_File_(write|read)', x[1])]
                    if k != 'n':
                        res.check(ok is not True, 'refused', e[5], '%s: fails although the file was opened' % who)
                        res.check(not io, 'before', e[5], '%s: data are written before the failure is reported' % who)
                        continue
                    if ok in (None, False):
                        res.fail('unreported', e[5], '%s: a file that cannot be opened is not reported' % who)
                        continue
                    fh = e[6]
                    t, io = transfer_of(res, st, start, who, w, ('MPI_File_write_all',))
                    if t is None:
                        continue
                    expect(res, 'file', t[5], arg(t, 0), fh, '%s: the file of the data' % who)
                    header(res, I, st, io, t, who, w)
                    vw = view_of(st, t)
                    if vw is None:
                        res.fail('view', t[5], '%s: the data have no view' % who)
                        continue
                    H = ('len', ('sym', 'header'))
                    off = arg(vw, 1)
                    empty = I.known(st, ('op', '==', ('sym', 'header'), C('')))
                    if not (empty is True and off == C(0)):
                        expect(res, 'offset', vw[5], off, H, '%s: the offset of the data' % who)
                    if gname(arg(vw, 2)):
                        res.check(gname(arg(vw, 2)) in ('MPI_CHAR', 'MPI_BYTE', 'MPI_SIGNED_CHAR', 'MPI_UNSIGNED_CHAR'), 'etype', vw[5], '%s: the offset counts %s' % (who, gname(arg(vw, 2))))
                    else:
                        res.undecided('etype', show(arg(vw, 2)))
                    cpn = I.read(st0, ('f', THIS, 'chars_per_num_')) if nums else ('sym', 'linelen')

                    def record(t2, w2, what):
                        m2 = maker(st, t2)
                        if m2 is None or m2[1] != 'MPI_Type_contiguous':
                            (res.fail if gname(t2) else res.undecided)(*(('record', w2, '%s: a record is %s' % (what, gname(t2))) if gname(t2) else ('record', '%s: %s' % (what, show(t2)))))
                            return
                        rlen(res, m2, cpn, nums, what)
                        res.check(gname(arg(m2, 1)) in ('MPI_CHAR', 'MPI_BYTE', 'MPI_SIGNED_CHAR', 'MPI_UNSIGNED_CHAR'), 'record', m2[5], '%s: a record is made of %s' % (what, gname(arg(m2, 1))))
                    subarray(res, I, pol, st, arg(vw, 3), FULL, SUB, START, lay, record, vw[5], who + ', file')
                    if nums:
                        expect(res, 'count', t[5], arg(t, 2), C(1), '%s: the count' % who)
                        subarray(res, I, pol, st, arg(t, 3), LFULL, SUB, [GH] * 3, lay, record, t[5], who + ', memory')
                        buffer(res, I, pol, st, st0, start, t, cpn, who)
                    else:
                        expect(res, 'data', t[5], arg(t, 1), ('sym', 'data'), '%s: the data' % who)
                        expect(res, 'count', t[5], arg(t, 2), ('len', ('sym', 'data')), '%s: the number of characters' % who)
                        res.check(gname(arg(t, 3)) in ('MPI_CHAR', 'MPI_BYTE'), 'etype', t[5], '%s: the data are written as %s' % (who, gname(arg(t, 3)) or 'another type'))
            # the constructor measures the format
            for e in st0.tr:
                if e[0] == 'call' and e[1] in ('sprintf', 'snprintf'):
                    typed(res, pol, e, 'the measured number of %s data' % T)
        if n < 16:
            res.undecided('methods', '%d ASCII methods' % n)


def header(res, I, st, io, t, who, w):
    hs = [x for x in io if x is not t]
    rank = [(c, v) for c, v in st.facts.items() if isinstance(v, bool) and per_rank_only(c)]
    empty = I.known(st, ('op', '==', ('sym', 'header'), C('')))
    root = None
    for c, v in rank:
        if c[0] == 'op' and c[1] == '==' and {c[2], c[3]} & {C(0)}:
            root = v
        elif c[0] == 'op' and c[1] == '==' and any(isc(x) for x in c[2:]):
            res.fail('root', w, '%s: the header is written by rank %s' % (who, nice(c[2] if isc(c[2]) else c[3])))
            return
        else:
            root = '?'
    if not hs:
        if root is True and empty is False:
            res.fail('header', t[5], '%s: rank 0 does not write the header' % who)
        elif root is None and empty is False:
            res.fail('header', t[5], '%s: no rank writes the header' % who)
        else:
            res.ok('header')
        return
    h = hs[0]
    if len(hs) > 1:
        res.fail('header', hs[1][5], '%s: the header is written more than once' % who)
    if root is False or root is None:
        res.fail('root', h[5], '%s: the header is written by %s' % (who, 'every rank' if root is None else 'the other ranks'))
    elif root == '?':
        res.undecided('root', '%s: which rank writes the header' % who)
    else:
        res.ok('root')
    expect(res, 'header', h[5], arg(h, 0), arg(t, 0), '%s: the file of the header' % who)
    at = {id(x): i for i, x in enumerate(st.tr)}
    off = None
    if h[1] == 'MPI_File_write':
        vb = [x for x in st.tr[:at[id(h)]] if x[0] == 'call' and x[1] == 'MPI_File_set_view' and arg(x, 0) == arg(h, 0)]
        if vb and not (isc(arg(vb[-1], 1)) and arg(vb[-1], 1)[1] == 0 and gname(arg(vb[-1], 3)) in ('MPI_CHAR', 'MPI_BYTE')):
            res.fail('header', h[5], '%s: the header is written through the view of the data' % who)
        b = 1
    elif h[1] == 'MPI_File_write_at':
        expect(res, 'header', h[5], arg(h, 1), C(0), '%s: the place of the header' % who)
        b = 2
    else:
        res.undecided('header', h[1])
        return
    expect(res, 'header', h[5], arg(h, b), ('sym', 'header'), '%s: the header text' % who)
    expect(res, 'header', h[5], arg(h, b + 1), ('len', ('sym', 'header')), '%s: the length of the header' % who)
    res.check(gname(arg(h, b + 2)) in ('MPI_CHAR', 'MPI_BYTE'), 'header', h[5], '%s: the header is written as %s' % (who, gname(arg(h, b + 2)) or 'another type'))


def per_rank_only(c):
    return mentions_api(c, 'MPI_Comm_rank')


def mentions_api(t, name):
    return isinstance(t, tuple) and (t[:2] == ('api', name) or any(mentions_api(x, name) for x in t))


def fmt_of(t):
    """the format text measured by a length term, None when it is no measured text"""
    if t is not None and t[0] == 'len':
        t = t[1]
        if t[0] == 'str':
            t = t[1]
        if t[0] == 'fmt' and isc(t[1]) and isinstance(t[1][1], str):
            return t[1][1]
    return None


def rlen(res, m2, cpn, nums, what):
    got = arg(m2, 0)
    if not nums:
        expect(res, 'record', m2[5], got, cpn, '%s: the length of a record' % what)
        return
    F = fmt_of(got)
    if F is None and isc(got) and isinstance(got[1], int):
        res.numlen = got[1]
        return
    if F is None:
        res.undecided('record', '%s: %s' % (what, show(got)))
        return
    n = width(F)
    res.check(n is not None, 'fixed-length', m2[5], '%s: the texts of the format %r have different lengths' % (what, F))
    res.numlen = n


def typed(res, pol, e, what):
    F = arg(e, 1 if e[1] == 'sprintf' else 2)
    ty = pol.types.get(e[6])
    if not (isc(F) and isinstance(F[1], str)) or not ty:
        res.undecided('type', '%s: %s' % (what, show(F)))
        return
    convs = re.findall(r'%[-+ #0]*\d*(?:\.\d+)?(hh|h|ll|l|L|z|j|t)?([a-zA-Z])', F[1])
    for (ln, cv), t in zip(convs, ty):
        want = None
        if cv in 'eEfFgGaA':
            want = ('long double',) if ln == 'L' else ('double', 'float')
        elif cv in 'di':
            want = {'l': ('long',), 'll': ('long long',), None: ('int', 'short', 'char', 'bool', 'signed char', 'unsigned char', 'unsigned short'), '': ('int', 'short', 'char', 'bool', 'signed char', 'unsigned char', 'unsigned short')}.get(ln or '')
        if want is None or t is None:
            res.undecided('type', '%s: %%%s%s' % (what, ln or '', cv))
        else:
            res.check(t in want, 'type', e[5], '%s: a value of type %s is handed to %%%s%s' % (what, t, ln or '', cv))


def buffer(res, I, pol, st, st0, start, t, cpn, who):
    """the numbers of the local array, formatted into the buffer that is written"""
    B = arg(t, 1)
    if B[0] != '&' or B[1][0] != 'h' and not (B[1][0] == 'i' and B[1][1][0] == 'h'):
        res.undecided('buffer', '%s: %s' % (who, show(B)))
        return
    L = B[1]
    if L[0] == 'i':
        expect(res, 'buffer', t[5], L[2], C(0), '%s: the first number written' % who)
        L = L[1]
    size = ('op', '*', ('op', '*', LFULL[0], LFULL[1]), LFULL[2])
    n = st.mem.get(('cnt', L))
    new = next((e for e in st.tr if e[0] == 'new' and e[1] == L), None)
    need = ('op', '+', ('op', '*', size, cpn), C(1))
    pr = [e for e in st.tr[start:] if e[0] == 'call' and e[1] in ('sprintf', 'snprintf')]
    if n is not None and new is not None:
        p, q = poly(n), poly(need)
        if p is not None and q is not None and plain2(n) and plain2(need):
            dlt = dict(p)
            for k, c in q.items():
                dlt[k] = dlt.get(k, 0) - c
            dlt = {k: c for k, c in dlt.items() if c}
            # room that is certainly missing: a negative constant, or only negative terms (all sizes are positive)
            if all(c >= 0 for c in dlt.values()):
                res.ok('room')
            elif all(c <= 0 for c in dlt.values()):
                if set(dlt) == {()} and any(e[1] == 'snprintf' for e in pr):
                    res.undecided('room', show(n))
                else:
                    res.fail('room', new[4], '%s: the buffer has no room for %s' % (who, 'the terminator of the last number' if dlt == {(): -1} else 'all numbers'))
            else:
                res.undecided('room', show(n))
        else:
            res.undecided('room', show(n))
    else:
        res.undecided('room', '%s: the size of the buffer' % who)
    loops = {}
    for e in st.tr[start:]:
        if e[0] == 'loop+':
            for x in e[3] if len(e) > 3 and e[3] else ():
                loops[x[0]] = x
    if not pr:
        # no number on this path: the local array is empty
        if any(e[0] == 'loop0' for e in st.tr[start:]):
            res.ok('every')
        else:
            res.fail('every', t[5], '%s: the numbers are not formatted' % who)
        return
    if len(pr) != 1:
        res.undecided('every', '%s: %d formatting calls' % (who, len(pr)))
        return
    e = pr[0]
    typed(res, pol, e, who)
    o = 0 if e[1] == 'sprintf' else 1
    F = arg(e, 1 + o)
    F0 = fmt_of(cpn)
    if F0 is not None:
        expect(res, 'format', e[5], F, C(F0), '%s: the format' % who)
    if isc(F) and isinstance(F[1], str):
        ln = width(F[1])
        res.check(ln is not None, 'fixed-length', e[5], '%s: the texts of the format %r have different lengths' % (who, F[1]))
        res.check(F[1].endswith('\n'), 'line', e[5], '%s: the numbers are not put on lines' % who)
        if isc(cpn) and ln is not None:
            res.check(cpn[1] == ln, 'record', e[5], '%s: a number takes %d characters, a record has %s' % (who, ln, cpn[1]))
    V = arg(e, 2 + o)
    D = arg(e, 0)
    iv = None
    if V[0] == 'init' and V[1][0] == 'i' and V[1][1] == ('*', ('sym', 'data')):
        iv = V[1][2]
        res.ok('value')
    else:
        (res.fail if plain2(V) else res.undecided)(*(('value', e[5], '%s: %s is formatted instead of the number' % (who, nice(V))) if plain2(V) else ('value', show(V))))
        return
    # the destination: the place of number iv
    if D[0] == '&' and D[1][0] == 'i' and D[1][1] == L:
        p, q = poly(D[1][2]), poly(('op', '*', iv, cpn))
        if p == q:
            res.ok('place')
        elif p is not None and plain2(D[1][2], loop=True):
            res.fail('place', e[5], '%s: number %s goes to %s' % (who, 'i', nice(D[1][2])))
        else:
            res.undecided('place', show(D))
    else:
        res.undecided('place', show(D))
    lp = loops.get(iv)
    if lp is None:
        res.undecided('every', '%s: the loop over the numbers' % who)
        return
    step = lp[2] if isinstance(lp[2], tuple) else C(lp[2])
    if step == C(-1):
        # counted down
        end = any(c[0] == 'op' and isinstance(x, bool) and (c[1] == '<' and x is True and poly(c[2]) == poly(('op', '-', iv, C(1))) and c[3] == C(0) or
                                                            c[1] == '<' and x is False and c[2] == C(0) and poly(c[3]) == poly(iv)) for c, x in st.facts.items())
        if end and same(lp[1], ('op', '-', size, C(1))):
            res.ok('every')
        else:
            res.undecided('every', '%s: the loop over the numbers' % who)
        return
    if step != C(1):
        if isc(step) and isinstance(step[1], int) and step[1] > 1:
            res.fail('every', e[5], '%s: only every number %d is formatted' % (who, step[1]))
        else:
            res.undecided('every', '%s: the loop over the numbers' % who)
        return
    expect(res, 'every', e[5], lp[1], C(0), '%s: the first number formatted' % who)
    last = None
    for c, x in st.facts.items():
        if c[0] == 'op' and c[1] in ('<', '==') and isinstance(x, bool) and poly(c[2]) == poly(('op', '+', iv, C(1))):
            if c[1] == '<' and x is False or c[1] == '==' and x is True:
                last = c[3]
    if last is None:
        res.undecided('every', '%s: the end of the loop' % who)
    else:
        expect(res, 'every', e[5], last, size, '%s: the number of numbers formatted' % who)


def plain2(t, loop=False):
    bad = []

    def walk(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in ('uninit', 'part', 'new') or x[:2] == ('top', 'arg') or x[:1] == ('call',):
                bad.append(x)
            if x and x[0] == 'fmt':
                return
            for y in x:
                walk(y)
    walk(t)
    return not bad


CHECKS['E12'] = e12
