"""Family E, continued: the whole EVPFFT programs (fields, dispatch, output files), all four copies."""
import glob
import os
import re
import tempfile
from sa import facts
from sa.interp import St, Interp, Undecided, C, NULL, isc, tree, strip_targs, mentions, root
from checks.yp import Pol, fns, show
from checks.ev import EP, BASE, THIS, one
from sa.prog import calls_in, walk
from checks.eio import MP, INC, poly, plain, same, nice, expect, sym, gname

MATS = ('mtr::FMatrix', 'mtr::FMatrixKokkos', 'mtr::DFMatrixKokkos', 'mtr::ViewFMatrix', 'mtr::ViewFMatrixKokkos', 'mtr::DViewFMatrixKokkos')
MAT = re.compile(r'mtr::(D?(?:View)?FMatrix(?:Kokkos)?)::(.*)$')
DEFAULT = ('USE_FFTW=1', 'HAVE_KOKKOS=1')


def program(app, defs=DEFAULT):
    """one translation unit holding every source of the program"""
    srcs = sorted(glob.glob('%s/%s/src/*.cpp' % (BASE, app)))
    return srcs, ['-std=c++17', '-w'] + ['-D' + d for d in defs] + ['-I' + INC, '-I%s/%s/src' % (BASE, app)]


_whole = {}


def whole(res, need=None):
    """the facts of each program, all its sources in one unit"""
    out = []
    for d in sorted(glob.glob(BASE + '/*/src')):
        app = d.split('/')[-2]
        if need and not glob.glob(d + '/' + need):
            continue
        if app not in _whole:
            srcs, flags = program(app)
            fd, tu = tempfile.mkstemp(suffix='.cpp', prefix=app + '-')
            with os.fdopen(fd, 'w') as f:
                f.write(''.join('#include "%s"\n' % s for s in srcs))
            try:
                P = facts.facts(tu, flags, [facts.REPO], allow_errors=True)
                for s in srcs if P.errors else ():
                    # two sources that cannot share a unit are still read one by one
                    Q = facts.facts(s, flags, [facts.REPO], allow_errors=True)
                    if Q.errors:
                        break
            finally:
                os.unlink(tu)
            P.source = 'apps/micromechanics/%s/src/*.cpp' % app
            P.app = app
            _whole[app] = P
        P = _whole[app]
        if P.errors:
            res.undecided('parse', '%s needs declarations the stubs do not have: %s' % (app, P.stderr.split('error:')[1][:80] if 'error:' in P.stderr else ''))
            continue
        res.unit(P)
        out.append(P)
    if not out:
        raise Undecided('no EVPFFT program')
    return out


class MK(MP):
    """matrices as handles ('mat', n, class, dims); elements at ('i', ('*', handle), index)"""
    max_unroll = 90
    keep_facts = False
    mark_loops = False
    carry = True
    max_states = 3000

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.acc = None             # set to [] to record element accesses
        self.ast = {}

    def model(self, I, name):
        m = MAT.match(name)
        if m:
            return self.matrix
        if name == 'mtr::each':
            return self.each
        if name in ('Kokkos::fence', 'Kokkos::initialize', 'Kokkos::finalize'):
            return self.nothing
        if name.startswith('Profiler::'):
            return self.nothing
        if name in ('std::operator|', 'std::operator&'):
            return self.flags
        if name in STREAM:
            return getattr(self, STREAM[name])
        return super().model(I, name)

    def stable(self, I, st, L):
        # a member declared const keeps its value whatever is called
        if L != THIS:
            return ()
        return [(('f', L, f['n']), I.read(st, ('f', L, f['n']))) for f in I.P.records.get('EVPFFT', {}).get('fields', ()) if f.get('const') and f.get('scalar')]

    def node(self, e):
        self.ast[id(e)] = e
        return id(e)

    def flags(self, I, st, fr, e, L, args, name):
        a, b = args[0][1], args[1][1]
        if isc(a) and isc(b) and isinstance(a[1], int) and isinstance(b[1], int):
            return [(st, 'n', C(a[1] | b[1] if name.endswith('|') else a[1] & b[1]))]
        return NotImplemented

    def nothing(self, I, st, fr, e, L, args, name):
        I.emit(st, ('call', name, (), None, tuple(args), I.loc(e), None))
        return [(st, 'n', C(None))]

    def each(self, I, st, fr, e, L, args, name):
        I.P.ucount += 1
        lo, hi = args[0][1], args[1][1]
        t = ('each', I.P.ucount, lo, hi)
        I.emit(st, ('each', t, lo, hi, I.loc(e)))
        return [(st, 'n', t)]

    # ---- matrices -----------------------------------------------------------------------------
    def matrix(self, I, st, fr, e, L, args, name):
        cls, m = MAT.match(name).groups()
        if m == cls:
            if e.get('copy') or len(args) == 1 and args[0][1] is not None and args[0][1][0] == 'mat' and 'View' not in cls:
                return NotImplemented
            I.P.ucount += 1
            base = NULL
            dims = [v for _, v in args]
            if 'View' in cls:
                base, dims = (args[0][1], dims[1:]) if args else (NULL, [])
            h = ('mat', I.P.ucount, cls, tuple(dims), base)
            I.write(st, L, h, e, event=False)
            I.emit(st, ('alloc', h, L, I.loc(e)))
            return [(st, 'n', None)]
        if m == 'operator=':
            I.write(st, L, args[0][1], e)
            return [(st, 'n', ('ref!', L))]
        space = 'd' if cls.startswith('D') else ''
        if L[0] == 'f' and L[2] == 'host':
            L, space = L[1], 'h'
        h = I.read(st, L)
        if m == 'operator()':
            ix = [v for _, v in args]
            F = self.element(I, st, h, ix)
            if self.acc is not None:
                self.acc.append((h, L, space, tuple(ix), I.loc(e), st, e))
            return [(st, 'n', ('ref!', F))]
        if m in ('pointer', 'host_pointer', 'device_pointer'):
            sp = {'pointer': space, 'host_pointer': 'h', 'device_pointer': 'd'}[m]
            return [(st, 'n', self.start(I, st, h))]
        if m == 'size':
            d = self.dims(I, h)
            v = None
            if d:
                v = d[0]
                for x in d[1:]:
                    v = I.arith('*', v, x)
            return [(st, 'n', v or ('msize', h))]
        if m == 'order':
            d = self.dims(I, h)
            return [(st, 'n', C(len(d)) if d else ('morder', h))]
        if m == 'dims':
            d, k = self.dims(I, h), args[0][1]
            return [(st, 'n', d[k[1] - 1] if d and isc(k) and 1 <= k[1] <= len(d) else ('mdim', h, k))]
        if m in ('update_host', 'update_device'):
            I.emit(st, ('sync', m[7:], h, L, I.loc(e)))
            return [(st, 'n', C(None))]
        if m == 'set_values':
            I.emit(st, ('fill', h, L, args[0][1], I.loc(e)))
            return [(st, 'n', C(None))]
        return NotImplemented

    def dims(self, I, h):
        return h[3] if h[0] == 'mat' else None

    def start(self, I, st, h):
        if h[0] == 'mat' and h[4] != NULL:
            return h[4]
        return ('&', ('i', ('*', h), C(0)))

    def element(self, I, st, h, ix):
        """location of an element: by linear position where everything is constant"""
        d = self.dims(I, h)
        base = C(0)
        L = ('*', h)
        if h[0] == 'mat' and h[4] != NULL:
            p = h[4]
            if p[0] in ('&', 'arr!'):
                L = p[1]
                if L[0] == 'i' and p[0] == '&':
                    L, base = L[1], L[2]
            else:
                L = ('*', p)
        if d and len(d) == len(ix) and all(isc(x) for x in ix) and all(isc(x) for x in d[:-1]) and isc(base) and isinstance(base[1], int):
            n, s = base[1], 1
            for x, k in zip(ix, d):
                n += (x[1] - 1) * s
                s *= k[1] if isc(k) else 0
            return ('i', L, C(n))
        if base == C(0):
            if all(isc(x) for x in ix):
                return ('i', L, C(tuple(x[1] for x in ix)) if len(ix) > 1 else ix[0])
            return ('i', L, ('ix',) + tuple(ix) if len(ix) > 1 else ix[0])
        return ('i', L, ('off', base, ('ix',) + tuple(ix)))

    # ---- text ---------------------------------------------------------------------------------
    def text(self, I, st, v):
        """what a C string holds now"""
        L = v[1] if v[0] in ('arr!', '&') else None
        if L is not None and v[0] == '&' and L[0] == 'i' and L[2] == C(0):
            L = L[1]
        if L is not None:
            t = I.read(st, L)
            if t[0] in ('fmt', 'cat', 'str') or isc(t) and isinstance(t[1], str):
                return t
        return v

    def fmt(self, I, st, fr, e, L, args, name):
        return super().fmt(I, st, fr, e, L, [(l, self.text(I, st, v)) if i else (l, v) for i, (l, v) in enumerate(args)], name)

    def api(self, I, st, fr, e, L, args, name):
        pt = e.get('pt') or []
        return super().api(I, st, fr, e, L, [(l, self.text(I, st, v) if i < len(pt) and pt[i].startswith('const char') else v) for i, (l, v) in enumerate(args)], name)

    # ---- files --------------------------------------------------------------------------------
    def s_open(self, I, st, fr, e, L, args, name):
        if not args and not name.endswith('::open'):
            I.write(st, L, ('closed',), e, event=False)
            return [(st, 'n', None)]
        I.P.ucount += 1
        f = ('file', I.P.ucount, self.text(I, st, args[0][1]), tuple(v for _, v in args[1:]), 'o' if 'ofstream' in name else 'i')
        I.write(st, L, f, e, event=False)
        I.emit(st, ('open', f, L, I.loc(e)))
        return [(st, 'n', C(None) if name.endswith('::open') else None)]

    def s_close(self, I, st, fr, e, L, args, name):
        f = I.read(st, L)
        I.emit(st, ('close', f, L, I.loc(e)))
        I.write(st, L, ('closed',), e, event=False)
        return [(st, 'n', C(None))]

    def s_state(self, I, st, fr, e, L, args, name):
        f = I.read(st, L)
        if f[0] == 'in!':
            f = f[1]
        t = ('failed', f)
        return [(st, 'n', t if name.endswith(('!', 'fail', 'bad')) else I.neg(t))]

    def s_write(self, I, st, fr, e, L, args, name):
        f = I.read(st, L)
        if f[0] == 'ss':
            return NotImplemented
        p, n = args[0][1], args[1][1]
        v = p
        if p[0] in ('&', 'arr!'):
            v = I.read(st, p[1])
        I.emit(st, ('wr', f, L, v, n, I.loc(e), p, self.node(e)))
        return [(st, 'n', ('ref!', L))]

    def s_put(self, I, st, fr, e, L, args, name):
        f = I.read(st, L)
        I.emit(st, ('wr', f, L, args[0][1], C(1), I.loc(e), args[0][1], self.node(e)))
        return [(st, 'n', ('ref!', L))]

    def s_shl(self, I, st, fr, e, L, args, name):
        if L is None and (not e.get('pt') or 'ostream' not in e['pt'][0]):
            return NotImplemented
        S = L if L is not None else args[0][0]
        v = args[-1][1]
        f = I.read(st, S)
        if f[0] == 'ss' or root(S)[0] == 'g':
            return NotImplemented
        I.emit(st, ('wr', f, S, v, None, I.loc(e), v, self.node(e)))
        return [(st, 'n', ('ref!', S))]

    def s_shr(self, I, st, fr, e, L, args, name):
        a = ([(L, None)] if L is not None else []) + list(args)
        S = a[0][0]
        f = I.read(st, S)
        T = a[1][0] if len(a) > 1 else None
        I.P.ucount += 1
        if T is not None:
            I.write(st, T, ('extract', I.P.ucount, f, name), e, event=False)
        I.emit(st, ('rd', f, S, T, I.loc(e), 'line' if name.endswith('getline') else 'item', ('extract', I.P.ucount, f, name)))
        return [(st, 'n', ('ref!', S))]

    def s_ignore(self, I, st, fr, e, L, args, name):
        f = I.read(st, L)
        I.emit(st, ('rd', f, L, None, I.loc(e), 'skip', tuple(v for _, v in args)))
        return [(st, 'n', ('ref!', L))]


STREAM = {}
for _c in ('ifstream', 'ofstream', 'fstream'):
    STREAM['std::basic_%s::basic_%s' % (_c, _c)] = STREAM['std::basic_%s::open' % _c] = 's_open'
    STREAM['std::basic_%s::close' % _c] = 's_close'
    STREAM['std::basic_%s::is_open' % _c] = 's_state'
for _c in ('fail', 'bad', 'good', 'operator bool', 'operator!'):
    STREAM['std::basic_ios::' + _c] = 's_state'
STREAM['std::basic_ostream::write'] = 's_write'
STREAM['std::basic_ostream::put'] = 's_put'
STREAM['std::operator<<'] = STREAM['std::basic_ostream::operator<<'] = 's_shl'
STREAM['std::operator>>'] = STREAM['std::basic_istream::operator>>'] = STREAM['std::getline'] = 's_shr'
STREAM['std::basic_istream::ignore'] = 's_ignore'


def core(P, name, opaque=(), **kw):
    f = one(None, P, name)
    pol = MK(opaque=opaque)
    for k, v in kw.items():
        setattr(pol, k, v)
    I = Interp(P, pol)
    return f, I



def fieldset(P):
    return {f['n'] for f in P.records.get('EVPFFT', {}).get('fields', ())}


# ---- E16: the history files ---------------------------------------------------------------------------

CONV = re.compile(r'%(?:%|[-+ #0]*(\*|\d+)?(?:\.(?:\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcsp]))')
SCALAR = {'EVM': 'evm', 'EVMP': 'evmp', 'EPVM': 'evmp', 'DVM': 'dvm', 'DVMP': 'dvmp', 'DPVM': 'dvmp', 'SVM': 'svm', 'SVM1': 'svm1', 'STEP': 'imicro', 'IT': 'iter',
          'ERRE': 'erre', 'ERRS': 'errs', 'ERRBC': 'err_disp_bc_vel', 'AVG_NR_IT': 'avg_nr_iter'}
TENSOR = {'E': ('disgradmacroactual', 'disgradmacro'), 'S': ('scauav',), 'EP': ('epav',), 'E_dot': ('velgradmacro',), 'E_dotP': ('edotpav',)}
LOCAL = {'IT': ['itertot']}       # a count of the iterations over all boundary updates of a step
HISTORY = {'vm_file': 'vm.out', 'str_str_file': 'str_str.out', 'err_file': 'err.out', 'conv_file': 'conv.out'}


class Hist(MK):
    """fprintf keeps, with each column, what the named quantities hold at that moment"""
    max_unroll = 7

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.now = {}

    def model(self, I, name):
        if name in ('fprintf', 'std::fprintf'):
            return self.fprintf
        return super().model(I, name)

    def fprintf(self, I, st, fr, e, L, args, name):
        now = {}
        for q in set(SCALAR.values()):
            now[q] = [I.read(st, ('f', THIS, q))]
        for q, ms in TENSOR.items():
            for i in (1, 2, 3):
                for j in (1, 2, 3):
                    now['%s%d%d' % (q, i, j)] = [I.read(st, self.element(I, st, I.read(st, ('f', THIS, m)), [C(i), C(j)])) for m in ms if m in self.fields]
        I.P.ucount += 1
        self.now[I.P.ucount] = now, [[x.get('n') for x in walk(a) if x.get('k') == 'ref'] for a in e['a']]
        I.emit(st, ('call', 'fprintf', (), None, tuple(args), I.loc(e), I.P.ucount))
        return [(st, 'n', ('top', 'int', 0))]


def handle(v):
    """the history file a stream value stands for"""
    if v[0] == 'init' and v[1][0] == 'f' and isinstance(v[1][2], str):
        return v[1][2]
    if v[0] == 'part' and v[2] == 'f' and isinstance(v[3], str):
        return v[3]
    return None


def rows(pol, st, member):
    """[(format piece, column values...)] written to one history file on a path, as the columns of its lines"""
    cols, line, lines = [], '', []
    for e in st.tr:
        if e[0] != 'call' or e[1] != 'fprintf' or handle(e[4][0][1]) != member:
            continue
        F = e[4][1][1]
        if not isc(F) or not isinstance(F[1], str):
            return None
        pos, k = 0, 2
        for m in CONV.finditer(F[1]):
            line += F[1][pos:m.start()]
            pos = m.end()
            if m.group(0) == '%%':
                line += '%'
                continue
            if m.group(1) == '*' or k >= len(e[4]):
                return None
            line += '\0'
            cols.append((e[4][k][1], pol.now[e[6]][0], e[5], pol.now[e[6]][1][k]))
            k += 1
        line += F[1][pos:]
        while '\n' in line:
            a, line = line.split('\n', 1)
            n = a.count('\0')
            lines.append((a, cols[:n], e[5]))
            cols = cols[n:]
    if line:
        lines.append((line + '\1', cols, e[5]))
    return lines


def wanted(name):
    if name in SCALAR:
        return SCALAR[name]
    m = re.match(r'([A-Za-z_]+?)([123])([123])$', name)
    if m and m.group(1) in TENSOR:
        return name
    return None


def e16(res, tier):
    res.rule('the heading written to each history file when it is opened names its columns; every line written later has exactly those columns, and the value in each column is the one the program holds under that name at that moment')
    res.rule('only rank 0, which opened the files, writes to them')
    for P in whole(res):
        fs = fieldset(P)
        f = one(res, P, 'OutputFileManager::open_files')
        pol = Hist()
        pol.fields = fs
        I = Interp(P, pol)
        heads = None
        for st, k, v in I.run(f):
            if k != 'n':
                continue
            files = {}
            for e in st.tr:
                if e[0] == 'write' and e[1][0] == 'f' and e[1][1] == THIS and e[2][0] == 'call' and e[2][1] == 'fopen':
                    files[e[2]] = (e[1][2], e[2][4][0], e[3])
            heads = {}
            for e in st.tr:
                if e[0] == 'call' and e[1] == 'fprintf':
                    m = files.get(e[4][0][1])
                    F = e[4][1][1]
                    if m is None or not isc(F) or len(e[4]) != 2:
                        res.undecided('heading', 'a heading is not a constant text written to an opened file')
                        continue
                    heads[m[0]] = heads.get(m[0], '') + F[1].replace('%%', '%')
            for h, (m, name, w) in files.items():
                if m in HISTORY:
                    res.check(name == C(HISTORY[m]), 'name', w, '%s is opened as %s instead of %s' % (m, nice(name), HISTORY[m]))
        res.stats(I)
        if heads is None:
            res.undecided('heading', 'the history files are never opened')
            continue
        for m, t in heads.items():
            names = t.rstrip('\n').split(',')
            res.check(t.endswith('\n') and t.count('\n') == 1 and all(names) and len(set(names)) == len(names), 'heading', P.where(f), 'the heading of %s is not one line of distinct names: %r' % (m, t[:60]))
            for n in names:
                if wanted(n) is None:
                    res.undecided('heading', 'unknown column %s of %s' % (n, m))
        wr = {}
        for name in ('EVPFFT::write_macro_state', 'EVPFFT::evolve'):
            f = one(res, P, name)
            opq = tuple(sorted({x['fn'] for x in calls_in(f['body']) if x.get('fn', '').startswith('EVPFFT::') and (x['fn'] == 'EVPFFT::write_macro_state' or not writes_history(P, x.get('fid')))}))
            for rank in (0, 1):
                pol = Hist(opaque=opq)
                pol.fields = fs
                I = Interp(P, pol)
                st0 = St()
                st0.mem[('f', THIS, 'my_rank')] = C(rank)
                st0.mem[('f', THIS, 'num_ranks')] = C(2)
                outs = I.run(dict(f, body=prune(P, f['body'])), st=st0)
                res.stats(I)
                for st, k, v in outs + [(s, 'more', u) for u, _, s in I.backs]:
                    if rank:
                        e = next((e for e in st.tr if e[0] == 'call' and e[1] == 'fprintf' and handle(e[4][0][1]) in HISTORY), None)
                        if e is None:
                            res.ok('rank')
                        elif any(re.search('rank|root|master|print|write|output', str(c)) for c in st.facts):
                            res.undecided('rank', e[5])
                        else:
                            res.fail('rank', e[5], 'a rank that did not open the history file writes to it')
                        continue
                    if name == 'EVPFFT::write_macro_state' and k in ('n', 'ret'):
                        for m in ('vm_file', 'str_str_file'):
                            ls = rows(pol, st, m) if m in heads else None
                            if ls is not None:
                                n = sum(1 for l in ls if not l[0].endswith('\1'))
                                if n == 0 and any(e[0] in ('call', 'call!') and e[1] not in ('fprintf', 'std::fprintf') and (e[1].startswith('EVPFFT::') or any(handle(a[1]) == m for a in e[4] if a[1] is not None)) or e[0] in ('loop0', 'loop+') for e in st.tr):
                                    res.undecided('step', 'what a step adds to %s' % HISTORY[m])
                                    continue
                                res.check(n == 1, 'step', P.where(f), 'a step adds %d lines to %s' % (n, HISTORY[m]))
                    for m, t in heads.items():
                        ls = rows(pol, st, m)
                        if ls is None:
                            res.undecided('row', 'lines of %s are not written with constant formats' % m)
                            continue
                        names = t.rstrip('\n').split(',')
                        for text, cols, w in ls:
                            if text.endswith('\1'):
                                if k == 'n' or k == 'ret':
                                    res.fail('row', w, 'a line of %s is left without its end' % HISTORY.get(m, m))
                                continue
                            wr[m] = wr.get(m, 0) + 1
                            if not res.check(text == ','.join(['\0'] * len(names)), 'row', w, '%s has %d columns (%s) but a line is written as %r' % (HISTORY.get(m, m), len(names), t.strip()[:40], text.replace('\0', '#')[:60])):
                                continue
                            for n, (v_, now, w_, refs) in zip(names, cols):
                                q = wanted(n)
                                if refs == LOCAL.get(n):
                                    res.ok('column')
                                    continue
                                if q is None or q not in now or not now[q]:
                                    continue
                                v_, now = named(v_), {a: [named(x) for x in b] for a, b in now.items()}
                                if any(same(v_, x) for x in now[q]):
                                    res.ok('column')
                                    continue
                                other = [a for a, b in now.items() if any(same(v_, x) for x in b) and plain(v_)]
                                if other:
                                    res.fail('column', w_, 'column %s of %s holds %s' % (n, HISTORY.get(m, m), other[0]))
                                elif plain(v_) and all(same(v_, x) is False for x in now[q]):
                                    res.fail('column', w_, 'column %s of %s holds %s' % (n, HISTORY.get(m, m), nice(v_)))
                                else:
                                    res.undecided('column', 'column %s of %s: %s' % (n, m, nice(v_)))
        for m in heads:
            if not wr.get(m):
                res.undecided('row', 'no line of %s is seen' % m)


def named(t):
    """fields of an object another function has changed are distinct unknowns"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 4 and t[0] == 'part' and isinstance(t[1], tuple) and t[1][:2] == ('top', 'obj') and t[2] == 'f':
        return ('sym', '%s (%d)' % (t[3], t[1][2]))
    return tuple(named(x) for x in t)


def prune(P, n):
    """the statement without the ifs that only call functions writing no history"""
    if isinstance(n, list):
        return [x for x in (prune(P, y) for y in n) if x is not None]
    if not isinstance(n, dict):
        return n
    if n.get('k') == 'if' and not any(x.get('k') in ('asg', 'ret', 'brk', 'cont', 'goto', 'throw') or x.get('k') == 'un' and x.get('op') in ('++', '--') for x in walk(n)) \
            and not any(x.get('fn') in ('fprintf', 'std::fprintf', 'exit', 'abort') or writes_history(P, x.get('fid')) for x in calls_in(n)):
        return {'k': 'block', 's': [], 'l': n.get('l')}
    return {k: prune(P, v) if isinstance(v, (dict, list)) and k not in ('l',) else v for k, v in n.items()}


def writes_history(P, fid, seen=None):
    """the function writes formatted text somewhere below"""
    seen = seen if seen is not None else set()
    f = P.funcs.get(fid)
    if f is None or fid in seen or not f.get('body'):
        return False
    seen.add(fid)
    for x in calls_in(f['body']):
        if x.get('fn') in ('fprintf', 'std::fprintf'):
            a = x['a'][0] if x.get('a') else None
            if any(y.get('k') == 'mem' and y.get('n') in HISTORY or y.get('m') in HISTORY for y in walk(a)) or a and a.get('k') == 'ref':
                return True
        if writes_history(P, x.get('fid'), seen):
            return True
    return False



# ---- E19: the boundary conditions ----------------------------------------------------------------------

class Unknown(Exception):
    pass


def value(t, env):
    """the number a term stands for when env gives its atoms"""
    if t in env:
        return env[t]
    if isc(t) and isinstance(t[1], (int, float, bool)):
        return t[1]
    if t[0] == 'not':
        return not value(t[1], env)
    if t[0] == 'neg':
        return -value(t[1], env)
    if t[0] == 'op' and len(t) == 4:
        if t[1] in ('&&', '||'):
            a = value(t[2], env)
            return (a and value(t[3], env)) if t[1] == '&&' else (a or value(t[3], env))
        a, b = value(t[2], env), value(t[3], env)
        if t[1] in ('/', '%'):
            if not isinstance(a, int) or not isinstance(b, int) or b == 0:
                raise Unknown(t)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if t[1] == '/' else a - q * b
        op = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: a < b, '==': lambda: a == b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
              '!=': lambda: a != b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}.get(t[1])
        if op:
            return op()
    raise Unknown(t)


def elem(m, *ix):
    return ('init', ('i', ('*', ('init', ('f', THIS, m))), C(ix if len(ix) > 1 else ix[0])))


def bits(m):
    while m:
        b = (m & -m).bit_length() - 1
        yield b
        m &= m - 1


def verdicts(res, P, name, atoms, accepted, rule, w, say, extra=None):
    """every path of a test against what it must say for each 0/1 assignment of its inputs"""
    import itertools
    f = one(res, P, name)
    pol = MK()
    pol.keep_facts = True
    pol.max_unroll = 12
    I = Interp(P, pol)
    outs = I.run(f)
    res.stats(I)
    paths = []
    for st, k, v in outs:
        paths.append((st, k, None))
    if any(k not in ('n', 'ret', 'exit', 'x') for st, k, _ in paths):
        raise Undecided(name)
    n = len(atoms)
    full = (1 << (1 << n)) - 1
    cache = {}
    for i, x in enumerate(atoms):       # bit b of the mask: the value of the atom in assignment b
        half = 1 << i
        cell = ((1 << half) - 1) << half
        m, size = cell, 2 * half
        while size < 1 << n:
            m |= m << size
            size *= 2
        cache[x] = m

    def table(t):
        """{value: mask of the assignments that give it}"""
        if t in cache and not isinstance(cache[t], dict):
            return {1: cache[t], 0: full & ~cache[t]}
        if t not in cache:
            if isc(t):
                cache[t] = {value(t, {}): full}
            elif t[0] in ('op', 'not', 'neg'):
                r = {}
                subs = [table(x) for x in t[(2 if t[0] == 'op' else 1):]]
                for combo in itertools.product(*[d.items() for d in subs]):
                    m = full
                    for _, x in combo:
                        m &= x
                    if m:
                        v = value(t[:2 if t[0] == 'op' else 1] + tuple(C(c[0]) for c in combo), {})
                        r[v] = r.get(v, 0) | m
                cache[t] = r
            else:
                raise Unknown(t)
        return cache[t]

    want = 0
    for b in range(1 << n):
        if accepted({x: b >> i & 1 for i, x in enumerate(atoms)}):
            want |= 1 << b
    seen = 0
    und = False
    bad = None
    for st, k, used in paths:
        m = full
        try:
            for c, v in st.facts.items():
                if isinstance(v, bool):
                    m &= sum(x for y, x in table(c).items() if bool(y) == v)
        except Unknown:
            und = True
            continue
        seen |= m
        wrong = m & (~want if k in ('n', 'ret') else want)
        res.ok(rule, bin(m).count('1') or 1)
        if wrong and bad is None:
            b = (wrong & -wrong).bit_length() - 1
            bad = '%s %s' % ('accepted:' if k in ('n', 'ret') else 'refused:', say({x: b >> i & 1 for i, x in enumerate(atoms)}))
        if extra and m & want and k in ('n', 'ret') and bad is None:
            for t, spec, text in extra(I, st):
                try:
                    d = table(t)
                except Unknown:
                    continue
                for v, mm in d.items():
                    for b in bits(mm & m & want):
                        env = {x: b >> i & 1 for i, x in enumerate(atoms)}
                        if v != spec(env) and bad is None:
                            bad = '%s %s for %s' % (text, v, say(env))
    if bad:
        res.fail(rule, P.where(f), bad)
    elif und or seen != full:
        res.undecided(rule, 'a path of %s depends on more than the boundary conditions' % name)
    for st, k, _ in paths:
        if k == 'exit':
            e = [e for e in st.tr if e[0] == 'call' and e[1] in ('exit', 'std::exit', 'abort')]
            res.check(bool(e) and (e[-1][1] == 'abort' or e[-1][4][0][1] != C(0)), 'status', e[-1][5] if e else P.where(f), 'inconsistent boundary conditions end the program as if it had succeeded')
            res.check(any(e[0] == 'call' and 'print' in e[1] or e[0] == 'wr' for e in st.tr), 'message', P.where(f), 'inconsistent boundary conditions are refused without a message')


def e19(res, tier):
    res.rule('the paths of check_iudot and check_mixed_bc are compared, for every 0/1 assignment of iudot and iscau, with the documented rule: never exactly two prescribed diagonal components, no off-diagonal pair both unprescribed; and per component exactly one of strain rate and stress prescribed')
    for P in whole(res):
        a9 = [elem('iudot', i, j) for i in (1, 2, 3) for j in (1, 2, 3)]

        def grid(env):
            return 'iudot = ' + ' / '.join(' '.join(str(env[elem('iudot', i, j)]) for j in (1, 2, 3)) for i in (1, 2, 3))

        def good1(env):
            u = {(i, j): env[elem('iudot', i, j)] for i in (1, 2, 3) for j in (1, 2, 3)}
            return sum(u[i, i] for i in (1, 2, 3)) != 2 and all(u[i, j] + u[j, i] > 0 for i in (1, 2, 3) for j in (1, 2, 3) if i != j)
        verdicts(res, P, 'EVPFFT::check_iudot', a9, good1, 'gradient', None, grid)
        a15 = a9 + [elem('iscau', i) for i in range(1, 7)]

        def rates(env):
            u = lambda i, j: env[elem('iudot', i, j)]
            return [u(1, 1), u(2, 2), u(3, 3), u(2, 3) & u(3, 2), u(1, 3) & u(3, 1), u(1, 2) & u(2, 1)]

        def good2(env):
            return all(d + env[elem('iscau', i)] == 1 for i, d in enumerate(rates(env), 1))

        def left(I, st):
            for i in range(6):
                yield I.read(st, ('i', ('*', ('init', ('f', THIS, 'idsim'))), C(i + 1))), lambda env, i=i: rates(env)[i], 'component %d of idsim is left as' % (i + 1)
        verdicts(res, P, 'EVPFFT::check_mixed_bc', a15, good2, 'mixed', None, lambda env: grid(env) + ', iscau = ' + ' '.join(str(env[elem('iscau', i)]) for i in range(1, 7)), left)



# ---- E17: the VTK files -------------------------------------------------------------------------------

TYPES = {'Int8': 1, 'UInt8': 1, 'Int32': 4, 'UInt32': 4, 'Int64': 8, 'UInt64': 8, 'Float32': 4, 'Float64': 8}
DERIVED = {'EVPFFT::calculate_eel': ('eel',), 'symmetrize': ('sym', 0), 'calc_IPF_colors': ('ipf', 0), 'calculate_vm_field': ('vm', 0)}
SYM6 = [(1, 1), (2, 2), (3, 3), (1, 2), (2, 3), (1, 3)]       # XX YY ZZ XY YZ XZ, the order VTK gives six components
FIELD = {'strain': ('sym', 'disgrad'), 'stress': 'sg', 'pl-strain-rate': ('sym', 'edotp'), 'el-strain': ('sym', ('eel',))}
QUANTITY = dict(FIELD)
for _n, _s in FIELD.items():
    QUANTITY['vm-' + _n] = ('vm', _s, 0 if _n == 'stress' else 1)
QUANTITY.update({'phase_id': 'jphase', 'grain_id': 'jgrain', 'IPFColor': ('ipf', 'ag')})


class VM(MK):
    """calculate_eel, symmetrize, calc_IPF_colors and calculate_vm_field derive one matrix from others"""
    straight = True
    drop_dead = True

    def quiet(self, L):
        return L[0] == 'i' and L[1][0] == '*' and any(isinstance(x, tuple) and len(x) == 4 and x[0] == 'each' for x in tree(L[2]))

    def model(self, I, name):
        if name in DERIVED:
            return self.derive
        return super().model(I, name)

    def derive(self, I, st, fr, e, L, args, name):
        spec = DERIVED[name]
        src = [self.origin(I, st, args[k]) for k in spec[1:]]
        kind = [args[-1][1]] if spec[0] == 'vm' else []
        dst = args[1 if spec[0] == 'vm' else -1]
        I.emit(st, ('derive', unwrap(I.read(st, dst[0]) if dst[0] is not None else dst[1]), (spec[0],) + tuple(src) + tuple(x[1] if isc(x) else x for x in kind), I.loc(e)))
        return [(st, 'n', C(None))]

    def origin(self, I, st, a):
        h = I.read(st, a[0]) if a[0] is not None else a[1]
        return source(st, h)


def unwrap(h):
    """a matrix passed by value shares its data with the original"""
    while h[0] == 'new' and len(h) == 3 and len(h[2]) == 1:
        h = h[2][0]
    return h


def source(st, h, upto=None):
    """what a matrix holds: the member it is, or what it was derived from last"""
    h = unwrap(h)
    got = None
    for e in st.tr[:upto] if upto is not None else st.tr:
        if e[0] == 'derive' and e[1] == h:
            got = e[2]
    return got or member(h) or h


def member(h):
    if h[0] in ('init', 'part'):
        n = h[1][2] if h[0] == 'init' and h[1][0] == 'f' else h[3] if h[0] == 'part' and h[2] == 'f' else None
        return n if isinstance(n, str) else None
    return None


def trip(st, var, start, step):
    """the number of turns of a counting loop, from the condition that ended it"""
    if step == ('-', C(1)):
        for c, v in st.facts.items():
            if c[0] == 'op' and c[1] == '<' and c[3] == var and v is True:
                return ('op', '-', start, c[2])
            if c[0] == 'op' and c[1] == '<' and c[2] == var and v is False:
                return ('op', '+', ('op', '-', start, c[3]), C(1))
    if step != C(1):
        return None
    for c, v in st.facts.items():
        if c[0] == 'op' and c[1] == '<' and c[2] == var and v is True:
            return ('op', '-', c[3], start)
        if c[0] == 'op' and c[1] == '<' and c[3] == var and v is False:
            return ('op', '+', ('op', '-', c[2], start), C(1))
    return None


def stream_items(st, f):
    """everything written to one file: ('t', pieces, where) and ('b', value, bytes, loops, position in the trace, where, event)"""
    out, loops = [], []
    for k, e in enumerate(st.tr):
        if e[0] == 'loop+':
            loops.append((e[1], e[3]))
        elif e[0] == 'loop-' and loops and loops[-1][0] == e[1]:
            loops.pop()
        elif e[0] == 'wr' and e[1] == f:
            v = e[3]
            ps = v[1] if v[0] == 'cat' else [v]
            if all(isc(p) and isinstance(p[1], str) or p[0] in ('shown', 'str', 'fmt') for p in ps):
                n = e[4]
                out.append(('t', list(ps), e[5], tuple(loops), n))
            elif isc(v) and isinstance(v[1], int) and e[4] == C(1):
                out.append(('t', [C(chr(v[1] & 255))], e[5], tuple(loops), None))
            else:
                out.append(('b', v, e[4], tuple(loops), k, e[5], e))
    return out


TAG = re.compile(r'<(/?)([A-Za-z?]\w*)((?:\s+[\w:]+\s*=\s*"[^"]*")*)\s*(/?)>')


def xml(text):
    """(tags [(depth path, name, attributes)], message) of a text of elements"""
    tags, stack, pos = [], [], 0
    for m in TAG.finditer(text):
        gap = text[pos:m.start()]
        if '<' in gap or '>' in gap:
            return tags, 'text %r is no element' % gap.strip()[:40]
        pos = m.end()
        if m.group(1):
            if not stack or stack[-1] != m.group(2):
                return tags, '</%s> closes %s' % (m.group(2), '<%s>' % stack[-1] if stack else 'nothing')
            stack.pop()
            continue
        at = re.findall(r'([\w:]+)\s*=\s*"([^"]*)"', m.group(3))
        if len({a for a, _ in at}) != len(at):
            return tags, 'an attribute of <%s> is repeated' % m.group(2)
        tags.append((tuple(stack), m.group(2), dict(at)))
        if not m.group(4):
            stack.append(m.group(2))
    if re.search('[<>]', text[pos:]):
        return tags, 'text %r is no element' % text[pos:].strip()[:40]
    return tags, '<%s> is never closed' % stack[-1] if stack else None


def integral(t):
    """a term made of grid sizes and constants only"""
    p = poly(t)
    return p is not None and all(member(a) and re.match(r'npts\d', member(a)) for k in p for a in k)


def eqp(a, b):
    p, q = poly(a), poly(b)
    return p is not None and q is not None and p == q


def mul(*a):
    r = a[0]
    for x in a[1:]:
        r = ('op', '*', r, x)
    return r


def add(a, b):
    return ('op', '+', a, b)


def npt(k):
    return ('init', ('f', THIS, 'npts%d' % k))


CELLS = mul(npt(1), npt(2), npt(3))
POINTS = mul(add(npt(1), C(1)), add(npt(2), C(1)), add(npt(3), C(1)))


def unshow(p):
    while p[0] in ('shown', 'str'):
        p = p[1]
    return p


class VtkFile:
    def __init__(self, res, st, f, what):
        self.res, self.st, self.f, self.what = res, st, f, what
        self.items = stream_items(st, f)
        self.where = next((x[2] if x[0] == 't' else x[5] for x in self.items), '?')

    def parse(self):
        """tags, blocks; None when something cannot be read"""
        res = self.res
        text, vals, self.blocks, started, repeated = '', [], [], False, []
        binary = []
        for x in self.items:
            if x[0] == 't':
                for p in x[1]:
                    if isc(p):
                        text += p[1]
                    else:
                        text += '\0%d\0' % len(vals)
                        vals.append((unshow(p), x[2], x[3]))
                if x[3] and not (len(x[3]) == 1):
                    return None
                if x[4] is not None:
                    n = len(''.join(p[1] for p in x[1])) if all(isc(p) for p in x[1]) else None
                    if n is not None and isc(x[4]) and isinstance(x[4][1], int):
                        res.check(x[4][1] == n, 'text', x[2], '%d of the %d characters of %r are written' % (x[4][1], n, ''.join(p[1] for p in x[1])[:30]))
            else:
                if '\1' not in text:
                    text += '\1'
                binary.append(x)
        self.vals = vals
        head, sep, tail = text.partition('\1')
        if sep:
            m = re.search(r'<AppendedData encoding="raw">\s*_$', head)
            if not res.check(bool(m), 'appended', self.where, 'the binary data of %s do not begin right behind <AppendedData encoding="raw"> and an underscore: %r' % (self.what, head[-40:])):
                return None
            text = head[:-1] + tail
        tags, msg = xml(text)
        if not res.check(msg is None, 'xml', self.where, '%s is no well-formed XML: %s' % (self.what, re.sub('\0\\d+\0', '#', msg or ''))):
            return None
        self.tags = tags
        i = 0
        while i < len(binary):
            h = binary[i]
            if h[3] or h[2] != C(8) or not integral(h[1]):
                res.fail('block', h[5], 'a data block of %s does not begin with its 8-byte size' % self.what) if not h[3] and plain(h[1]) and h[2] != C(8) else res.undecided('block', h[5])
                return None
            data = []
            i += 1
            while i < len(binary) and (binary[i][3] or binary[i][2] != C(8) or not integral(binary[i][1])):
                data.append(binary[i])
                i += 1
            self.blocks.append((h, data))
        return tags

    def attr(self, v):
        m = re.fullmatch('\0(\\d+)\0', v or '')
        return self.vals[int(m.group(1))][0] if m else C(int(v)) if v and v.isdigit() else v

    def size(self, x):
        """bytes one item writes over all turns of its loops"""
        n = x[2]
        for uid, vs in x[3]:
            ts = [trip(self.st, *v) for v in vs]
            ts = [t for t in ts if t is not None]
            if not ts:
                return None
            n = mul(ts[0], n)
        return n


def vtk_blocks(res, F, arrays, points, cells):
    """offsets, sizes, counts"""
    res.check(len(arrays) == len(F.blocks), 'arrays', F.where, '%s declares %d appended arrays and holds %d data blocks' % (F.what, len(arrays), len(F.blocks)))
    off = C(0)
    for (path, tag, at), (h, data) in zip(arrays, F.blocks):
        n = at.get('Name')
        w = h[5]
        ty = TYPES.get(at.get('type'))
        if not res.check(ty is not None, 'type', w, 'array %s has no VTK type: %s' % (n, at.get('type'))):
            continue
        o = F.attr(at.get('offset'))
        if not eqp(o, off):
            if isinstance(o, tuple) and plain(o) and plain(off) and poly(o) is not None:
                res.fail('offset', w, 'array %s of %s is declared at offset %s but its data begin elsewhere' % (n, F.what, nice(o)[:60]))
            else:
                res.undecided('offset', '%s of %s' % (n, F.what))
        else:
            res.ok('offset')
        tuples = F.attr(at.get('NumberOfTuples')) if 'NumberOfTuples' in at else points if 'Points' in path or 'PointData' in path else cells
        comps = F.attr(at.get('NumberOfComponents')) if 'NumberOfComponents' in at else C(8) if n == 'connectivity' else C(1)
        if tuples is None:
            res.undecided('size', n)
        else:
            want = mul(tuples, comps, C(ty))
            if eqp(h[1], want):
                res.ok('size')
            elif integral(h[1]) and integral(want):
                res.fail('size', w, 'the block of %s in %s gives its size as %s' % (n, F.what, nice(h[1])[:60]))
            else:
                res.undecided('size', n)
        tot = C(0)
        for x in data:
            s = F.size(x)
            if s is None:
                tot = None
                break
            tot = add(tot, s)
        if tot is None:
            res.undecided('data', n)
        elif eqp(tot, h[1]):
            res.ok('data')
        elif integral(tot):
            res.fail('data', data[0][5] if data else w, 'the block of %s in %s announces another number of bytes than are written' % (n, F.what))
        else:
            res.undecided('data', n)
        for x in data:
            if x[3] or len(data) > 1:
                res.check(x[2] == C(ty), 'element', x[5], 'elements of %s (%s) are written with %s bytes' % (n, at.get('type'), nice(x[2]))) if isc(x[2]) else res.undecided('element', n)
        off = add(off, add(h[1], C(8)))


def cell_index(F, x, upto):
    """the loops around an item, outermost first, as grid directions: [variable of z, y, x, rest...] or None"""
    vs = []
    for uid, lv in x[3]:
        good = [v for v in lv if trip(F.st, *v) is not None]
        if len(good) != 1:
            good = [v for v in good if not any(v is not u and mentions(trip(F.st, *u), v[0]) for u in good)][:1]
        if not good:
            return None
        vs.append((good[0], trip(F.st, *good[0])))
    return vs


def grid_order(F, x, plus):
    """(vx, vy, vz, inner loops) when the loops run z, y, x over the local block (plus one in each direction for points)"""
    vs = cell_index(F, x, None)
    if vs is None or len(vs) < 3:
        return None
    want = [add(npt(k), C(1)) if plus else npt(k) for k in (3, 2, 1)]
    return vs[:3], [eqp(v[1], w) for v, w in zip(vs, want)], vs[3:]


def element(v):
    """(handle, index list) of the matrix element a value is"""
    if v[0] in ('init', 'part') and isinstance(v[1], tuple) and v[1] and v[1][0] == 'i' and v[1][1][0] == '*':
        ix = v[1][2]
        return v[1][1][1], list(ix[1:]) if ix[0] == 'ix' else [C(k) for k in ix[1]] if isc(ix) and isinstance(ix[1], tuple) else [ix]
    return None


def cell_data(res, F, n, comps, data, want):
    w = data[0][5]
    seen = []
    for x in data:
        el = element(x[1]) or (element(('init', x[6][6][1])) if x[6][6][0] == '&' else None)
        g = grid_order(F, x, False)
        if el is None or g is None:
            res.undecided('values', '%s of %s' % (n, F.what))
            return
        (vz, vy, vx), ok, inner = g
        src = source(F.st, el[0], x[4])
        if not is_source(src):
            res.undecided('values', '%s of %s' % (n, F.what))
            return
        if not res.check(src == want, 'values', x[5], 'array %s of %s is written from %s' % (n, F.what, say_source(src))):
            return
        ix = el[1]
        sp = [vx[0][0], vy[0][0], vz[0][0]]
        starts = all(v[0][1] == C(1) for v in (vx, vy, vz))
        if all(ok) and ix[-3:] == sp and starts:
            res.ok('order')
        elif sorted(map(repr, ix[-3:])) == sorted(map(repr, sp)):
            res.fail('order', x[5], 'the cells of array %s are not written with the first direction running fastest' % n)
            return
        else:
            res.undecided('order', n)
            return
        lead = ix[:-3]
        if inner:
            if len(inner) != 1 or lead != [inner[0][0][0]] or inner[0][0][1] != C(1):
                res.undecided('components', n)
                return
            k = inner[0][1]
            if not (isc(k) or poly(k) is not None and set(poly(k)) <= {()}):
                res.undecided('components', n)
                return
            m = poly(k).get((), 0)
            seen += [(i,) for i in range(1, m + 1)]
        else:
            if not all(isc(c) for c in lead):
                res.undecided('components', n)
                return
            seen.append(tuple(c[1] for c in lead))
    m = comps[1] if isc(comps) else None
    if m == 6:
        exp = SYM6
        seen = [tuple(sorted(s)) for s in seen]
    elif m == 1:
        exp = [()]
    else:
        exp = [(i,) for i in range(1, (m or 0) + 1)]
    res.check(seen == exp, 'components', w, 'the components of %s are written in the order %s' % (n, ' '.join(''.join(map(str, s)) for s in seen)))


def is_source(s):
    return isinstance(s, str) or isinstance(s, tuple) and s and s[0] in ('eel', 'sym', 'ipf', 'vm') and all(is_source(x) or x in (0, 1) for x in s[1:])


def say_source(s):
    return s if isinstance(s, str) else '%s(%s)' % (s[0], ', '.join(str(say_source(x)) if not isinstance(x, int) else str(x) for x in s[1:]))


HEX = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


def vtu(res, P, st, f, rank):
    F = VtkFile(res, st, f, 'the VTU file')
    tags = F.parse()
    if tags is None:
        return None
    names = [t[1] for t in tags]
    res.check(names[:2] == ['VTKFile', 'UnstructuredGrid'] and tags[0][2].get('type') == 'UnstructuredGrid', 'kind', F.where, 'the VTU file is no UnstructuredGrid file')
    res.check(tags[0][2].get('header_type') == 'UInt64' and tags[0][2].get('byte_order') == 'LittleEndian', 'header', F.where, 'sizes of 8 bytes need header_type UInt64')
    piece = next((t for t in tags if t[1] == 'Piece'), None)
    if not res.check(piece is not None, 'piece', F.where, 'the VTU file has no Piece'):
        return None
    pts, cls = F.attr(piece[2].get('NumberOfPoints')), F.attr(piece[2].get('NumberOfCells'))
    for v, want, what in ((pts, POINTS, 'points'), (cls, CELLS, 'cells')):
        if isinstance(v, tuple) and (plain(v) or eqp(v, want)):
            res.check(eqp(v, want), 'counts', F.where, 'the number of %s of the piece is given as %s' % (what, nice(v)[:60]))
        else:
            res.undecided('counts', what)
    arrays = [t for t in tags if t[1] == 'DataArray']
    res.check(all(t[2].get('format') == 'appended' for t in arrays), 'arrays', F.where, 'an array of the VTU file is not declared as appended')
    ns = [t[2].get('Name') for t in arrays]
    res.check(len(set(ns)) == len(ns), 'names', F.where, 'two arrays of the VTU file have one name')
    vtk_blocks(res, F, arrays, pts, cls)
    for (path, tag, at), (h, data) in zip(arrays, F.blocks):
        n = at.get('Name')
        if not data:
            continue
        w = data[0][5]
        if n == 'TimeValue':
            time_value(res, data, F.what)
        elif n == 'Points':
            lead = []
            for x in data:
                el, g = element(x[1]), grid_order(F, x, True)
                if el is None or g is None or len(g[2]) > 1:
                    res.undecided('points', w)
                    lead = None
                    break
                (vz, vy, vx), ok, inner = g
                sp = [vx[0][0], vy[0][0], vz[0][0]]
                if all(ok) and el[1][1:] == sp:
                    res.ok('points')
                    lead.append(el[1][0])
                    if inner:
                        lead = None if len(data) > 1 or not eqp(inner[0][1], C(3)) or inner[0][0][1] != C(1) else [C(k) for k in (1, 2, 3)] if el[1][0] == inner[0][0][0] else [el[1][0]]
                        if lead is None:
                            res.undecided('points', w)
                            break
                elif sorted(map(repr, el[1][1:])) == sorted(map(repr, sp)):
                    res.fail('points', w, 'the points are not written with the first direction running fastest')
                else:
                    res.undecided('points', w)
            if lead:
                res.check(lead == [C(1), C(2), C(3)], 'points', w, 'the coordinates of a point are not written as x, y, z') if all(isc(c) for c in lead) else res.undecided('points', w)
        elif n == 'connectivity':
            got, base = [], None
            for x in data:
                el, g = element(x[1]), grid_order(F, x, False)
                if el is None or g is None or len(el[1]) != 3:
                    got = None
                    break
                (vz, vy, vx), ok, inner = g
                d = []
                for c, v in zip(el[1], (vx, vy, vz)):
                    p = poly(('op', '-', c, v[0][0]))
                    d.append(p.get((), 0) if p is not None and set(p) <= {()} else None)
                got.append(tuple(d))
                base = el[0]
                if not all(ok) or None in d:
                    got = None
                    break
            if got is None:
                res.undecided('connectivity', w)
            else:
                res.check(got == HEX, 'connectivity', w, 'the corners of a cell are listed as %s' % ' '.join(''.join(map(str, c)) for c in got))
                numbered(res, F, base, w)
        elif n in ('offsets', 'types'):
            for x in data:
                vs = cell_index(F, x, None)
                if not vs or len(vs) != 1:
                    res.undecided(n, w)
                    continue
                (var, start, step), t = vs[0]
                want = C(12) if n == 'types' else mul(add(('op', '-', var, start), C(1)), C(8))
                if eqp(x[1], want):
                    res.ok(n)
                elif poly(x[1]) is not None and not isinstance(x[1][0], str) or isc(x[1]) or all(a == var for k in poly(x[1]) or {(0,): 0} for a in k):
                    res.fail(n, w, '%s of cell n is written as %s' % (n, nice(x[1])[:60]))
                else:
                    res.undecided(n, w)
        elif n == 'rank':
            for x in data:
                if x[1] == ('init', ('f', THIS, 'my_rank')) or member(x[1]) == 'my_rank' or rank is not None and x[1] == C(rank):
                    res.ok('rank')
                elif plain(x[1]):
                    res.fail('rank', w, 'the rank of a cell is written as %s' % nice(x[1])[:60])
                else:
                    res.undecided('rank', w)
        elif n in QUANTITY:
            cell_data(res, F, n, F.attr(at['NumberOfComponents']) if 'NumberOfComponents' in at else C(1), data, QUANTITY[n])
        else:
            res.undecided('array', 'unknown array %s' % n)
    return {n: (t[2].get('type'), t[2].get('NumberOfComponents')) for n, t in zip(ns, arrays) if 'CellData' in t[0]}, {n: (t[2].get('type'), t[2].get('NumberOfComponents')) for n, t in zip(ns, arrays) if 'PointData' in t[0]}


def numbered(res, F, h, w):
    """the point numbers used as corners count the points in the order they are written"""
    st = F.st
    loops = []
    for e in st.tr:
        if e[0] == 'loop+':
            loops.append((e[1], e[3]))
        elif e[0] == 'loop-' and loops and loops[-1][0] == e[1]:
            loops.pop()
        elif e[0] == 'write' and e[1][0] == 'i' and e[1][1] == ('*', h):
            x = (None, None, None, tuple(loops))
            g = grid_order(F, x, True)
            if g is None or not all(g[1]) or g[2]:
                res.undecided('numbering', e[3])
                return
            (vz, vy, vx), _, _ = g
            ix = e[1][2]
            if ix != ('ix', vx[0][0], vy[0][0], vz[0][0]):
                (res.fail if sorted(map(repr, ix[1:])) == sorted(map(repr, (vx[0][0], vy[0][0], vz[0][0]))) else lambda r, a, b: res.undecided(r, a))('numbering', e[3], 'point numbers are stored with mixed-up directions')
                return
            v = e[2]
            # a counter that starts so that the first point is 0 and is increased once per point
            inner = loops[-1][1]
            for var, start, step in inner:
                if var != vx[0][0] and step == C(1):
                    p = poly(('op', '-', v, var))
                    if p is not None and set(p) <= {()}:
                        first = counter_start(loops, var, start)
                        if first is None:
                            res.undecided('numbering', e[3])
                        else:
                            res.check(first + p.get((), 0) == 0, 'numbering', e[3], 'the first point has the number %s' % (first + p.get((), 0)))
                        return
            want = add(('op', '-', vx[0][0], C(1)), mul(add(npt(1), C(1)), add(('op', '-', vy[0][0], C(1)), mul(add(npt(2), C(1)), ('op', '-', vz[0][0], C(1))))))
            if eqp(v, want):
                res.ok('numbering')
            elif plain(v):
                res.fail('numbering', e[3], 'a point is numbered %s' % nice(v)[:60])
            else:
                res.undecided('numbering', e[3])
            return
    res.undecided('numbering', w)


def counter_start(loops, var, start):
    """the constant an inner loop's counter starts from, through the loops around it"""
    for uid, vs in reversed(loops[:-1]):
        if isc(start):
            return start[1]
        nx = [v for v in vs if v[0] == start]
        if not nx:
            return None
        start = nx[0][1]
    return start[1] if isc(start) else None


def time_value(res, data, what):
    x = data[0]
    want = {member(('init', ('f', THIS, n))) for n in ('imicro', 'tdot')}
    p = poly(x[1])
    if p is not None and len(p) == 1 and list(p.values()) == [1]:
        ms = sorted(str(member(a)) for a in list(p)[0])
        if all(m != 'None' for m in ms):
            res.check(ms == ['imicro', 'tdot'], 'time', x[5], 'the time in %s is %s' % (what, ' * '.join(ms)))
            return
    res.undecided('time', what)


def flat(t):
    """the pieces of a formatted file name, ('c', text) and terms"""
    t = unshow(t)
    if t[0] == 'fmt' and isc(t[1]):
        out, pos, k = [], 0, 0
        for m in CONV.finditer(t[1][1]):
            out.append(C(t[1][1][pos:m.start()]))
            pos = m.end()
            if m.group(0) == '%%':
                out.append(C('%'))
                continue
            a = t[2][k]
            k += 1
            if m.group(3) == 's':
                out += flat(a)
            else:
                if a[0] == 'cast':
                    a = a[-1]
                out.append(('num', re.sub('[hlzjtL]', '', m.group(0)), a))
        out.append(C(t[1][1][pos:]))
        return join(out)
    if t[0] == 'cat':
        return join([x for p in t[1] for x in flat(p)])
    if isc(t) and isinstance(t[1], str):
        return [t]
    return [t]


def join(ps):
    out = []
    for p in ps:
        if isc(p) and isinstance(p[1], str):
            if not p[1]:
                continue
            if out and isc(out[-1]):
                out[-1] = C(out[-1][1] + p[1])
                continue
        out.append(p)
    return out

def pvtu(res, P, st, f):
    F = VtkFile(res, st, f, 'the PVTU file')
    tags = F.parse()
    if tags is None:
        return None
    res.check(tags[0][1] == 'VTKFile' and tags[0][2].get('type') == 'PUnstructuredGrid' and any(t[1] == 'PUnstructuredGrid' for t in tags), 'kind', F.where, 'the PVTU file is no PUnstructuredGrid file')
    arrays = [t for t in tags if t[1] == 'DataArray']
    res.check(tags[0][2].get('header_type') == 'UInt64' and tags[0][2].get('byte_order') == 'LittleEndian' or not arrays, 'header', F.where, 'sizes of 8 bytes need header_type UInt64')
    vtk_blocks(res, F, arrays, None, None)
    for (path, tag, at), (h, data) in zip(arrays, F.blocks):
        if at.get('Name') == 'TimeValue' and data:
            time_value(res, data, F.what)
    res.check([t for t in tags if t[1] == 'PDataArray' and t[0][-1] == 'PPoints'] != [], 'points', F.where, 'the PVTU file declares no points')
    pieces = [t for t in tags if t[1] == 'Piece']
    lists = tuple({t[2].get('Name'): (t[2].get('type'), t[2].get('NumberOfComponents')) for t in tags if t[1] == 'PDataArray' and t[0][-1] == g} for g in ('PCellData', 'PPointData'))
    return F, pieces, lists


def e17(res, tier):
    res.rule('the sequence of writes to the VTU and PVTU files on each path is put together symbolically and read back as a VTK file: well-formed XML, one data block per declared array at the declared offset, sizes that agree with type, components and counts, and the values of each array from the field of its name in VTK order')
    for P in whole(res):
        fs = [f for f in P.funcs.values() if f['n'] == 'EVPFFT::write_micro_state_pvtu' and f.get('body')]
        if not fs:
            continue
        f = fs[0]
        n = 0
        for rank in (0, None):
            pol = VM()
            I = Interp(P, pol)
            st0 = St()
            if rank is not None:
                st0.mem[('f', THIS, 'my_rank')] = C(rank)
            outs = I.run(f, st=st0)
            res.stats(I)
            for st, k, v in outs:
                if k != 'n':
                    continue
                opens = [e for e in st.tr if e[0] == 'open' and e[1][4] == 'o']
                got = {}
                for e in opens:
                    name = flat(e[1][2])
                    ext = name[-1][1].rsplit('.', 1)[-1] if isc(name[-1]) else None
                    if ext not in ('vtu', 'pvtu') or ext in got:
                        res.undecided('files', e[3])
                        continue
                    got[ext] = (e, name)
                if 'vtu' not in got:
                    res.undecided('files', P.where(f))
                    continue
                r0 = st.facts.get(('op', '==', C(0), ('init', ('f', THIS, 'my_rank'))), st.facts.get(('op', '==', ('init', ('f', THIS, 'my_rank')), C(0))))
                if rank is None and r0 is False:
                    res.check('pvtu' not in got, 'rank', got.get('pvtu', got['vtu'])[0][3], 'the PVTU file is written by more than rank 0')
                if rank == 0:
                    res.check('pvtu' in got, 'rank', P.where(f), 'rank 0 writes no PVTU file')
                if rank is None and r0 is not False:
                    continue
                n += 1
                lists = vtu(res, P, st, got['vtu'][0][1], rank)
                mode(res, got['vtu'][0], 'VTU')
                for x in got:
                    w = got[x][0]
                    c = [e for e in st.tr if e[0] == 'close' and e[1] == w[1]]
                    late = [e for e in st.tr if e[0] == 'wr' and e[2] == w[2] and e[1] != w[1]]
                    res.check(not late, 'close', late[0][5] if late else w[3], 'something is written to the %s file after it was closed' % x.upper())
                if 'pvtu' in got:
                    r = pvtu(res, P, st, got['pvtu'][0][1])
                    mode(res, got['pvtu'][0], 'PVTU')
                    if r and lists:
                        F, pieces, pl = r
                        for a, b, what in zip(pl, lists, ('cell', 'point')):
                            d = sorted(set(a.items()) ^ set(b.items()), key=str)
                            res.check(not d, 'agree', F.where, 'the PVTU file and the VTU files declare different %s arrays: %s' % (what, d[0][0] if d else ''))
                        piece_names(res, F, pieces, st, got)
                barrier(res, P, st, got)
        if not n:
            res.undecided('files', '%s: no path writes a VTU file' % P.app)


def mode(res, e, what):
    m = e[1][3]
    if len(m) == 1 and isc(m[0]) and isinstance(m[0][1], int):
        res.check(m[0][1] & 4, 'mode', e[3], 'the %s file is not opened in binary mode' % what)
        res.check(not m[0][1] & 1, 'mode', e[3], 'the %s file is appended to' % what)
    else:
        res.undecided('mode', what)


def piece_names(res, F, pieces, st, got):
    """one piece per rank, named as that rank names its file"""
    if not res.check(len(pieces) == 1, 'pieces', F.where, 'the PVTU file lists %d kinds of pieces' % len(pieces)):
        return
    src = pieces[0][2].get('Source')
    m = re.fullmatch('\0(\\d+)\0', src or '')
    if not m:
        res.undecided('pieces', 'Source of a piece')
        return
    v, w, loops = F.vals[int(m.group(1))]
    if not res.check(len(loops) == 1, 'pieces', w, 'one piece is listed whatever the number of ranks'):
        return
    good = [x for x in loops[0][1] if trip(st, *x) is not None]
    if len(good) != 1:
        res.undecided('pieces', w)
        return
    var, start, step = good[0]
    t = trip(st, *good[0])
    nr = [a for k in poly(t) or {} for a in k]
    if nr and all(member(a) == 'num_ranks' for a in nr):
        res.check(start == C(0) and poly(t) == {(nr[0],): 1}, 'pieces', w, 'the pieces do not run over ranks 0 to num_ranks - 1')
    else:
        res.undecided('pieces', w)
    name = flat(v)
    rank = [('num', p[1], C('rank')) if p[0] == 'num' and p[2] == var else p for p in name]
    mine = [('num', p[1], C('rank')) if p[0] == 'num' and (member(p[2]) == 'my_rank' or p[2] == C(0)) else p for p in got['vtu'][1]]
    dirn = got['pvtu'][1]
    if isc(mine[0]) and isc(dirn[0]) and '/' in dirn[0][1] and len([p for p in dirn if isc(p) and '/' in p[1]]) == 1:
        d = dirn[0][1].rsplit('/', 1)[0] + '/'
        if not res.check(mine[0][1].startswith(d), 'pieces', w, 'the VTU files are not below the directory of the PVTU file'):
            return
        mine = join([C(mine[0][1][len(d):])] + mine[1:])
    elif any(isc(p) and '/' in p[1] for p in dirn):
        res.undecided('pieces', w)
        return
    known = lambda ps: all(isc(p) or p[0] == 'num' and (isc(p[2]) or plain(p[2]) or member(p[2])) for p in ps)
    if rank == mine:
        res.ok('pieces')
    elif known(rank) and known(mine):
        res.fail('pieces', w, 'the PVTU file refers to %s but the pieces are written to %s' % (shown(rank), shown(mine)))
    else:
        res.undecided('pieces', w)


def shown(ps):
    return ''.join(p[1] if isc(p) else '<%s>' % (p[2][1] if isc(p[2]) else member(p[2]) or '?') for p in ps)


def barrier(res, P, st, got):
    """ranks wait for the directory before they open their file in it"""
    mk = [i for i, e in enumerate(st.tr) if e[0] == 'call' and e[1] in ('system', 'std::system', 'mkdir', 'std::filesystem::create_directory', 'std::filesystem::create_directories')]
    op = next(i for i, e in enumerate(st.tr) if e is got['vtu'][0])
    if mk:
        res.check(any(e[0] == 'call' and e[1] == 'MPI_Barrier' for e in st.tr[mk[-1]:op]), 'barrier', got['vtu'][0][3], 'the file of a rank can be opened before rank 0 has made its directory')



# ---- E18: the HDF5 and XDMF output of a time step ------------------------------------------------------

XW = 'XdmfUniformGridWriter::'
NUMBER = {'int': ('Int', '4'), 'float': ('Float', '4'), 'double': ('Float', '8')}


class XM(VM):
    """the grid writers as recorded calls, with the texts they are given"""

    def model(self, I, name):
        n = strip_targs(name)
        if n == 'MicroOutputWriter::write' or n in (XW + 'open_file', XW + 'write_header', XW + 'write_attribute', XW + 'write_footer', XW + 'close_file', XW + 'XdmfUniformGridWriter'):
            return self.writer
        return super().model(I, name)

    def writer(self, I, st, fr, e, L, args, name):
        n = strip_targs(name)
        if n == XW + 'XdmfUniformGridWriter' and (e.get('copy') or len(args) != 3):
            return NotImplemented
        h = None
        if n == 'MicroOutputWriter::write':
            v = args[1][1]
            while v[0] == '&' and v[1][0] == 'i':
                v = v[1][1]
            h = v[1] if v[0] == '*' else v
        I.emit(st, ('x', n, L, tuple(self.chars(I, st, v) if v is not None else None for _, v in args), I.loc(e), tuple(e.get('pt') or ()), h))
        return [(st, 'n', None if n.endswith('::XdmfUniformGridWriter') else C(None))]

    def chars(self, I, st, v):
        v = self.text(I, st, v)
        return v


def text_of(t):
    """pieces of a text, or None"""
    ps = flat(t)
    return ps if all(isc(p) and isinstance(p[1], str) or p[0] == 'num' and (isc(p[2]) or member(p[2])) for p in ps) else None


def settle(ps):
    """numbers that are known are text"""
    return join([C(p[1] % p[2][1]) if p[0] == 'num' and isc(p[2]) and isinstance(p[2][1], int) else p for p in ps]) if ps is not None else None


def filled(st, upto, h):
    """(source handle, fixed leading indices) of the matrix a buffer was filled from, element by element, or None"""
    last = None
    loops = []
    for e in st.tr[:upto]:
        if e[0] == 'loop+':
            loops.append((e[1], e[3]))
        elif e[0] == 'loop-' and loops and loops[-1][0] == e[1]:
            loops.pop()
        elif e[0] == 'write' and e[1][0] == 'i' and e[1][1] == ('*', h):
            last = (e, list(loops))
        elif e[0] == 'derive' and e[1] == h:
            last = None
    if last is None:
        return None
    e, loops = last
    el = element(e[2])
    ix = e[1][2]
    ix = list(ix[1:]) if ix[0] == 'ix' else None
    if el is None or ix is None:
        return False
    full = {}
    for uid, vs in loops:
        for v in vs:
            t = trip(st, *v)
            if t is not None:
                full[v[0]] = (v[1], t)
    return el[0], el[1], ix, full, e[3]


def dataset(res, st, k, e, what, want, lead, w):
    """what is written under a name is the whole field of that name"""
    h = unwrap(e[6])
    lead = list(lead)
    got = filled(st, k, h)
    if got is False:
        res.undecided('field', what)
        return
    if got is None:
        src = source(st, h, k)
        if lead:
            (res.fail if is_source(src) else lambda r, a, b: res.undecided(r, a))('field', w, 'component %s is written from a whole field' % what)
            return
        if not is_source(src):
            res.undecided('field', what)
            return
        res.check(src == want, 'field', w, '%s is written from %s' % (what, say_source(src)))
        return
    sh, six, dix, full, w2 = got
    src = source(st, sh, k)
    if not is_source(src):
        res.undecided('field', what)
        return
    if not res.check(src == want, 'field', w, '%s is written from %s' % (what, say_source(src))):
        return
    if len(six) != len(lead) + 3 or len(dix) != 3:
        res.undecided('field', what)
        return
    c = six[:len(lead)]
    if all(isc(x) for x in c):
        sym_ = isinstance(want, tuple) or want == 'sg'
        a, b = [x[1] for x in c], lead
        res.check(a == b or sym_ and sorted(a) == sorted(b), 'component', w2, '%s is written from component %s' % (what, ''.join(map(str, a))))
    else:
        res.undecided('component', what)
    if six[len(lead):] == dix:
        dims = [npt(1), npt(2), npt(3)]
        ok = all(x in full and full[x][0] == C(1) and eqp(full[x][1], d) for x, d in zip(dix, dims))
        if ok:
            res.ok('whole')
        elif all(x in full and isc(full[x][0]) and integral(full[x][1]) for x in dix):
            res.fail('whole', w2, 'not every point of %s is copied' % what)
        else:
            res.undecided('whole', what)
    elif all(x in full for x in dix + six[len(lead):]):
        res.fail('whole', w2, 'the points of %s are mixed up' % what)
    else:
        res.undecided('whole', what)


def e18(res, tier):
    res.rule('the calls of the HDF5 writer and of the XDMF writer on every path: each dataset is written from the field of its name under the group of the step, and rank 0 describes exactly these datasets with their type, location and grid')
    for P in whole(res):
        fs = [f for n in ('EVPFFT::write_micro_state_xdmf', 'EVPFFT::write_micro_state') for f in P.funcs.values() if f['n'] == n and f.get('body') and any(strip_targs(x.get('fn', '')).startswith(('XdmfUniformGridWriter', 'H5G')) for x in calls_in(f['body']))]
        if not fs:
            res.undecided('function', '%s writes no XDMF file' % P.app)
            continue
        f = fs[0]
        names = {}
        for rank in (0, 1):
            pol = XM()
            I = Interp(P, pol)
            st0 = St()
            st0.mem[('f', THIS, 'my_rank')] = C(rank)
            outs = I.run(f, st=st0)
            res.stats(I)
            for st, k, v in outs:
                if k != 'n':
                    res.undecided('paths', P.where(f))
                    continue
                one_step(res, P, st, rank, names, f)
        if 0 in names and 1 in names:
            res.check(names[0] == names[1], 'ranks', P.where(f), 'rank 0 and the other ranks write different datasets or in another order, though writing is collective')


def one_step(res, P, st, rank, names, f):
    tr = list(enumerate(st.tr))
    xs = [(i, e) for i, e in tr if e[0] == 'x']
    wr = [(i, e) for i, e in xs if e[1] == 'MicroOutputWriter::write']
    gs = [(i, e) for i, e in tr if e[0] == 'call' and e[1].startswith('H5Gcreate')]
    gc = [(i, e) for i, e in tr if e[0] == 'call' and e[1] == 'H5Gclose']
    if not wr:
        res.undecided('datasets', P.where(f))
        return
    res.check(len(gs) == 1, 'group', gs[1][1][5] if len(gs) > 1 else P.where(f), '%d groups are made for a time step' % len(gs)) if len(gs) != 1 else res.ok('group')
    group = None
    if len(gs) == 1:
        i, g = gs[0]
        res.check(i < wr[0][0], 'group', g[5], 'a dataset is written before its group is made')
        group = settle(text_of(pol_text(g[4][1][1])))
        mine = [e for j, e in gc if e[4][0][1] == g[6]]
        if len(gc) == 1 and not mine and not plain(gc[0][1][4][0][1]) and gc[0][1][4][0][1][0] != 'mk':
            res.undecided('close', gc[0][1][5])
        else:
            res.check(len(mine) == 1 and [j for j, e in gc if e in mine][0] > i, 'close', g[5], 'the group of the time step is not closed exactly once')
        fid = g[4][0][1]
        ws = {e[2] for _, e in wr}
        if len(ws) == 1 and fid[0] in ('init', 'part'):
            pass
    seq = []
    for i, e in wr:
        p = settle(text_of(e[3][0]))
        if p is None or group is None:
            res.undecided('name', e[4])
            continue
        if len(e[3]) == 3:
            name = p
        else:
            pre = join(group + [C('/')])
            q = strip_prefix(p, pre)
            if q is None:
                res.fail('name', e[4], 'dataset %s is not written in the group %s of the step' % (shown(p), shown(group)))
                continue
            name = q
        if len(name) != 1 or not isc(name[0]):
            res.undecided('name', e[4])
            continue
        n = name[0][1]
        seq.append(n)
        m = re.fullmatch(r'(.*)_([123])([123])', n)
        base, lead = (m.group(1), (int(m.group(2)), int(m.group(3)))) if m and m.group(1) in FIELD else (n, ())
        if base not in QUANTITY:
            res.undecided('field', 'unknown dataset %s' % n)
        else:
            dataset(res, st, i, e, n, QUANTITY[base], lead, e[4])
        t = e[5][-1 if len(e[3]) == 2 else 1].replace('const', '').replace('*', '').strip() if e[5] else None
        at = [(j, a) for j, a in xs if a[1] == XW + 'write_attribute' and settle(text_of(a[3][0])) == [C(n)]]
        if rank == 0:
            if not at and any(text_of(a[3][0]) is None for _, a in xs if a[1] == XW + 'write_attribute'):
                res.undecided('attribute', n)
                continue
            if not res.check(len(at) == 1, 'attribute', e[4], 'dataset %s is described %d times in the XDMF file' % (n, len(at))):
                continue
            a = at[0][1]
            ty = a[3][1:4]
            if all(isc(x) for x in ty) and t in NUMBER:
                res.check(ty[0] == C('Scalar') and (ty[1][1], ty[2][1]) == NUMBER[t], 'type', a[4], '%s of type %s is described as %s %s %s' % (n, t, *[x[1] for x in ty]))
            else:
                res.undecided('type', n)
            loc = a[3][4]
            ps = flat(loc)
            # file:path, the file being the one of the writer
            full = p if len(e[3]) == 2 else join(group + [C('/')] + p)
            rest = ps[1:] if ps and not isc(ps[0]) else None
            if rest is not None and settle(text_of(('cat', tuple(rest)))) is not None or rest is not None:
                tail = settle([x for x in rest])
                if all(isc(x) or x[0] == 'num' for x in tail):
                    res.check(join(tail) == join([C(':')] + full) and fname(ps[0]), 'location', a[4], '%s is said to be found at <file>%s' % (n, shown(join(tail))))
                else:
                    res.undecided('location', n)
            else:
                res.undecided('location', n)
    res.check(len(set(seq)) == len(seq), 'names', P.where(f), 'two datasets of a time step have one name')
    for b in FIELD:
        got = sorted(n[len(b):] for n in seq if re.fullmatch(re.escape(b) + '_[123][123]', n))
        if got and b not in seq and len(seq) == len(wr):
            res.check(got == ['_11', '_12', '_13', '_22', '_23', '_33'], 'six', P.where(f), 'of the components of %s are written:%s' % (b, ' '.join(got).replace('_', ' ')))
    names.setdefault(rank, seq)
    atts = [e for _, e in xs if e[1] == XW + 'write_attribute']
    if rank:
        e = next((e for _, e in xs if e[1].startswith(XW) and not e[1].endswith('::XdmfUniformGridWriter')), None)
        res.check(e is None, 'rank', e[4] if e else P.where(f), 'a rank other than 0 writes the XDMF file')
        return
    extra = [e for e in atts if text_of(e[3][0]) is not None and settle(text_of(e[3][0]))[0] not in [C(n) for n in seq]]
    if len(seq) == len(wr):
        res.check(not extra, 'attribute', extra[0][4] if extra else P.where(f), 'the XDMF file describes a dataset that is not written')
    steps = [e[1].rsplit('::', 1)[1] for _, e in xs if e[1].startswith(XW)]
    core_ = [s for s in steps if s != 'write_attribute']
    res.check(core_ == ['XdmfUniformGridWriter', 'open_file', 'write_header', 'write_footer', 'close_file'] and steps[3:-2] == ['write_attribute'] * (len(steps) - 5), 'order', P.where(f), 'the XDMF file is written in the order %s' % ' '.join(core_))
    for _, e in xs:
        if e[1] == XW + 'XdmfUniformGridWriter':
            d = [member(x) if x else None for x in e[3]]
            if all(d):
                res.check(d == ['npts3_g', 'npts2_g', 'npts1_g'], 'grid', e[4], 'the grid of the XDMF file has the extents %s' % ' '.join(d))
            else:
                res.undecided('grid', e[4])
        if e[1] == XW + 'open_file':
            ps = text_of(e[3][0])
            if ps is None:
                res.undecided('file', e[4])
            else:
                res.check(any(p[0] == 'num' and member(p[2]) == 'imicro' for p in ps), 'file', e[4], 'every time step is written to the XDMF file %s' % shown(ps))
    if group is not None:
        res.check(any(p[0] == 'num' and member(p[2]) == 'imicro' for p in group), 'step', gs[0][1][5], 'every time step is written to the group %s' % shown(group))


def pol_text(t):
    return t


def fname(p):
    t = repr(p)
    return 'filename_' in t or 'hdf5_filename' in t or 'micro_writer' in t


def strip_prefix(ps, pre):
    """the pieces behind a prefix"""
    ps = list(ps)
    for k, q in enumerate(pre):
        if not ps:
            return None
        if ps[0] == q:
            ps.pop(0)
            continue
        if isc(q) and isc(ps[0]) and isinstance(ps[0][1], str) and ps[0][1].startswith(q[1]) and k == len(pre) - 1:
            ps[0] = C(ps[0][1][len(q[1]):])
            return join(ps)
        return None
    return ps


# ---- E13: files that cannot be opened -----------------------------------------------------------------

USES = ('fprintf', 'vfprintf', 'fputs', 'fputc', 'fwrite', 'fread', 'fgets', 'fscanf', 'fgetc', 'getline', 'fflush')
OPENS = re.compile(r'(std::)?f(re)?open(64)?$|std::basic_[io]?fstream<.*::open$')


class OM(MK):
    """notes, at every use of a file, whether its opening is known to have succeeded"""
    max_unroll = 3
    straight = True
    drop_dead = True
    blur = True

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.uses = {}
        self.opened = set()

    def keep(self, ev, st):
        return None

    def quietly(self, L, V):
        return not any(isinstance(x, tuple) and x and x[0] in ('fopen', 'file', 'failed') for x in tree(V))

    def model(self, I, name):
        n = name.rsplit('::', 1)[-1]
        if n in USES:
            return self.stdio
        if n in ('fopen', 'fopen64', 'freopen'):
            return self.fopen
        return super().model(I, name)

    def used(self, I, st, f, ok, e):
        k = I.loc(e)
        a = self.uses.setdefault((f[-1], k), True)
        if not ok:
            self.uses[(f[-1], k)] = False

    def fopen(self, I, st, fr, e, L, args, name):
        I.P.ucount += 1
        h = ('fopen', I.P.ucount, I.loc(e))
        self.opened.add(I.loc(e))
        return [(st, 'n', h)]

    def s_open(self, I, st, fr, e, L, args, name):
        r = super().s_open(I, st, fr, e, L, args, name)
        f = I.read(r[0][0], L)
        if f[0] == 'file':
            I.write(r[0][0], L, f + (I.loc(e),), e, event=False)
            self.opened.add(I.loc(e))
        return r

    def stdio(self, I, st, fr, e, L, args, name):
        k = -1 if name.rsplit('::', 1)[-1] in ('fputs', 'fputc', 'fwrite', 'fread', 'fgets') else 0
        if args and args[k][1] is not None:
            h = args[k][1]
            if h[0] == 'fopen':
                self.used(I, st, h, I.known(st, ('op', '==', h, C(0))) is False, e)
        return [(st, 'n', ('top', 'int', I.uid(e)))]

    def stream(self, I, st, S, e):
        f = I.read(st, S) if S is not None else None
        if f is not None and f[0] == 'file' and isinstance(f[-1], str):
            self.used(I, st, f, I.known(st, ('failed', f)) is False, e)

    def s_write(self, I, st, fr, e, L, args, name):
        self.stream(I, st, L, e)
        return super().s_write(I, st, fr, e, L, args, name)

    def s_put(self, I, st, fr, e, L, args, name):
        self.stream(I, st, L, e)
        return super().s_put(I, st, fr, e, L, args, name)

    def s_ignore(self, I, st, fr, e, L, args, name):
        self.stream(I, st, L, e)
        return super().s_ignore(I, st, fr, e, L, args, name)

    def s_shl(self, I, st, fr, e, L, args, name):
        if L is not None or e.get('pt') and 'ostream' in e['pt'][0]:
            self.stream(I, st, L if L is not None else args[0][0], e)
        return super().s_shl(I, st, fr, e, L, args, name)

    def s_shr(self, I, st, fr, e, L, args, name):
        a = ([L] if L is not None else []) + [x for x, _ in args]
        self.stream(I, st, a[0], e)
        for x in a[1:]:
            if x is not None:
                I.write(st, x, ('top', 'read', 0), e)
        return [(st, 'n', ('ref!', a[0]))]


STOPS = re.compile(r'(std::)?(_?[eE]xit|quick_exit|abort|terminate)$|MPI_Abort$')
FILEY = re.compile(r'basic_(if|of|f|o|i)?stream|basic_ios|std::operator(<<|>>)$')


def filely(P):
    """names of the functions that neither reach a use of a file nor end the program"""
    calls, hot = {}, set()
    for fid, f in P.funcs.items():
        b = [f.get('body'), f.get('init')]
        calls[fid] = cs = list(calls_in(b))
        if any(OPENS.match(x['fn']) or STOPS.search(x['fn']) or FILEY.search(x['fn']) or x['fn'].rsplit('::', 1)[-1] in USES for x in cs) \
                or any(x.get('k') == 'throw' for x in walk(b)) or any(re.search(r'FILE|stream|ios|bool', p['t']) for p in f['p']) or f.get('lambda'):
            hot.add(f['full'])
    while True:
        n = {P.funcs[i]['full'] for i, cs in calls.items() if any(x['fn'] in hot for x in cs)} - hot
        if not n:
            break
        hot |= n
    return {f['full'] for f in P.funcs.values()} - hot


def e13(res, tier):
    res.rule('typestate of every file opened: on every path each reading or writing of a file follows a test that its opening succeeded; the path on which it failed ends in an exception or ends the program')
    for P in whole(res):
        mine = {f['full'] for f in P.funcs.values() if f.get('rec') == 'EVPFFT'}
        cold = filely(P)
        for f in P.funcs.values():
            sites = {P.where(x) for x in calls_in([f.get('body'), f.get('init')]) if OPENS.match(x['fn']) or x['k'] == 'ctor' and re.match(r'std::basic_[io]?fstream<', x['fn']) and len(x.get('a', ())) and not x.get('copy')}
            if not sites or f.get('lambda'):
                continue
            pol = OM(opaque=cold | mine - {f['full']})
            I = Interp(P, pol)
            try:
                I.run(f)
            except Undecided as x:
                res.undecided('opening', '%s: %s' % (f['full'], x))
                continue
            res.stats(I)
            for s in sorted(sites - pol.opened):
                res.undecided('opening', s)
            for s in sorted(pol.opened):
                bad = sorted(u for (o, u), ok in pol.uses.items() if o == s and not ok)
                res.check(not bad, 'checked', s, '%s: the file opened here is used at %s without a test that it could be opened' % (f['full'], bad[0] if bad else ''))


CHECKS = {'E13': e13, 'E16': e16, 'E17': e17, 'E18': e18, 'E19': e19}
