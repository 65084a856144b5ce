"""Path-sensitive interprocedural data-flow over provenance terms.

The engine walks the type-checked syntax tree that tools/extract.cpp wrote for
the current sources.  It runs nothing: every value is a term (a constant, "the
initial contents of location L", "the result of call site c on these terms",
...), every branch whose condition is not a constant is followed both ways and
remembered as a fact about its term, loops are summarised by a fixpoint over
the locations they modify, and what a rule needs to see is kept as a trace of
events.  No solver is involved: a branch is pruned only when its term was
decided before on the same path, or folds to a constant.

  location L : ('v',depth,id,name) local | ('g',name) global/static | ('t',depth,u) temporary
               ('h',u) heap object | ('f',L,field) | ('i',L,V) element | ('*',V) pointee | ('o',name) root object
  value V    : ('c',const) | ('&',L) | ('init',L) | ('rec',V0,((suffix,V),...)) | ('agg',kind,(...))
               ('lam',fid,env) | ('fn',fid,name) | ('op',op,a,b) | ('not',V) | ('call',...) | ('top',...)
"""
import re
import sys

sys.setrecursionlimit(20000)

TRUE, FALSE, NULL = ('c', True), ('c', False), ('c', None)


class Undecided(Exception):
    pass


def C(x):
    return ('c', x)


def is_ref(t):
    return t.endswith('&') or '(&)' in t


def isc(v):
    return v[0] == 'c'


def strip_targs(s):
    """std::map<A,B>::at -> std::map::at (operator< and friends kept)."""
    r = _norm.get(s)
    if r is not None:
        return r
    out, d, i = [], 0, 0
    t = s
    m = re.search(r'operator\s*(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>)(?=$|\()', t)
    tail = ''
    if m:
        t, tail = t[:m.start()], t[m.start():]
    for ch in t:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    r = ''.join(out) + tail
    r = r.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')
    _norm[s] = r
    return r


_norm = {}


def root(L):
    while L[0] in ('f', 'i', 'y'):
        L = L[1]
    return L


def under(L, M):
    """Is M == L or inside L?"""
    while True:
        if M == L:
            return True
        if M[0] in ('f', 'i', 'y'):
            M = M[1]
        else:
            return False


def suffix(L, M):
    out = []
    while M != L:
        out.append((M[0], M[2]))
        M = M[1]
    return tuple(reversed(out))


def extend(L, suf):
    for k, x in suf:
        L = (k, L, x)
    return L


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(mentions(y, x) for y in t)
    return False


def tree(t):
    yield t
    if isinstance(t, tuple):
        for y in t:
            yield from tree(y)


_looped = {}


def looped(t):
    """the locations whose value inside a loop is part of the term"""
    r = _looped.get(t)
    if r is None:
        r = _looped[t] = frozenset(x[3] for x in tree(t) if isinstance(x, tuple) and len(x) == 4 and x[:2] == ('top', 'loop'))
    return r


class Mem(dict):
    """dict of locations that counts, per location, the keys stored inside it"""
    __slots__ = ('kids',)

    def __init__(self, src=None):
        if src is None:
            dict.__init__(self)
            self.kids = {}
        else:
            dict.__init__(self, src)
            self.kids = dict(src.kids) if isinstance(src, Mem) else {}
            if not isinstance(src, Mem):
                for k in src:
                    self._add(k, 1)

    def _add(self, k, n):
        while k[0] == 'f' or k[0] == 'i' or k[0] == 'y':
            k = k[1]
            c = self.kids.get(k, 0) + n
            if c:
                self.kids[k] = c
            else:
                self.kids.pop(k, None)

    def __setitem__(self, k, v):
        if k not in self:
            self._add(k, 1)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        self._add(k, -1)

    def pop(self, k, d=None):
        if k in self:
            v = self[k]
            del self[k]
            return v
        return d


class St:
    __slots__ = ('mem', 'facts', 'tr')

    def __init__(self, mem=None, facts=None, tr=()):
        self.mem = mem if isinstance(mem, Mem) else Mem(mem)
        self.facts = facts if facts is not None else {}
        self.tr = tr

    def copy(self):
        return St(Mem(self.mem), dict(self.facts), self.tr)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.tr)


class Frame:
    __slots__ = ('d', 'fn', 'this', 'env', 'stack', 'thistype')

    def __init__(self, d, fn, this=None, env=None, stack=(), thistype=None):
        self.d, self.fn, self.this, self.env, self.stack = d, fn, this, env or {}, stack
        self.thistype = thistype


class Policy:
    max_depth = 40
    max_unroll = 70
    max_states = 4000
    files = ()            # inline only functions whose file contains one of these ('' = all)
    opaque = ()           # normalised names never inlined
    noreturn = ('exit', 'abort', 'std::exit', 'std::abort', 'std::terminate', '_exit', 'quick_exit',
                'std::quick_exit', 'std::_Exit', 'MPI_Abort')
    straight = False      # a loop whose end is not decided runs at least once
    blur = False          # what a call may have changed is unknown, but the same unknown on every path
    mark_loops = False    # an event for loops whose end is decided
    pure = ()             # names whose result depends on arguments only

    def inline(self, I, fn):
        return True

    def may_throw(self, I, name, e):
        return ()

    def quiet(self, L):
        """writes there leave no event and no value"""
        return False

    def quietly(self, L, V):
        return self.quiet(L)

    carry = False               # counters that run on over nested loops are recorded too
    drop_dead = False           # locals are forgotten at the end of their block
    keep_facts = False          # paths that differ in facts only stay apart

    def keep(self, ev, st):
        return ev

    def stable(self, I, st, L):
        """[(location, value)] that survive an unknown write to L"""
        return ()

    def model(self, I, name):
        return None

    def choose(self, I, st, cond):
        return None


class Interp:
    def __init__(self, prog, policy=None):
        self.P = prog
        self.pol = policy or Policy()
        prog.__dict__.setdefault('ucount', 0)
        self.cur = None
        self.stats = {'functions': set(), 'paths': 0, 'calls': 0, 'branches': 0}
        self.ind = {}
        self.backs = []        # (loop, where, state) for every path that starts another iteration
        from . import models
        self.models = models.MODELS
        self.rxmodels = models.RX
        self.gcache = {}
        self.recursion = set()

    # ---- small helpers ---------------------------------------------------
    def uid(self, e):
        u = e.get('_u')
        if u is None:
            self.P.ucount += 1
            u = e['_u'] = self.P.ucount
        return u

    def fresh(self, e, tag=''):
        self.P.ucount += 1
        return ('top', tag, self.P.ucount)

    def loc(self, e):
        return self.P.where(e) if isinstance(e, dict) and e.get('l') else '?'

    def emit(self, st, ev):
        ev = self.pol.keep(ev, st)
        if ev is not None:
            st.tr = st.tr + (ev,)

    # ---- memory -----------------------------------------------------------
    def read(self, st, L, t=None):
        if L is None:
            return ('top', 'void', 0)
        m = st.mem
        v = m.get(L)
        subs = None
        if L in st.mem.kids:
            subs = [(suffix(L, k), x) for k, x in m.items() if k is not L and k[0] in 'fiy' and k != L and under(L, k)]
        if v is None:
            v = self._derived(st, L)
        if subs:
            subs.sort(key=repr)
            return ('rec', v, tuple(subs))
        return v

    def _derived(self, st, L):
        k = L[0]
        if k in 'fiy':
            P = L[1]
            pv = st.mem.get(P)
            if pv is None:
                pv = self._derived(st, P)
            return self.part(pv, k, L[2], L)
        if k == 'g':
            g = self.gconst(L)
            if g is not None:
                return g
        if k == 'gl':
            return ('init', L)
        return ('init', L)

    def part(self, pv, k, x, L):
        """Component of an aggregate value."""
        if pv[0] == 'init':
            return ('init', (k, pv[1], x))
        if pv[0] == 'rec':
            best = None
            rest = []
            for suf, v in pv[2]:
                if suf[0] == (k, x):
                    if len(suf) == 1:
                        best = v
                    else:
                        rest.append((suf[1:], v))
            b = best if best is not None else self.part(pv[1], k, x, L)
            return ('rec', b, tuple(rest)) if rest else b
        if pv[0] == 'agg':
            if k == 'i' and isc(x) and isinstance(x[1], int) and pv[1] in ('list', 'arr'):
                if 0 <= x[1] < len(pv[2]):
                    return pv[2][x[1]]
            if k == 'i' and pv[1] == 'map':
                for kk, vv in pv[2]:
                    if kk == x:
                        return vv
            if k == 'f' and pv[1] == 'struct':
                for kk, vv in pv[2]:
                    if kk == x:
                        return vv
        if pv == ('zero',):
            return ('zero',)
        if pv == ('none',):
            return ('none',)
        if k == 'i' and isc(pv) and isinstance(pv[1], str) and isc(x) and isinstance(x[1], int):
            if 0 <= x[1] < len(pv[1]):
                return C(ord(pv[1][x[1]]))
            if x[1] == len(pv[1]):
                return C(0)
        if k == 'i' and pv[0] == 'sized':
            return pv[2]
        return ('part', pv, k, x)

    def write(self, st, L, V, e=None, event=True):
        m = st.mem
        if event and self.pol.quietly(L, V):
            event, V = False, ('top', 'quiet', L)
            for f in [f for f in st.facts if mentions(f, V)]:
                del st.facts[f]
        if L in st.mem.kids:
            for k in [k for k in m if k[0] in 'fiy' and k != L and under(L, k)]:
                del m[k]
        if V[0] == 'rec':
            m[L] = V[1]
            for suf, x in V[2]:
                m[extend(L, suf)] = x
        else:
            m[L] = V
        # a write through an unknown index may hit any sibling element
        if L[0] == 'i' and not isc(L[2]):
            for k in [k for k in m if k[0] == 'i' and k[1] == L[1] and k != L]:
                del m[k]
                m[k] = ('maybe', k, V)
        if event and root(L)[0] not in ('v', 't'):
            self.emit(st, ('write', L, V, self.loc(e)))

    def havoc(self, st, L, e, tag='mod'):
        keep = self.pol.stable(self, st, L)
        if self.pol.blur:
            V = ('top', 'quiet', L)
            for f in [f for f in st.facts if mentions(f, V)]:
                del st.facts[f]
        else:
            V = self.fresh(e, tag)
        self.write(st, L, V, e, event=False)
        for k, v in keep:
            self.write(st, k, v, e, event=False)

    def gconst(self, L):
        """Initial value of a namespace-scope constant table."""
        if L in self.gcache:
            return self.gcache[L]
        self.gcache[L] = None
        gid = L[2] if len(L) > 2 else None
        g = self.P.globals.get(gid)
        if g and g.get('i') and (g.get('const') or self.P.global_unmodified(gid)):
            st = St()
            fr = Frame(90, None)
            try:
                outs = self.construct(('g', L[1], gid), g['t'], g['i'], st, fr)
                outs = [o for o in outs if o[1] == 'n']
                if len(outs) == 1:
                    s = outs[0][0]
                    v = s.mem.get(('g', L[1], gid))
                    subs = [(suffix(L, k), x) for k, x in s.mem.items() if k != L and k[0] in 'fiy' and under(L, k)]
                    if v is not None:
                        self.gcache[L] = ('rec', v, tuple(sorted(subs, key=repr))) if subs else v
            except Undecided:
                pass
        return self.gcache[L]

    # ---- facts / branching -------------------------------------------------
    def known(self, st, c):
        """True/False/None for a boolean term."""
        if c[0] == 'c':
            return bool(c[1])
        if c == ('zero',):
            return False
        if c[0] == '&':
            return True
        if c[0] in ('lam', 'fn', 'agg'):
            return True
        if c[0] == 'not':
            k = self.known(st, c[1])
            return None if k is None else not k
        f = st.facts.get(c)
        if f is not None:
            return f
        if c[0] in ('call', 'init', 'top', 'part', 'parm'):
            f = st.facts.get(('op', '==', c, C(0)))
            if f is not None:
                return not f
        if c[0] == 'op' and c[1] == '==':
            a, b = c[2], c[3]
            if a == ('zero',) and isc(b) or b == ('zero',) and isc(a):
                return not (b if isc(b) else a)[1]
            if isc(b):
                if b[1] == 0 and not isinstance(b[1], str) and isinstance(st.facts.get(a), bool):
                    return not st.facts[a]
                e = st.facts.get(('eq', a))
                if e is not None:
                    return e == b
                if a[0] == 'kind':
                    others = [x for x in ('None', 'Scalar', 'Sequence', 'Map') if x != b[1]]
                    if all(st.facts.get(('op', '==', a, C(x))) is False for x in others):
                        return True
        if c[0] == 'has':
            e = st.facts.get(('eq', c[2]))
            if e is not None and c[1][0] == 'agg':
                return self.agg_has(c[1], e)
            if c[1][0] == 'agg' and c[1][1] in ('set', 'list', 'map'):
                ks = [x[0] if c[1][1] == 'map' else x for x in c[1][2]]
                if ks and all(isc(x) for x in ks) and all(st.facts.get(('op', '==', c[2], x)) is False for x in ks):
                    return False
        if c[0] == 'op' and c[1] == '<' and isc(c[3]) and isinstance(c[3][1], (int, float)):
            e = st.facts.get(('eq', c[2]))
            if e is not None and isinstance(e[1], (int, float)):
                return e[1] < c[3][1]
        if c[0] == 'op' and c[1] == '<' and isc(c[2]) and isinstance(c[2][1], (int, float)):
            e = st.facts.get(('eq', c[3]))
            if e is not None and isinstance(e[1], (int, float)):
                return c[2][1] < e[1]
        return None

    def has(self, v, k):
        b = v
        while b[0] == 'rec' and all(isinstance(p[0], tuple) and p[0][:1] == ('f',) and isinstance(p[0][1], tuple) and p[0][1][0] == 'pair' for p, _ in b[2]):
            b = b[1]        # only entries were looked at through iterators
        h = self.agg_has(b, k) if b[0] == 'agg' else None
        return ('has', v, k) if h is None else C(h)

    def agg_has(self, agg, k):
        ks = [x[0] if agg[1] == 'map' else x for x in agg[2]]
        if any(x == k for x in ks):
            return True
        if not ks or isc(k) and all(isc(x) for x in ks):
            return False
        return None

    def assume(self, st, c, val):
        """st with fact c == val, or None when contradictory."""
        k = self.known(st, c)
        if k is not None:
            return st if k == val else None
        while c[0] == 'not':
            c, val = c[1], not val
        s = st.copy()
        s.facts[c] = val
        if c[0] == 'op' and c[1] == '==' and isc(c[3]) and val:
            s.facts[('eq', c[2])] = c[3]
        if c[0] not in ('op',) and False:
            pass
        return s

    def branch(self, st, c):
        k = self.known(st, c)
        if k is not None:
            return [(st, k)]
        ch = self.pol.choose(self, st, c)
        if ch is None and c[0] == 'not':
            ch = self.pol.choose(self, st, c[1])
            ch = None if ch is None else not ch
        if ch is not None:
            s = self.assume(st, c, ch)
            return [(s, ch)] if s else []
        self.stats['branches'] += 1
        out = []
        for b in (True, False):
            s = self.assume(st, c, b)
            if s is not None:
                out.append((s, b))
        return out

    def reduce(self, outs):
        """Merge outcomes that differ only in facts; drop duplicates; bound the count."""
        if len(outs) < 2:
            return outs
        seen, res = {}, []
        kf = self.pol.keep_facts
        for o in outs:
            st, k, v = o
            key = (frozenset(st.mem.items()), st.tr, k, _hk(v))
            if kf:
                key += (frozenset(st.facts.items()),)
            if key in seen:
                j = seen[key]
                p = res[j][0]
                if p.facts != st.facts:
                    f = {a: b for a, b in p.facts.items() if st.facts.get(a) == b}
                    res[j] = (St(p.mem, f, p.tr), k, v)
            else:
                seen[key] = len(res)
                res.append(o)
        if len(res) > self.pol.max_states:
            res = self.join(res)
        return res

    def join(self, outs):
        groups = {}
        for st, k, v in outs:
            groups.setdefault((st.tr, k, _hk(v)) + ((frozenset(st.facts.items()),) if self.pol.keep_facts else ()), []).append((st, k, v))
        res = []
        for g in groups.values():
            st, k, v = g[0]
            mem = {}
            keys = set()
            for o in g:
                keys |= set(o[0].mem)
            for L in keys:
                vals = {o[0].mem.get(L) for o in g}
                mem[L] = vals.pop() if len(vals) == 1 else ('top', 'join', L)
            facts = {a: b for a, b in st.facts.items() if all(o[0].facts.get(a) == b for o in g)}
            res.append((St(mem, facts, st.tr), k, v))
        if len(res) > self.pol.max_states:
            raise Undecided('too many paths (%d) in %s' % (len(res), self.cur))
        return res

    # ---- statements ----------------------------------------------------------
    def exec(self, s, st, fr):
        if s is None:
            return [(st, 'n', None)]
        return getattr(self, 's_' + s['k'].replace('?', ''))(s, st, fr)

    def seq(self, stmts, st, fr):
        outs, done = [(st, 'n', None)], []
        for s in stmts:
            nxt = []
            for st_, k, v in outs:
                nxt += self.exec(s, st_, fr)
            nxt = self.reduce(nxt)
            outs = [o for o in nxt if o[1] == 'n']
            done += [o for o in nxt if o[1] != 'n']
            if not outs:
                break
        return self.reduce(done + outs)

    def s_block(self, s, st, fr):
        outs = self.seq(s['s'], st, fr)
        if self.pol.drop_dead:
            dead = {('v', fr.d, v['id'], v['n']) for d in s['s'] if d.get('k') == 'decl' for v in d['v'] if not v.get('dtor') and not v.get('static')}
            for st_, k, v in outs if dead else ():
                if k == 'n':
                    for L in [L for L in st_.mem if root(L) in dead]:
                        del st_.mem[L]
            outs = self.reduce(outs)
        # destructors of locals declared in this block
        vs = [v for d in s['s'] if d.get('k') == 'decl' for v in d['v'] if v.get('dtor') and not v.get('static')]
        for v in reversed(vs):
            f = self.P.funcs.get(v['dtor'])
            if v['t'].startswith('std::unique_ptr<'):
                L = ('v', fr.d, v['id'], v['n'])
                nxt = []
                for st_, k, x in outs:
                    p = st_.mem.get(L)
                    if k != 'exit' and p is not None and p != NULL and p[0] != 'uninit' and not (k == 'ret' and x is not None and mentions(x, p)):
                        st_ = st_.copy()
                        self.free(st_, self.deref(p), '[]' in v['t'], v)
                        st_.mem[L] = NULL
                    nxt.append((st_, k, x))
                outs = nxt
                continue
            if not f or f.get('defaulted') or f.get('implicit') or not self.can_inline(f, fr):
                continue
            L = ('v', fr.d, v['id'], v['n'])
            nxt = []
            for st_, k, x in outs:
                if k == 'exit' or ('live', L) not in st_.mem:
                    nxt.append((st_, k, x))
                    continue
                for s2, k2, x2 in self.call_body(f, st_.copy(), fr, this=L, args=[], e=v):
                    s2.mem.pop(('live', L), None)
                    nxt.append((s2, k, x) if k2 == 'n' else (s2, k2, x2))
            outs = nxt
        return outs

    def s_decl(self, s, st, fr):
        outs = [(st, 'n', None)]
        for v in s['v']:
            nxt = []
            for st_, k, x in outs:
                if k != 'n':
                    nxt.append((st_, k, x))
                else:
                    nxt += self.declare(v, st_, fr)
            outs = nxt
        return outs

    def declare(self, v, st, fr, init=None):
        """Declare one variable (init = already known value/location overrides)."""
        if v.get('static'):
            L = ('g', '%s::%s' % (fr.fn['n'] if fr.fn else '', v['n']), v['id'])
            st = st.copy()
            st.mem[('r', fr.d, v['id'])] = L
            if v.get('i') and (v.get('const') or self.P.local_static_unmodified(v['id'])):
                if L not in st.mem:
                    res = []
                    for s2, k, x in self.construct(L, v['t'], v['i'], st, fr):
                        res.append((s2, k, None if k == 'n' else x))
                    return res
            return [(st, 'n', None)]
        L = ('v', fr.d, v['id'], v['n'])
        if v.get('ref'):
            if not v.get('i'):
                return [(st, 'n', None)]
            outs = []
            for s2, k, x in self.lval(v['i'], st, fr):
                if k == 'n':
                    s2 = s2.copy()
                    s2.mem[('r', fr.d, v['id'])] = x
                    self.bindings(v, x, s2, fr)
                    outs.append((s2, 'n', None))
                else:
                    outs.append((s2, k, x))
            return outs
        st = st.copy()
        st.mem.pop(('r', fr.d, v['id']), None)
        if v.get('dtor'):
            st.mem[('live', L)] = True
        if not v.get('i'):
            self.write(st, L, ('uninit', L), v, event=False)
            return [(st, 'n', None)]
        if v['i'].get('k') == 'ctor' and not v['i'].get('a'):
            self.write(st, L, ('uninit', L), v, event=False)
        outs = []
        for s2, k, x in self.construct(L, v['t'], v['i'], st, fr, scalar=v.get('scalar')):
            if k == 'n':
                self.bindings(v, L, s2, fr)
                outs.append((s2, 'n', None))
            else:
                outs.append((s2, k, x))
        return outs

    def bindings(self, v, L, st, fr):
        for n, b in enumerate(v.get('bind', ())):
            t = v['t']
            if 'pair<' in t or 'tuple<' in t:
                F = ('f', L, ('first', 'second')[n] if 'pair<' in t and n < 2 else str(n))
                x = self.read(st, F)
                st.mem[('r', fr.d, b['id'])] = x[1] if x[0] == '&' and len(x) == 3 else F
            else:
                st.mem[('r', fr.d, b['id'])] = ('f', L, '#%d' % n)

    def s_expr(self, s, st, fr):
        if s['e'] is None:
            return [(st, 'n', None)]
        e = s['e']
        outs = self.eval(e, st, fr, discard=True)
        return [(a, k, None if k == 'n' else v) for a, k, v in outs]

    def s_null(self, s, st, fr):
        return [(st, 'n', None)]

    def s_if(self, s, st, fr):
        outs = [(st, 'n', None)]
        if s.get('init'):
            outs = self.exec(s['init'], st, fr)
        if s.get('cvar'):
            outs = self.bind(outs, lambda st_: self.declare(s['cvar'], st_, fr))
        res = []
        for st_, k, v in outs:
            if k != 'n':
                res.append((st_, k, v))
                continue
            for s2, k2, c in self.cond(s['c'], st_, fr):
                if k2 != 'n':
                    res.append((s2, k2, c))
                elif c:
                    res += self.exec(s['a'], s2, fr)
                else:
                    res += self.exec(s['b'], s2, fr)
        return self.reduce(res)

    def bind(self, outs, f):
        res = []
        for st, k, v in outs:
            if k == 'n':
                res += f(st)
            else:
                res.append((st, k, v))
        return res

    def cond(self, e, st, fr):
        """[(st,'n',bool)...] plus exceptional outcomes."""
        if e is None:
            return [(st, 'n', True)]
        if e['k'] == 'bin' and e['op'] in ('&&', '||') and e.get('cv') is None:
            res = []
            for s2, k, c in self.cond(e['a'], st, fr):
                if k != 'n' or c == (e['op'] == '||'):
                    res.append((s2, k, c))
                else:
                    res += self.cond(e['b'], s2, fr)
            return res
        if e['k'] == 'un' and e['op'] == '!':
            return [(s2, k, (not c) if k == 'n' else c) for s2, k, c in self.cond(e['a'], st, fr)]
        res = []
        for s2, k, v in self.eval(e, st, fr):
            if k != 'n':
                res.append((s2, k, v))
            else:
                res += [(s3, 'n', b) for s3, b in self.branch(s2, self.truth(v))]
        return res

    def truth(self, v):
        if v[0] == 'c':
            return C(bool(v[1]))
        return v

    # loops
    def s_for(self, s, st, fr):
        outs = self.exec(s['init'], st, fr) if s.get('init') else [(st, 'n', None)]
        return self.bind(outs, lambda x: self.loop(s, x, fr, s.get('c'), s.get('inc'), s['s']))

    def s_while(self, s, st, fr):
        return self.loop(s, st, fr, s['c'], None, s['s'], cvar=s.get('cvar'))

    def s_do(self, s, st, fr):
        # body once, then as while
        res, go = [], []
        for o in self.exec(s['s'], st, fr):
            if o[1] in ('n', 'cont'):
                go.append(o[0])
            elif o[1] == 'brk':
                res.append((o[0], 'n', None))
            else:
                res.append(o)
        for g in go:
            res += self.loop(s, g, fr, s['c'], None, s['s'])
        return self.reduce(res)

    def loop(self, s, st, fr, c, inc, body, cvar=None):
        def test(x):
            o = self.declare(cvar, x, fr) if cvar else [(x, 'n', None)]
            return self.bind(o, lambda y: self.cond(c, y, fr))
        # 1. try to unroll while the condition is decided
        done, cur, n = [], [st], 0
        b0 = self.stats['branches']
        undecided = []
        forever = c is None or c.get('k') == 'lit'
        while cur and n < self.pol.max_unroll:
            nxt = []
            for x in cur:
                t = test(x)
                ok = [o for o in t if o[1] == 'n']
                if forever and len(ok) == 1 and ok[0][2]:
                    # the loop ends inside its body: unroll only turns whose end is decided
                    turn = self.exec(body, ok[0][0].copy(), fr)
                    kinds = {o[1] in ('n', 'cont') for o in turn if o[1] not in ('x', 'exit')}
                    if len(kinds) != 1:
                        undecided.append(x)
                        continue
                else:
                    turn = None
                done += [o for o in t if o[1] != 'n']
                if len(ok) > 1 or (len(ok) == 1 and c is not None and not self.decided(c, x, fr, test)):
                    undecided.append(x)
                    done = [o for o in done if o not in t]
                    continue
                for x2, _, b in ok:
                    if not b:
                        if self.pol.mark_loops:
                            x2 = x2.copy()
                            self.emit(x2, ('loop=', self.uid(s), self.loc(s)))
                        done.append((x2, 'n', None))
                    else:
                        for o in self.exec(body, x2, fr) if turn is None else turn:
                            if o[1] in ('n', 'cont'):
                                if inc:
                                    for o2 in self.eval(inc, o[0], fr, discard=True):
                                        (nxt if o2[1] == 'n' else done).append(o2 if o2[1] != 'n' else o2[0])
                                else:
                                    nxt.append(o[0])
                            elif o[1] == 'brk':
                                done.append((o[0], 'n', None))
                            else:
                                done.append(o)
            n += 1
            if n >= 3 and len(nxt) > 64:
                undecided += nxt
                cur = []
                break
            cur = [o[0] for o in self.reduce([(x, 'n', None) for x in nxt])]
        undecided += cur
        for x in undecided:
            done += self.generic_loop(s, x, fr, test, inc, body)
        return self.reduce(done)

    def decided(self, c, st, fr, test):
        """Was the condition decided without adding facts?"""
        t = [o for o in test(st) if o[1] == 'n']
        return len(t) == 1 and t[0][0].facts == st.facts

    def generic_loop(self, s, st, fr, test, inc, body, pre=None):
        site = ('loop', self.uid(s))
        # fixpoint on the set of modified locations
        havoc = {}
        for _ in range(6):
            h = st.copy()
            self.apply_havoc(h, havoc, s)
            saved = self.pol.keep
            outs = self._iteration(h, fr, test, inc, body, pre, s)
            new = {}
            for o in outs:
                for L, v in o[0].mem.items():
                    if L[0] in ('live', 'dyn', 'r'):
                        continue
                    if h.mem.get(L) != v and self.outer(L, st, h):
                        new[L] = 1
                for L in h.mem:
                    if L[0] not in ('live', 'dyn', 'r') and L not in o[0].mem:
                        new[L] = 1
            if all(L in havoc for L in new):
                break
            havoc.update(new)
        h = st.copy()
        self.apply_havoc(h, havoc, s)
        # zero iterations
        res = []
        for s2, k, b in test(st.copy()) if not (self.pol.straight and any(o[1] == 'n' for o in outs)) else ():
            if k != 'n':
                res.append((s2, k, b))
            elif not b:
                s2 = s2.copy()
                self.emit(s2, ('loop0', site[1], self.loc(s)))
                res.append((s2, 'n', None))
        g = h.copy()
        self.emit(g, ('loop+', site[1], self.loc(s), self.inductions(st, h, outs, havoc, s)))
        for o in self._iteration(g, fr, test, inc, body, pre, s):
            s2, k, v = o
            if k == 'n':
                s3 = s2.copy()
                # further iterations: whatever the loop modifies is unknown at exit
                s4 = s3
                for L in havoc:
                    pass
                for s5, k5, b5 in test(s4):
                    if k5 != 'n':
                        res.append((s5, k5, b5))
                    elif not b5:
                        s5 = s5.copy()
                        self.emit(s5, ('loop-', site[1], self.loc(s)))
                        res.append((s5, 'n', None))
                    elif self.pol.mark_loops:
                        self.backs.append((site[1], self.loc(s), s5))
            elif k == 'brk':
                s3 = s2.copy()
                self.emit(s3, ('loop-', site[1], self.loc(s)))
                res.append((s3, 'n', None))
            else:
                res.append(o)
        return self.reduce(res)

    def inductions(self, st, h, outs, havoc, s):
        """(term at the loop head, value before the loop, step) of every counter the loop advances"""
        res = []
        for L in havoc:
            t = h.mem.get(L)
            if not isinstance(t, tuple) or L[0] in ('itmark', 'live', 'dyn', 'r', 'cur_exc'):
                continue
            t0, v0 = t, st.mem.get(L)
            if t[0] == 'yit':
                t0, v0 = t[3], v0[3] if v0 else None
            steps = set()
            for o in outs:
                if o[1] == 'n':
                    v = o[0].mem.get(L)
                    if not isinstance(v, tuple):
                        v = None
                    if v and v[0] == 'yit':
                        v = v[3]
                    if v and v[0] == 'op' and v[1] == '+' and v[2] == t0 and isc(v[3]):
                        steps.add(v[3])
                    elif v and v[0] == 'op' and v[1] == '-' and v[2] == t0 and isc(v[3]):
                        steps.add(('-', v[3]))
                    elif self.pol.carry and v and v[0] == 'op' and v[1] == '+' and self.counts_on(v[2], t0, v[3]):
                        steps.add(('carry', v[3]))      # an inner loop goes on counting
                    else:
                        steps.add(None)
            if len(steps) == 1 and None not in steps:
                res.append((t0, v0, steps.pop()))
                self.ind[t0] = (v0, res[-1][2][1] if res[-1][2][0] == 'carry' else res[-1][2])
        return tuple(res)

    def counts_on(self, t, t0, step):
        """a counter of inner loops that start from t0 and from each other"""
        for _ in range(9):
            v, d = self.ind.get(t, (None, None))
            if d != step:
                return False
            if v == t0:
                return True
            t = v
        return False

    def outer(self, L, st, h):
        """Does L exist outside the loop (so that it must be havocked)?"""
        if L in st.mem or L in h.mem:
            return True
        r = root(L)
        if r[0] in ('v', 't'):
            return r in st.mem
        return True

    def apply_havoc(self, st, havoc, s):
        for L in havoc:
            if L[0] in ('live', 'r'):
                continue
            keep = self.pol.stable(self, st, L)
            for k in [k for k in st.mem if k[0] in 'fiy' and k != L and under(L, k)]:
                del st.mem[k]
            if L[0] in 'iy' and any(isinstance(x, tuple) and len(x) == 4 and x[:3] == ('top', 'loop', self.uid(s)) for x in tree(L)):
                # an element selected by this loop's own variable: each iteration meets it for the first time
                st.mem.pop(L, None)
                continue
            old = st.mem.get(L)
            nv = ('top', 'loop', self.uid(s), L)
            # a cursor stays a cursor of the same container, only its position is unknown
            st.mem[L] = ('yit', old[1], old[2], nv) if old is not None and old[0] == 'yit' else nv
            for k, v in keep:
                st.mem[k] = v
        if havoc:
            hs = set(havoc)
            st.facts = {f: v for f, v in st.facts.items() if hs.isdisjoint(looped(f))}

    def _iteration(self, st, fr, test, inc, body, pre, s):
        """outcomes of one iteration: 'n' (back at the head), 'brk', or leaving"""
        outs = []
        for s2, k, b in test(st):
            if k != 'n':
                outs.append((s2, k, b))
                continue
            if not b:
                continue
            starts = pre(s2) if pre else [(s2, 'n', None)]
            for s3, k3, v3 in starts:
                if k3 != 'n':
                    outs.append((s3, k3, v3))
                    continue
                for o in self.exec(body, s3, fr):
                    if o[1] in ('n', 'cont'):
                        if inc:
                            outs += [(a, k4, None if k4 == 'n' else v4) for a, k4, v4 in self.eval(inc, o[0], fr, discard=True)]
                        else:
                            outs.append((o[0], 'n', None))
                    else:
                        outs.append(o)
        return self.reduce(outs)

    def s_rfor(self, s, st, fr):
        res = []
        for s2, k, L in self.lval(s['r'], st, fr):
            if k != 'n':
                res.append((s2, k, L))
                continue
            V = self.read(s2, L)
            items = self.elements(V)
            v = s['v']
            if items is not None and len(items) <= self.pol.max_unroll * 4:
                cur, done = [s2], []
                for n, it in enumerate(items):
                    nxt = []
                    for x in cur:
                        for o in self.bind_elem(v, ('elt', L, C(n)), it, x, fr):
                            if o[1] != 'n':
                                done.append(o)
                                continue
                            for o2 in self.exec(s['s'], o[0], fr):
                                if o2[1] in ('n', 'cont'):
                                    nxt.append(o2[0])
                                elif o2[1] == 'brk':
                                    done.append((o2[0], 'n', None))
                                else:
                                    done.append(o2)
                    cur = [o[0] for o in self.reduce([(x, 'n', None) for x in nxt])]
                res += done + [(x, 'n', None) for x in cur]
            else:
                nonempty = ('nonempty', V)
                site = self.uid(s)
                more = [0]

                def test(x, V=V):
                    r = []
                    k = x.facts.get(nonempty)
                    mark = x.mem.get(('itmark', site))
                    if mark is None:
                        for y, b in self.branch(x, nonempty):
                            r.append((y, 'n', b))
                    else:
                        a, b = x.copy(), x.copy()
                        b.mem.pop(('itmark', site), None)
                        r = [(a, 'n', True), (b, 'n', False)]
                    return r

                def pre(x, L=L, V=V):
                    y = x.copy()
                    y.mem[('itmark', site)] = True
                    it = self.pol.element(self, y, V) if hasattr(self.pol, 'element') else None
                    eL = ('i', L, ('each', site))
                    return self.bind_elem(v, eL, it, y, fr, generic=True)
                outs = self.generic_loop(s, s2, fr, test, None, s['s'], pre=pre)
                for o in outs:
                    if ('itmark', site) in o[0].mem:
                        o[0].mem.pop(('itmark', site))
                res += outs
        return self.reduce(res)

    def bind_elem(self, v, L, val, st, fr, generic=False):
        st = st.copy()
        if generic:
            if val is not None:
                st.mem[L] = val
        else:
            st.mem[L] = val
        if v.get('ref'):
            st.mem[('r', fr.d, v['id'])] = L
            self.bindings(v, L, st, fr)
        else:
            vl = ('v', fr.d, v['id'], v['n'])
            st.mem.pop(('r', fr.d, v['id']), None)
            self.write(st, vl, self.read(st, L), v, event=False)
            self.bindings(v, vl, st, fr)
        return [(st, 'n', None)]

    def elements(self, V):
        if V[0] == 'agg':
            if V[1] in ('list', 'set', 'arr'):
                return list(V[2])
            if V[1] == 'map':
                return [('agg', 'struct', (('first', k), ('second', x))) for k, x in V[2]]
        if isc(V) and isinstance(V[1], str):
            return [C(ord(ch)) for ch in V[1]]
        return None

    def s_break(self, s, st, fr):
        return [(st, 'brk', None)]

    def s_cont(self, s, st, fr):
        return [(st, 'cont', None)]

    def s_ret(self, s, st, fr):
        e = s.get('e')
        if e is None:
            return [(st, 'ret', None)]
        rt = fr.fn['ret'] if fr.fn else ''
        if is_ref(rt):
            return [(a, 'ret' if k == 'n' else k, ('&', v) if k == 'n' else v) for a, k, v in self.lval(e, st, fr)]
        return [(a, 'ret' if k == 'n' else k, v) for a, k, v in self.eval(e, st, fr)]

    def s_switch(self, s, st, fr):
        outs = self.exec(s['init'], st, fr) if s.get('init') else [(st, 'n', None)]
        # flatten the body into a list of (labels, stmt)
        items = []

        def flat(b, labels):
            if b['k'] in ('case', 'default'):
                lab = labels + [b]
                inner = b['s']
                if inner and inner['k'] in ('case', 'default'):
                    flat(inner, lab)
                else:
                    items.append((lab, inner))
            else:
                items.append((labels, b))
        for b in s['s']['s'] if s['s']['k'] == 'block' else [s['s']]:
            flat(b, [])
        res = []
        for st_, k, v in outs:
            if k != 'n':
                res.append((st_, k, v))
                continue
            for s2, k2, val in self.eval(s['c'], st_, fr):
                if k2 != 'n':
                    res.append((s2, k2, val))
                    continue
                cur, entries, deflt = [s2], [], None
                for n, (labs, _) in enumerate(items):
                    for lb in labs:
                        if lb['k'] == 'default':
                            deflt = n
                            continue
                        cv = self.const_of(lb['v'])
                        nxt = []
                        for x in cur:
                            for y, b in self.branch(x, self.eq(val, cv)):
                                if b:
                                    entries.append((y, n))
                                else:
                                    nxt.append(y)
                        cur = nxt
                for x in cur:
                    if deflt is not None:
                        entries.append((x, deflt))
                    else:
                        res.append((x, 'n', None))
                for x, n in entries:
                    for o in self.seq([i[1] for i in items[n:] if i[1] is not None], x, fr):
                        res.append((o[0], 'n', None) if o[1] == 'brk' else o)
        return self.reduce(res)

    def const_of(self, e):
        if e.get('cv') is not None:
            return C(e['cv'])
        if e['k'] in ('lit', 'enum'):
            return C(e['v'])
        if e['k'] == 'cast':
            return self.const_of(e['a'])
        return ('top', 'case', self.uid(e))

    def s_case(self, s, st, fr):
        return self.exec(s['s'], st, fr)
    s_default = s_case
    s_label = s_case

    def s_goto(self, s, st, fr):
        raise Undecided('goto')

    def s_otherst(self, s, st, fr):
        return [(st, 'n', None)]

    def s_try(self, s, st, fr):
        res = []
        for st_, k, v in self.exec(s['s'], st, fr):
            if k != 'x':
                res.append((st_, k, v))
                continue
            res += self.handle(s['h'], st_, v, fr)
        return self.reduce(res)

    def handle(self, hs, st, exc, fr):
        """exc = (type, value, loc); type '?' = some unknown exception"""
        res = []
        t = exc[0]
        cur = st
        for h in hs:
            ht = h.get('t')
            m = None
            if ht is None or t == ht or self.exc_isa(t, ht):
                m = True
            elif t == '?' or self.exc_isa(ht, t):
                m = None if t == '?' or True else False
                if t != '?' and not self.exc_isa(ht, t):
                    m = False
            else:
                m = False
            if m is False:
                continue
            if m is None:
                c = ('excis', exc[1], ht)
                alts = self.branch(cur, c)
            else:
                alts = [(cur, True)]
            nxt = None
            for x, b in alts:
                if b:
                    y = x.copy()
                    if h.get('v'):
                        L = ('x', fr.d, h['v']['id'])
                        self.write(y, L, exc[1], h['v'], event=False)
                        if h['v'].get('ref'):
                            y.mem[('r', fr.d, h['v']['id'])] = L
                        else:
                            self.write(y, ('v', fr.d, h['v']['id'], h['v']['n']), exc[1], h['v'], event=False)
                    y.mem[('cur_exc', fr.d)] = exc if t != '?' else (ht or '?',) + tuple(exc[1:])
                    self.emit(y, ('catch', ht, exc[1], self.loc(h)))
                    for o in self.exec(h['s'], y, fr):
                        o[0].mem.pop(('cur_exc', fr.d), None)
                        res.append(o)
                else:
                    nxt = x
            if m is True or nxt is None:
                return res
            cur = nxt
        res.append((cur, 'x', exc))
        return res

    STD_EXC = {
        'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
        'std::invalid_argument': ['std::logic_error', 'std::exception'],
        'std::out_of_range': ['std::logic_error', 'std::exception'],
        'std::bad_cast': ['std::exception'], 'std::bad_alloc': ['std::exception'],
        'std::ios_base::failure': ['std::system_error', 'std::runtime_error', 'std::exception'],
    }

    def exc_isa(self, t, base):
        if t == base:
            return True
        for b in self.P.bases(t) + self.STD_EXC.get(t, []):
            if b == base or (b in self.STD_EXC and base in self.STD_EXC[b]):
                return True
        return False

    # ---- expressions -----------------------------------------------------------
    LV = {'ref', 'mem', 'idx', 'this', 'str'}

    def is_lv(self, e):
        k = e['k']
        if k in ('ref', 'mem', 'idx'):
            return True
        if k == 'un' and e['op'] in ('*',):
            return True
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            return True
        if k == 'asg':
            return True
        return False

    def eval(self, e, st, fr, discard=False):
        """rvalue of e: [(st, 'n', V) | (st,'x',exc) | (st,'exit',None)]"""
        if e is None:
            return [(st, 'n', ('top', 'void', 0))]
        if e.get('cv') is not None:
            return [(st, 'n', C(self.boolish(e, e['cv'])))]
        return getattr(self, 'e_' + e['k'])(e, st, fr)

    def boolish(self, e, v):
        return bool(v) if e.get('t') in ('bool', 'const bool') else v

    def lval(self, e, st, fr):
        """location of e (a temporary when e is a prvalue)"""
        k = e['k']
        if k == 'ref':
            return [(st, 'n', self.var(e, st, fr))]
        if k == 'mem':
            return self.l_mem(e, st, fr)
        if k == 'idx':
            res = []
            for s2, k2, vs in self.evals([e['a'], e['b']], st, fr):
                if k2 != 'n':
                    res.append((s2, k2, vs))
                    continue
                a, i = vs
                res.append((s2, 'n', self.index(s2, a, i, e['a'], fr)))
            return res
        if k == 'un' and e['op'] == '*':
            return [(s2, k2, self.deref(v) if k2 == 'n' else v) for s2, k2, v in self.eval(e['a'], st, fr)]
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            res = []
            for s2, k2, L in self.lval(e['a'], st, fr):
                if k2 == 'n':
                    s2 = s2.copy()
                    self.write(s2, L, self.arith('+' if e['op'] == '++' else '-', self.read(s2, L), C(1)), e)
                res.append((s2, k2, L))
            return res
        if k == 'asg':
            return self.assign(e, st, fr)
        if k == 'call':
            res = []
            for s2, k2, v in self.docall(e, st, fr):
                if k2 != 'n':
                    res.append((s2, k2, v))
                elif v[0] == 'ref!':
                    res.append((s2, 'n', v[1]))
                else:
                    L = ('t', fr.d, self.uid(e))
                    s2 = s2.copy()
                    self.write(s2, L, v, e, event=False)
                    res.append((s2, 'n', L))
            return res
        if k == 'cond':
            res = []
            for s2, k2, b in self.cond(e['c'], st, fr):
                res += self.lval(e['a'] if b else e['b'], s2, fr) if k2 == 'n' else [(s2, k2, b)]
            return res
        if k == 'bin' and e['op'] == ',':
            return self.bind([(a, b, None if b == 'n' else c) for a, b, c in self.eval(e['a'], st, fr)],
                             lambda x: self.lval(e['b'], x, fr))
        if k == 'cast' and e.get('ck') in ('NoOp', 'LValueBitCast', 'BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase', 'Dynamic') \
                and not e['t'].endswith('*'):
            return self.lval(e['a'], st, fr) if not e.get('dyn') else self.l_dyn(e, st, fr)
        if k == 'this':
            return [(st, 'n', ('t', fr.d, 'this'))]
        if k == 'ctor' or k == 'ilist':
            L = ('t', fr.d, self.uid(e))
            return [(s2, k2, L if k2 == 'n' else v) for s2, k2, v in self.construct(L, e.get('t', ''), e, st.copy(), fr)]
        res = []
        for s2, k2, v in self.eval(e, st, fr):
            if k2 == 'n':
                L = ('t', fr.d, self.uid(e))
                s2 = s2.copy()
                self.write(s2, L, v, e, event=False)
                res.append((s2, 'n', L))
            else:
                res.append((s2, k2, v))
        return res

    def l_dyn(self, e, st, fr):
        """dynamic_cast to a reference: succeeds or throws std::bad_cast"""
        res = []
        for s2, k, L in self.lval(e['a'], st, fr):
            if k != 'n':
                res.append((s2, k, L))
                continue
            for s3, b in self.branch(s2, self.dyncond(s2, L, e['t'])):
                res.append((s3, 'n', L) if b else (s3, 'x', ('std::bad_cast', ('new', 'std::bad_cast'), self.loc(e))))
        return res

    def dyncond(self, st, L, t):
        t = t.replace('const ', '').rstrip('*& ')
        d = st.mem.get(('dyn', L))
        if d is not None:
            return C(self.P.isa(d, t))
        return ('isa', L, t)

    def var(self, e, st, fr):
        i = e['id']
        if i in fr.env:
            return fr.env[i]
        r = st.mem.get(('r', fr.d, i))
        if r is not None:
            return r
        if e['vk'] == 'global':
            return ('g', e['n'], i)
        if e['vk'] == 'slocal':
            return ('g', '%s::%s' % (fr.fn['n'] if fr.fn else '', e['n']), i)
        return ('v', fr.d, i, e['n'])

    def l_mem(self, e, st, fr):
        res = []
        b = e['b']
        if e.get('arrow'):
            outs = [(s2, k, self.deref(v) if k == 'n' else v) for s2, k, v in self.eval(b, st, fr)]
        else:
            outs = self.lval(b, st, fr)
        for s2, k, L in outs:
            if k != 'n':
                res.append((s2, k, L))
                continue
            F = ('f', L, e['n'])
            if is_ref(e.get('dt', '')):
                v = self.read(s2, F)
                F = self.deref(v)
            res.append((s2, 'n', F))
        return res

    def deref(self, v):
        if v[0] == '&':
            return v[1]
        if v[0] == 'op' and v[1] == '+' and v[2][0] == '&':
            return ('i', v[2][1], v[3])
        return ('*', v)

    def index(self, st, a, i, ae, fr):
        if a[0] == 'arr!':
            return ('i', a[1], i)
        if a[0] == '&':
            L = a[1]
            if L[0] == 'i' and isc(L[2]) and isc(i) and isinstance(L[2][1], int):
                return ('i', L[1], C(L[2][1] + i[1]))
            return ('i', L, i)
        return ('i', ('*', a), i)

    def rd(self, e, st, fr):
        """read through lval; arrays decay to their location"""
        res = []
        for s2, k, L in self.lval(e, st, fr):
            if k == 'n':
                t = e.get('t', '')
                if t.endswith(']'):
                    res.append((s2, 'n', ('arr!', L)))
                else:
                    res.append((s2, 'n', self.read(s2, L, t)))
            else:
                res.append((s2, k, L))
        return res

    e_ref = e_mem = e_idx = rd

    def e_lit(self, e, st, fr):
        if 'f' in e:
            return [(st, 'n', C(float(e['f'])))]
        return [(st, 'n', C(e['v']))]

    def e_null(self, e, st, fr):
        return [(st, 'n', NULL)]

    def e_str(self, e, st, fr):
        return [(st, 'n', C(e['v']))]

    def e_this(self, e, st, fr):
        return [(st, 'n', ('&', fr.this) if fr.this else ('top', 'this', 0))]

    def e_enum(self, e, st, fr):
        return [(st, 'n', C(e['v']))]

    def e_fref(self, e, st, fr):
        return [(st, 'n', ('fn', e['fid'], e['fn']))]

    def e_mref(self, e, st, fr):
        return [(st, 'n', ('fn', e['fid'], e['fn']))]

    def e_zero(self, e, st, fr):
        t = e.get('t', '')
        if t in ('bool',):
            return [(st, 'n', FALSE)]
        if t.endswith('*'):
            return [(st, 'n', NULL)]
        if t in ('int', 'unsigned int', 'long', 'unsigned long', 'double', 'float', 'char', 'size_t', 'short'):
            return [(st, 'n', C(0))]
        return [(st, 'n', ('zero',))]

    def e_typeid(self, e, st, fr):
        return [(st, 'n', ('top', 'typeid', 0))]

    def e_sizeof(self, e, st, fr):
        return [(st, 'n', ('sizeof', e.get('of')))]

    def e_sexpr(self, e, st, fr):
        return [(a, k, ('top', 'sexpr', 0) if k == 'n' else v) for a, k, v in self.exec(e['s'], st, fr)]

    def e_other(self, e, st, fr):
        outs = [(st, 'n', None)]
        for a in e.get('a', ()):
            outs = self.bind(outs, lambda x, a=a: [(p, q, None if q == 'n' else r) for p, q, r in self.eval(a, x, fr)])
        return [(s2, k, ('top', 'other', self.uid(e)) if k == 'n' else v) for s2, k, v in outs]

    def e_cast(self, e, st, fr):
        ck = e.get('ck')
        if e.get('dyn') and e['t'].endswith('*'):
            res = []
            for s2, k, v in self.eval(e['a'], st, fr):
                if k != 'n':
                    res.append((s2, k, v))
                    continue
                if v == NULL:
                    res.append((s2, 'n', NULL))
                    continue
                for s3, b in self.branch(s2, self.dyncond(s2, self.deref(v), e['t'])):
                    res.append((s3, 'n', v if b else NULL))
            return res
        if not e['t'].endswith('*') and self.is_lv(e['a']) and ck in ('NoOp', 'BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'):
            return self.rd(e, st, fr)
        res = []
        for s2, k, v in self.eval(e['a'], st, fr):
            if k == 'n':
                if v[0] == 'arr!':
                    pass
                if ck in ('NullToPointer',):
                    v = NULL
                elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                    v = self.tobool(v)
                elif ck == 'ToVoid':
                    v = ('top', 'void', 0)
                elif ck in ('IntegralCast', 'FloatingCast', 'BooleanToSignedIntegral'):
                    if isc(v) and isinstance(v[1], bool) and e['t'] != 'bool':
                        v = C(int(v[1]))
                elif ck == 'IntegralToFloating':
                    if isc(v) and isinstance(v[1], (int, bool)):
                        v = C(float(v[1]))
                elif ck == 'FloatingToIntegral':
                    v = C(int(v[1])) if isc(v) and isinstance(v[1], float) else ('op', 'trunc', v, None)
            res.append((s2, k, v))
        return res

    def tobool(self, v):
        if isc(v):
            return C(bool(v[1]))
        if v[0] == '&':
            return TRUE
        if v[0] == 'op' and v[1] in ('==', '<', '!'):
            return v
        if v[0] in ('not', 'has'):
            return v
        if v[0] == 'op' and v[1] == 'b2i':
            return v[2]
        return ('not', self.eq(v, C(0)))

    # operators
    def eq(self, a, b):
        if a[0] == 'c' and b[0] != 'c':
            a, b = b, a
        if a == b and a[0] not in ('top',):
            return TRUE
        if a == b:
            return TRUE
        if isc(a) and isc(b):
            x, y = a[1], b[1]
            if x is None and y == 0 or y is None and x == 0:
                return TRUE
            return C(x == y)
        if a[0] == 'ktype' and isc(b) and isinstance(b[1], int) and 0 <= b[1] < 4:
            return ('op', '==', a[1], C(('None', 'Sequence', 'Map', 'Scalar')[b[1]]))
        if isc(b) and b[1] in (None, 0) and not isinstance(b[1], (bool, str)):
            if a[0] in ('&', 'arr!', 'lam', 'fn'):
                return FALSE
        if a[0] == '&' and b[0] == '&':
            ra, rb = root(a[1]), root(b[1])
            if a[1] != b[1] and ra[0] in ('v', 't', 'h') and rb[0] in ('v', 't', 'h') and ra != rb:
                return FALSE
        if isc(b) and b[1] == 0 and not isinstance(b[1], bool):
            if a[0] == 'cmp':
                return self.eq(a[1], a[2])
            if a[0] == 'len':
                return self.eq(a[1], C(''))
        if isc(b) and isinstance(b[1], str) and a[0] == 'cat':
            if any(isc(x) and len(x[1]) > len(b[1]) for x in a[1]) or sum(len(x[1]) for x in a[1] if isc(x)) > len(b[1]):
                return FALSE
        if a[0] == 'it' and b[0] == 'end' and a[1] == b[1]:
            return self.neg(self.has(a[1], a[2]))
        if b[0] == 'it' and a[0] == 'end' and a[1] == b[1]:
            return self.neg(self.has(a[1], b[2]))
        if isc(b) and b[1] in (0, 1) and not isinstance(b[1], str) and (a[0] in ('not', 'has', 'atend') or a[0] == 'op' and a[1] in ('==', '<')):
            return a if b[1] else self.neg(a)
        if isc(b) and isinstance(b[1], bool):
            t = self.tobool(a) if a[0] != 'op' or a[1] not in ('==', '<') else a
            return t if b[1] else self.neg(t)
        if isc(b) and b[1] is None:
            b = C(0)
        if not isc(b) and repr(a) > repr(b):
            a, b = b, a
        return ('op', '==', a, b)

    def neg(self, v):
        if isc(v):
            return C(not v[1])
        if v[0] == 'not':
            return v[1]
        return ('not', v)

    def arith(self, op, a, b):
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return self.neg(self.eq(a, b))
        if op == '>':
            return self.arith('<', b, a)
        if op == '>=':
            return self.neg(self.arith('<', a, b))
        if op == '<=':
            return self.neg(self.arith('<', b, a))
        if isc(a) and isc(b):
            x, y = a[1], b[1]
            try:
                if isinstance(x, str) or isinstance(y, str):
                    if op == '+' and isinstance(x, str) and isinstance(y, str):
                        return C(x + y)
                    if op == '+' and isinstance(x, str) and isinstance(y, int) and 0 <= y <= len(x):
                        return C(x[y:])
                    if op == '<' and isinstance(x, str) and isinstance(y, str):
                        return C(x < y)
                elif x is not None and y is not None:
                    if op == '+': return C(x + y)
                    if op == '-': return C(x - y)
                    if op == '*': return C(x * y)
                    if op == '<': return C(x < y)
                    if op == '&': return C(x & y)
                    if op == '|': return C(x | y)
                    if op == '^': return C(x ^ y)
                    if op == '<<': return C(x << y)
                    if op == '>>': return C(x >> y)
                    if op == '/' and y != 0:
                        if isinstance(x, int) and isinstance(y, int):
                            q = abs(x) // abs(y)
                            return C(q if (x < 0) == (y < 0) else -q)
                        return C(x / y)
                    if op == '%' and y != 0:
                        return C(x - y * (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1))
            except TypeError:
                pass
        if op == '<' and a == b:
            return FALSE
        if op == '<' and isc(b) and b[1] == 0 and a[0] in ('size', 'len'):
            return FALSE
        if op == '<' and isc(a) and a[1] == 0 and b[0] in ('size', 'len'):
            return self.neg(self.eq(b, C(0)))
        if op in ('+', '*', '&', '|', '^') and isc(a) and not isc(b):
            a, b = b, a
        if op == '+' and isc(b) and b[1] == 0 and not isinstance(b[1], str):
            return a
        if op == '-' and isc(b) and b[1] == 0:
            return a
        if op == '-' and isc(b) and isinstance(b[1], (int, float)):
            return self.arith('+', a, C(-b[1]))
        if op == '+' and isc(b) and a[0] == 'op' and a[1] == '+' and isc(a[3]) and isinstance(a[3][1], (int, float)) and isinstance(b[1], (int, float)):
            return self.arith('+', a[2], C(a[3][1] + b[1]))
        if op == '+' and a[0] == 'arr!':
            a = ('&', a[1])
        return ('op', op, a, b)

    def e_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            return [(s2, k, C(v) if k == 'n' else v) for s2, k, v in self.cond(e, st, fr)]
        if op == ',':
            return self.bind([(a, k, None if k == 'n' else v) for a, k, v in self.eval(e['a'], st, fr, True)],
                             lambda x: self.eval(e['b'], x, fr))
        res = []
        for s2, k, vs in self.evals([e['a'], e['b']], st, fr):
            if k == 'n':
                a, b = vs
                if op in ('.*', '->*'):
                    v = ('top', 'memptr', self.uid(e))
                else:
                    v = self.arith(op, a, b)
                res.append((s2, 'n', v))
            else:
                res.append((s2, k, vs))
        return res

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '&':
            a = e['a']
            if a['k'] in ('fref', 'mref'):
                return self.eval(a, st, fr)
            if a['k'] == 'str':
                return self.eval(a, st, fr)
            return [(s2, k, ('&', L) if k == 'n' else L) for s2, k, L in self.lval(a, st, fr)]
        if op == '*':
            return self.rd(e, st, fr)
        if op in ('++', '--'):
            res = []
            for s2, k, L in self.lval(e['a'], st, fr):
                if k == 'n':
                    old = self.read(s2, L)
                    new = self.arith('+' if op == '++' else '-', old, C(1))
                    s2 = s2.copy()
                    self.write(s2, L, new, e)
                    res.append((s2, 'n', old if e.get('post') else new))
                else:
                    res.append((s2, k, L))
            return res
        res = []
        for s2, k, v in self.eval(e['a'], st, fr):
            if k == 'n':
                if op == '!':
                    v = self.neg(self.truth(v))
                elif op == '-':
                    v = C(-v[1]) if isc(v) and isinstance(v[1], (int, float)) else ('op', 'neg', v, None)
                elif op == '~':
                    v = C(~v[1]) if isc(v) and isinstance(v[1], int) else ('op', '~', v, None)
            res.append((s2, k, v))
        return res

    def e_asg(self, e, st, fr):
        return [(s2, k, self.read(s2, L) if k == 'n' else L) for s2, k, L in self.assign(e, st, fr)]

    def assign(self, e, st, fr):
        res = []
        # C++17: the right operand is sequenced before the left
        for s2, k, v in self.eval(e['b'], st, fr):
            if k != 'n':
                res.append((s2, k, v))
                continue
            for s3, k3, L in self.lval(e['a'], s2, fr):
                if k3 != 'n':
                    res.append((s3, k3, L))
                    continue
                s3 = s3.copy()
                if e['op'] != '=':
                    nv = self.arith(e['op'][:-1], self.read(s3, L), v)
                    self.emit(s3, ('upd', L, e['op'], v, self.loc(e)))
                else:
                    nv = v
                self.write(s3, L, nv, e)
                res.append((s3, 'n', L))
        return res

    def e_cond(self, e, st, fr):
        res = []
        for s2, k, b in self.cond(e['c'], st, fr):
            res += self.eval(e['a'] if b else e['b'], s2, fr) if k == 'n' else [(s2, k, b)]
        return res

    def evals(self, es, st, fr):
        outs = [(st, 'n', [])]
        for e in es:
            nxt = []
            for s, k, vs in outs:
                if k != 'n':
                    nxt.append((s, k, vs))
                    continue
                for s2, k2, v in self.eval(e, s, fr):
                    nxt.append((s2, k2, vs + [v] if k2 == 'n' else v))
            outs = nxt
        return outs

    def e_lambda(self, e, st, fr):
        env = []
        st = st.copy()
        for c in e['caps']:
            if c.get('this'):
                env.append(('this', fr.this))
                continue
            ref = {'id': c['id'], 'n': c['n'], 'vk': 'local'}
            if c.get('init'):
                L = ('t', fr.d, ('cap', self.uid(e), c['n']))
                o = [x for x in self.eval(c['init'], st, fr) if x[1] == 'n']
                if o:
                    st = o[0][0].copy()
                    self.write(st, L, o[0][2], e, event=False)
                env.append((c['id'], L))
                continue
            L = self.var(ref, st, fr)
            if not c.get('byref'):
                T = ('t', fr.d, ('cap', self.uid(e), c['n']))
                self.write(st, T, self.read(st, L), e, event=False)
                L = T
            env.append((c['id'], L))
        return [(st, 'n', ('lam', e['fid'], tuple(env), tuple(e.get('specs', ()))))]

    def e_throw(self, e, st, fr):
        if e['a'] is None:
            for d in range(fr.d, -1, -1):
                x = st.mem.get(('cur_exc', d))
                if x is not None:
                    return [(st, 'x', x)]
            return [(st, 'x', ('?', ('top', 'rethrow', 0), self.loc(e)))]
        res = []
        tt = (e.get('tt') or '?').replace('const ', '')
        for s2, k, v in self.eval(e['a'], st, fr):
            res.append((s2, 'x', (tt, v, self.loc(e))) if k == 'n' else (s2, k, v))
        return res

    def e_new(self, e, st, fr):
        L = ('h', self.uid(e))
        for n in range(2, 8):
            if st.mem.get(('dyn', L)) is None or st.mem.get(L) == ('deleted',):
                break
            L = ('h', self.uid(e), n)
        st = st.copy()
        for k in [k for k in st.mem if k[0] in 'fiyh' and k and under(L, k)]:
            del st.mem[k]
        st.mem[('dyn', L)] = e['at']
        outs = [(st, 'n', None)]
        if e.get('size'):
            outs = []
            for s2, k, v in self.eval(e['size'], st, fr):
                if k == 'n':
                    s2 = s2.copy()
                    s2.mem[('cnt', L)] = v
                outs.append((s2, k, None if k == 'n' else v))
        if e.get('init'):
            outs = self.bind(outs, lambda x: [(a, k, None if k == 'n' else v) for a, k, v in self.construct(L, e['at'], e['init'], x, fr)])
        else:
            for s2, k, v in outs:
                if k == 'n':
                    s2.mem[L] = ('uninit', L)
        res = []
        for s2, k, v in outs:
            if k == 'n':
                s2 = s2.copy()
                self.emit(s2, ('new', L, e['at'], bool(e.get('array')), self.loc(e)))
                res.append((s2, 'n', ('&', L)))
            else:
                res.append((s2, k, v))
        return res

    def free(self, st, L, array, e):
        self.emit(st, ('delete', L, array, self.loc(e)))
        for m in [m for m in st.mem if m[0] in 'fiyh*' and under(L, m)]:
            del st.mem[m]
        st.mem[L] = ('deleted',)

    def e_delete(self, e, st, fr):
        res = []
        for s2, k, v in self.eval(e['a'], st, fr):
            if k != 'n':
                res.append((s2, k, v))
                continue
            s2 = s2.copy()
            if v == NULL:
                res.append((s2, 'n', NULL))
                continue
            L = self.deref(v)
            cands = []
            if e.get('dtor'):
                cands = [f for f in self.virtual_targets(e, s2, L, e['dtor']) if not f.get('defaulted') and not f.get('implicit')]
            outs = [(s2, 'n', None)]
            if cands and self.pol.inline(self, cands[0]):
                outs = []
                for f in cands:
                    if self.can_inline(f, fr):
                        outs += self.call_body(f, s2.copy(), fr, this=L, args=[], e=e)
                    else:
                        outs.append((s2.copy(), 'n', None))
            for s3, k3, v3 in outs:
                s3 = s3.copy()
                if k3 == 'n':
                    self.free(s3, L, bool(e.get('array')), e)
                res.append((s3, k3, NULL if k3 == 'n' else v3))
        return res

    # ---- construction -------------------------------------------------------------
    def construct(self, L, t, e, st, fr, scalar=False):
        """initialise L from e; outcomes carry None"""
        if e is None:
            return [(st, 'n', None)]
        k = e['k']
        if k == 'ctor':
            return self.ctor(L, e, st, fr)
        if k == 'ilist':
            return self.ilist(L, t, e, st, fr)
        res = []
        for s2, k2, v in self.eval(e, st, fr):
            if k2 == 'n':
                s2 = s2.copy()
                if v[0] == 'arr!' and not t.endswith('*'):
                    v = self.read(s2, v[1])
                self.write(s2, L, v, e, event=False)
                d = s2.mem.get(('dyn', ('t', fr.d, self.uid(e))))
                res.append((s2, 'n', None))
            else:
                res.append((s2, k2, v))
        return res

    def e_ctor(self, e, st, fr):
        L = ('t', fr.d, self.uid(e))
        res = []
        for s2, k, v in self.ctor(L, e, st.copy(), fr):
            res.append((s2, k, self.read(s2, L) if k == 'n' else v))
        return res

    def e_ilist(self, e, st, fr):
        L = ('t', fr.d, self.uid(e))
        res = []
        for s2, k, v in self.ilist(L, e.get('t', ''), e, st.copy(), fr):
            res.append((s2, k, self.read(s2, L) if k == 'n' else v))
        return res

    def ilist(self, L, t, e, st, fr):
        res = []
        for s2, k, vs in self.evals(e['a'], st, fr):
            if k != 'n':
                res.append((s2, k, vs))
                continue
            s2 = s2.copy()
            fields = e.get('fields')
            if fields is not None and list(fields) == ['_M_elems'] and vs:
                # std::array is its elements
                self.write(s2, L, vs[0], e, event=False)
            elif fields is not None and not e.get('t', '').startswith(('std::pair', 'const std::pair')):
                items = tuple((f, vs[i]) for i, f in enumerate(fields) if i < len(vs))
                self.write(s2, L, ('zero',) if True else None, e, event=False)
                rec = self.P.records.get(e.get('t', '').replace('const ', ''))
                for i, f in enumerate(fields):
                    if i < len(vs):
                        self.write(s2, ('f', L, f), vs[i], e, event=False)
                    elif rec:
                        fd = next((x for x in rec.get('fields', ()) if x['n'] == f), None)
                        if fd and fd.get('i') is not None:
                            o = [x for x in self.eval(fd['i'], s2, fr) if x[1] == 'n']
                            if o:
                                s2 = o[0][0].copy()
                                self.write(s2, ('f', L, f), o[0][2], e, event=False)
            elif not e['a']:
                self.write(s2, L, ('agg', 'list', ()) if ']' in t or 'initializer_list' in t else ('zero',), e, event=False)
            elif len(vs) == 1 and not t.endswith(']') and 'initializer_list' not in e.get('t', '') and not e.get('t', '').endswith(']'):
                self.write(s2, L, vs[0], e, event=False)
            else:
                n = len(vs)
                m = re.search(r'\[(\d+)\]', e.get('t', ''))
                if m and int(m.group(1)) > n and int(m.group(1)) <= 4096:
                    vs = vs + [C(0)] * (int(m.group(1)) - n)
                self.write(s2, L, ('agg', 'list', tuple(vs)), e, event=False)
            res.append((s2, 'n', None))
        return res

    def ctor(self, L, e, st, fr):
        """run constructor e into location L"""
        name = strip_targs(e['fn'])
        m = self.pol.model(self, name) or self.models.get(name)
        if m is None:
            for rx, h in self.rxmodels:
                if rx.match(name):
                    m = h
                    break
        f = self.P.funcs.get(e['fid'])
        if m is None and e.get('copy') and (f is None or f.get('implicit') or f.get('defaulted') or not self.can_inline(f, fr)):
            res = []
            for s2, k, v in self.eval(e['a'][0], st, fr):
                if k == 'n':
                    s2 = s2.copy()
                    self.write(s2, L, v, e, event=False)
                    d = self.dyn_of(e['a'][0], s2, fr)
                    if ('dyn', L) not in s2.mem and e.get('rec'):
                        s2.mem[('dyn', L)] = e['rec']
                    res.append((s2, 'n', None))
                else:
                    res.append((s2, k, v))
            return res
        res = []
        for s2, k, args in self.args(e, st, fr):
            if k != 'n':
                res.append((s2, k, args))
                continue
            s2 = s2.copy()
            if e.get('rec') and root(L)[0] != 'g':
                s2.mem[('dyn', L)] = e['rec']
            if m is not None:
                r = m(self, s2, fr, e, L, args, name)
                if r is not NotImplemented:
                    res += [(a, k3, None if k3 == 'n' else v3) for a, k3, v3 in r]
                    continue
            if f is not None and f.get('body') and self.can_inline(f, fr) and not f.get('implicit'):
                res += [(a, k3, None if k3 == 'n' else v3)
                        for a, k3, v3 in self.call_body(f, s2, fr, this=L, args=args, e=e)]
                continue
            if f is not None and f.get('implicit') and f.get('init'):
                res += [(a, k3, None if k3 == 'n' else v3)
                        for a, k3, v3 in self.call_body(f, s2, fr, this=L, args=args, e=e)]
                continue
            rec = self.P.records.get(e.get('rec'))
            if rec is not None and not args and 'fields' in rec and (f is None or f.get('implicit') or f.get('defaulted')):
                # implicit default constructor of a class of the repository
                res += self.default_init(L, e['rec'], s2, fr, e)
                continue
            v = ('new', e.get('rec') or name, tuple(a[1] for a in args))
            self.write(s2, L, v, e, event=False)
            self.emit(s2, ('ctor', name, e.get('rec'), L, tuple(args), self.loc(e)))
            for x in self.pol.may_throw(self, name, e):
                res.append((s2.copy(), 'x', (x, ('thrown', name, x), self.loc(e))))
            res.append((s2, 'n', None))
        return res

    def dyn_of(self, e, st, fr):
        return None

    def default_init(self, L, rec, st, fr, e):
        self.write(st, L, ('uninit', L), e, event=False)
        return self.default_fields(L, rec, [(st, 'n', None)], fr, e)

    def default_fields(self, L, rec, outs, fr, e, skip=()):
        r = self.P.records.get(rec)
        if not r:
            return outs
        for b in r.get('bases', ()):
            if 'b:' + b not in skip:
                outs = self.default_fields(L, b, outs, fr, e)
        for f in r.get('fields', ()):
            if f['n'] in skip:
                continue
            if f.get('i') is not None:
                outs = self.bind(outs, lambda x, f=f: self.construct(('f', L, f['n']), f['t'], f['i'], x, fr))
            elif not f.get('scalar'):
                t = f['t']
                n = strip_targs(t)
                for s2, k, v in outs:
                    if k == 'n':
                        if n in ('std::vector', 'std::map', 'std::set', 'std::unordered_map', 'std::list', 'std::deque'):
                            s2.mem[('f', L, f['n'])] = ('agg', 'list' if n in ('std::vector', 'std::list', 'std::deque') else 'set' if n == 'std::set' else 'map', ())
                        elif n == 'std::basic_string':
                            s2.mem[('f', L, f['n'])] = C('')
                if t in self.P.records and self.P.records[t].get('fields'):
                    outs = self.bind(outs, lambda x, f=f, t=t: self.default_fields(('f', L, f['n']), t, [(x, 'n', None)], fr, e))
        return outs

    # ---- calls ------------------------------------------------------------------
    def args(self, e, st, fr):
        """[(st,'n',[(L|None, V)...])]"""
        outs = [(st, 'n', [])]
        pts = e.get('pt') or []
        for i, a in enumerate(e.get('a', ())):
            ref = i < len(pts) and is_ref(pts[i])
            if i >= len(pts) and not pts:
                ref = self.is_lv(a)
            nxt = []
            for s, k, vs in outs:
                if k != 'n':
                    nxt.append((s, k, vs))
                    continue
                if ref:
                    for s2, k2, L in self.lval(a, s, fr):
                        if k2 == 'n':
                            nxt.append((s2, 'n', vs + [(L, self.read(s2, L))]))
                        else:
                            nxt.append((s2, k2, L))
                else:
                    for s2, k2, v in self.eval(a, s, fr):
                        nxt.append((s2, k2, vs + [(None, v)] if k2 == 'n' else v))
            outs = nxt
        return outs

    def can_inline(self, f, fr):
        if not f.get('body') or fr.d >= self.pol.max_depth:
            return False
        if fr.stack.count(f['fid']) >= getattr(self.pol, 'max_rec', 1):
            self.recursion.add(f['n'])
            return False
        if strip_targs(f['n']) in self.pol.opaque or f['short'] in self.pol.opaque:
            return False
        return self.pol.inline(self, f)

    def e_call(self, e, st, fr):
        res = []
        for s2, k, v in self.docall(e, st, fr):
            if k == 'n' and v[0] == 'ref!':
                v = self.read(s2, v[1])
            res.append((s2, k, v))
        return res

    def docall(self, e, st, fr):
        """outcomes with V, or ('ref!', L) when the call returns a reference"""
        self.stats['calls'] += 1
        # object / callee
        if e.get('ce') is not None and 'fid' not in e:
            return self.indirect(e, st, fr)
        outs = [(st, 'n', None)]
        if e.get('obj') is not None:
            o = e['obj']
            if e.get('arrow') or o['k'] == 'this':
                outs = [(s2, k, self.deref(v) if k == 'n' else v) for s2, k, v in self.eval(o, st, fr)]
            else:
                outs = self.lval(o, st, fr)
        res = []
        name = strip_targs(e['fn'])
        for s2, k, objL in outs:
            if k != 'n':
                res.append((s2, k, objL))
                continue
            for s3, k3, args in self.args(e, s2, fr):
                if k3 != 'n':
                    res.append((s3, k3, args))
                else:
                    res += self.apply(e, name, s3, fr, objL, args)
        return self.reduce(res)

    def apply(self, e, name, st, fr, objL, args):
        m = self.pol.model(self, name)
        if m is not None:
            r = m(self, st.copy(), fr, e, objL, args, name)
            if r is not NotImplemented:
                return r
        f = self.P.funcs.get(e['fid'])
        if name in self.pol.noreturn or e.get('noret') and not (f and not e.get('virt') and self.can_inline(f, fr)):
            st = st.copy()
            self.emit(st, ('call', name, tuple(e.get('ta', ())), objL, tuple(args), self.loc(e)))
            return [(st, 'exit', ('exit', name, tuple(a[1] for a in args), self.loc(e)))]
        # a lambda called directly
        if e.get('op') == '()' and objL is not None:
            V = self.read(st, objL)
            if V[0] == 'lam':
                return self.call_value(V, e, st, fr, args)
            if V[0] == 'fn' and name.startswith('std::function'):
                return self.call_value(V, e, st, fr, args)
        f = self.P.funcs.get(e['fid'])
        m = self.models.get(name)
        if m is None and (f is None or name.startswith('std::')):
            for rx, h in self.rxmodels:
                if rx.match(name):
                    m = h
                    break
        if m is not None:
            r = m(self, st.copy(), fr, e, objL, args, name)
            if r is not NotImplemented:
                return r
        targets = [f] if f else []
        if e.get('virt') and not e.get('qual') and objL is not None:
            targets = self.virtual_targets(e, st, objL, e['fid'])
        targets = [t for t in targets if t]
        inl = [t for t in targets if self.can_inline(t, fr)]
        if inl and len(inl) == len(targets):
            res = []
            for t in inl:
                s2 = st.copy()
                if len(targets) > 1:
                    c = ('target', objL, t['fid'])
                    s2.facts[c] = True
                if t.get('defaulted') and t['short'] == 'operator=' and args:
                    self.write(s2, objL, args[0][1], e)
                    res.append((s2, 'n', ('ref!', objL)))
                    continue
                res += self.call_body(t, s2, fr, this=objL, args=args, e=e)
            return self.reduce(res)
        if e.get('op') == '=' and objL is not None and len(args) == 1 and (f is None or f.get('defaulted') or f.get('implicit')):
            st = st.copy()
            if e['pt'] and not any('initializer_list' in p for p in e['pt']):
                self.write(st, objL, args[0][1], e)
                return [(st, 'n', ('ref!', objL))]
        return self.opaque(e, name, st, fr, objL, args)

    def virtual_targets(self, e, st, L, fid):
        d = st.mem.get(('dyn', L))
        base = self.P.funcs.get(fid)
        allv, todo, seen = [], [fid], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for g in self.P.overriders.get(x, ()):
                todo.append(g['fid'])
            g = self.P.funcs.get(x)
            if g:
                allv.append(g)
        if d is not None:
            chain = [d] + self.P.bases(d)
            for c in chain:
                for g in allv:
                    if g.get('rec') == c:
                        return [g]
        return allv

    def indirect(self, e, st, fr):
        res = []
        ce = e['ce']
        for s2, k, v in self.eval(ce, st, fr):
            if k != 'n':
                res.append((s2, k, v))
                continue
            for s3, k3, args in self.args(e, s2, fr):
                if k3 != 'n':
                    res.append((s3, k3, args))
                else:
                    res += self.call_value(v, e, s3, fr, args)
        return res

    def call_value(self, v, e, st, fr, args):
        if v[0] == 'lam':
            f = self.P.funcs.get(v[1])
            if f is None and len(v) > 3:
                c = [self.P.funcs[x] for x in v[3] if x in self.P.funcs]
                f = next((x for x in c if x['fid'] == e.get('fid')), c[0] if len(c) == 1 else None)
            if f is not None and self.can_inline(f, fr):
                return self.call_body(f, st.copy(), fr, this=None, args=args, e=e, env=dict(v[2]))
        if v[0] == 'fn':
            f = self.P.funcs.get(v[1])
            if f is not None and self.can_inline(f, fr) and not f.get('rec'):
                return self.call_body(f, st.copy(), fr, this=None, args=args, e=e)
            return self.opaque(e, strip_targs(v[2]), st, fr, None, args, fn=v)
        return self.opaque(e, '(indirect)', st, fr, None, args, fn=v)

    def call_body(self, f, st, fr, this=None, args=(), e=None, env=None):
        self.stats['functions'].add(f['full'] + '@' + self.P.where(f))
        d = fr.d + 1
        # args may have locations of the caller's frame; stale entries of this depth are gone
        for k in [k for k in st.mem if _depth(k) is not None and _depth(k) >= d]:
            del st.mem[k]
        env = env or {}
        th = env.pop('this', this) if 'this' in env else this
        nf = Frame(d, f, th, env, fr.stack + (f['fid'],))
        for i, p in enumerate(f['p']):
            if i < len(args):
                L, V = args[i]
                if p.get('ref'):
                    if L is None:
                        L = ('v', d, p['id'], p['n'])
                        self.write(st, L, V, e, event=False)
                    st.mem[('r', d, p['id'])] = L
                else:
                    self.write(st, ('v', d, p['id'], p['n']), V, e, event=False)
        outs = [(st, 'n', None)]
        if f.get('ctor'):
            outs = self.ctor_inits(f, st, nf, this, e)
        saved, self.cur = self.cur, f['n']
        outs = self.bind(outs, lambda x: self.exec(f['body'], x, nf))
        self.cur = saved
        res = []
        isref = is_ref(f['ret'])
        for s2, k, v in outs:
            s2 = St({m: x for m, x in s2.mem.items() if _depth(m) is None or _depth(m) < d}, s2.facts, s2.tr)
            if k in ('ret', 'n'):
                if k == 'n' or v is None:
                    v = ('top', 'void', 0)
                elif isref and v[0] == '&':
                    v = ('ref!', v[1])
                res.append((s2, 'n', v))
            else:
                res.append((s2, k, v))
        self.stats['paths'] += len(res)
        return self.reduce(res)

    def ctor_inits(self, f, st, nf, this, e):
        outs = [(st, 'n', None)]
        if not any(i.get('d') for i in f.get('init', ())):
            if this not in st.mem:
                st.mem[this] = ('uninit', this)
        done = set()
        for i in f.get('init', ()):
            if i.get('d') or i.get('b'):
                outs = self.bind(outs, lambda x, i=i: [(a, k, None if k == 'n' else v)
                                                      for a, k, v in self.base_init(this, i, x, nf)])
            elif i.get('f'):
                L = ('f', this, i['f'])
                done.add(i['f'])
                rec = self.P.records.get(f.get('rec'), {})
                fd = next((x for x in rec.get('fields', ()) if x['n'] == i['f']), None)
                if fd and is_ref(fd['t']):
                    def b(x, i=i, L=L):
                        r = []
                        for a, k, v in self.lval(i['e'], x, nf):
                            if k == 'n':
                                a = a.copy()
                                a.mem[L] = ('&', v)
                            r.append((a, k, None if k == 'n' else v))
                        return r
                    outs = self.bind(outs, b)
                else:
                    outs = self.bind(outs, lambda x, i=i, L=L, fd=fd: self.construct(L, fd['t'] if fd else '', i['e'], x, nf))
        return outs

    def base_init(self, this, i, st, nf):
        e = i['e']
        if e is None:
            return [(st, 'n', None)]
        if e['k'] == 'ctor':
            f = self.P.funcs.get(e['fid'])
            d = st.mem.get(('dyn', this))
            if e.get('copy') and (f is None or f.get('implicit') or f.get('defaulted')):
                return [(a, k, None if k == 'n' else v) for a, k, v in self.eval(e['a'][0], st, nf)]
            if f is not None and f.get('body') and self.can_inline(f, nf):
                res = []
                for s2, k, args in self.args(e, st, nf):
                    res += self.call_body(f, s2.copy(), nf, this=this, args=args, e=e) if k == 'n' else [(s2, k, args)]
                return res
            res = []
            for s2, k, args in self.args(e, st, nf):
                if k == 'n':
                    s2 = s2.copy()
                    rec = self.P.records.get(e.get('rec'))
                    if args:
                        s2.mem[('f', this, 'base:' + strip_targs(e['rec']))] = ('new', e.get('rec'), tuple(a[1] for a in args))
                    elif rec and 'fields' in rec:
                        res += self.default_fields(this, e['rec'], [(s2, 'n', None)], nf, e)
                        continue
                    res.append((s2, 'n', None))
                else:
                    res.append((s2, k, args))
            return res
        return [(a, k, None if k == 'n' else v) for a, k, v in self.eval(e, st, nf)]

    def opaque(self, e, name, st, fr, objL, args, fn=None):
        st = st.copy()
        pts = e.get('pt') or []
        ta = tuple(e.get('ta', ()))
        av = tuple(args)
        obj = (objL, self.read(st, objL)) if objL is not None else None
        const = e.get('const') or e.get('static')
        throws = self.pol.may_throw(self, name, e)
        res = []
        for x in throws:
            s2 = st.copy()
            self.emit(s2, ('call!', name, ta, obj, av, self.loc(e), x))
            self.mutate(s2, e, name, objL, const, args, pts)
            res.append((s2, 'x', (x, ('thrown', name, ta, tuple(a[1] for a in args)), self.loc(e))))
        if name in self.pol.pure or (objL is not None and e.get('const') and not e['t'].endswith('void')):
            r = ('call', name, ta, obj[1] if obj else None, tuple(a[1] for a in args))
        else:
            self.P.ucount += 1
            r = ('call', name, ta, obj[1] if obj else None, tuple(a[1] for a in args), self.uid(e))
        self.emit(st, ('call', name, ta, obj, av, self.loc(e), r) if fn is None else ('call', name, ta, fn, av, self.loc(e), r))
        if e.get('t') == 'bool' and False:
            pass
        self.mutate(st, e, name, objL, const, args, pts)
        res.append((st, 'n', r if not self.ret_is_ref(e) else ('ref!', ('*', r))))
        return res

    def ret_is_ref(self, e):
        f = self.P.funcs.get(e.get('fid'))
        if f:
            return is_ref(f['ret'])
        return bool(e.get('lv'))

    def mutate(self, st, e, name, objL, const, args, pts):
        if name in self.pol.pure:
            return
        if objL is not None and not const:
            self.havoc(st, objL, e, 'obj')
        for i, (L, V) in enumerate(args):
            pt = pts[i] if i < len(pts) else ''
            if is_ref(pt) and not pt.startswith('const ') and L is not None and ') const' not in pt:
                self.havoc(st, L, e, 'arg')
            elif pt.endswith('*') and not pt.startswith('const ') and V[0] in ('&', 'arr!'):
                self.havoc(st, V[1], e, 'arg')
            elif not pt and V[0] == '&':
                self.havoc(st, V[1], e, 'arg')

    # ---- entry -----------------------------------------------------------------------
    def run(self, f, this=None, args=None, st=None):
        """Analyse f from its entry: reference parameters are root objects named after
        their position, value parameters unknown terms.  args may override by position."""
        st = st or St()
        av = []
        for i, p in enumerate(f['p']):
            a = args.get(i) if args else None
            if a is not None:
                av.append(a)
            elif p.get('ref'):
                av.append((('o', 'P%d' % i), None))
            else:
                av.append((None, ('parm', i)))
        av = [(L, V if V is not None else self.read(st, L)) for L, V in av]
        fr = Frame(0, None)
        if f.get('rec') and not f.get('static') and this is None:
            this = ('o', 'this')
        return self.call_body(f, st, fr, this=this, args=av, e={'k': 'entry'})


def _hk(v):
    return v if isinstance(v, (tuple, type(None), bool, int, str)) else repr(v)


def _depth(k):
    r = k
    while True:
        c = r[0]
        if c in 'fiy' or c in ('live', 'dyn', 'elt'):
            r = r[1]
            if not isinstance(r, tuple):
                return None
            continue
        break
    if r[0] in ('v', 't', 'r', 'x'):
        return r[1] if isinstance(r[1], int) else None
    if r[0] == 'cur_exc':
        return r[1]
    return None
