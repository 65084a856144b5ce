"""Family E: what all ranks do together (divergence analysis of the EVPFFT programs)."""
from sa.interp import Undecided
from sa.prog import walk
from checks.ecore import whole

U = frozenset()
L = frozenset('L')          # may differ from rank to rank
W = frozenset('W')          # every process there is, not the communicator of the solver
COLLECTIVE = {'MPI_Allreduce', 'MPI_Reduce', 'MPI_Bcast', 'MPI_Barrier', 'MPI_Gather', 'MPI_Gatherv', 'MPI_Allgather', 'MPI_Allgatherv',
              'MPI_Scatter', 'MPI_Scatterv', 'MPI_Alltoall', 'MPI_Alltoallv', 'MPI_Scan', 'MPI_Exscan', 'MPI_Reduce_scatter', 'MPI_Comm_split', 'MPI_Comm_dup',
              'MPI_Comm_create', 'MPI_Cart_create', 'MPI_File_open', 'MPI_File_close', 'MPI_File_set_view', 'MPI_File_write_all', 'MPI_File_read_all',
              'MPI_File_write_at_all', 'MPI_File_read_at_all', 'MPI_File_set_size',
              'H5Fcreate', 'H5Fopen', 'H5Fclose', 'H5Gcreate2', 'H5Gcreate', 'H5Dcreate2', 'H5Dcreate', 'H5Dwrite', 'H5Dread', 'H5Acreate2', 'H5Ldelete'}
# collective call -> argument holding the result, the same on every rank
SAME = {'MPI_Allreduce': 1, 'MPI_Bcast': 0, 'MPI_Allgather': 3, 'MPI_Allgatherv': 3}
LOCAL = {'MPI_Comm_rank', 'MPI_Scan', 'MPI_Exscan', 'MPI_Scatter', 'MPI_Scatterv', 'MPI_Recv', 'MPI_Reduce_scatter', 'MPI_Reduce', 'MPI_Gather', 'MPI_Gatherv'}
PRINT = {'fprintf', 'vfprintf'}
DEPTH = 4


def counters(s):
    """the variables a for loop starts with a constant and steps"""
    i = s.get('init')
    out = set()
    for x in walk(s.get('inc')):
        if x.get('k') == 'un' and x['op'] in ('++', '--') or x.get('k') == 'asg':
            a = x['a']
            while isinstance(a, dict) and a.get('k') == 'cast':
                a = a['a']
            if isinstance(a, dict) and a.get('k') == 'ref':
                out.add(a['id'])
    return out


class Div:
    def __init__(self, P):
        self.P = P
        self.lab = {}           # path -> labels
        self.al = {}            # path of a reference, pointer or view -> path it stands for
        self.why = {}           # path -> where it came to differ
        self.this = []
        self.loops = set()
        self.mine = set()       # locals of the function being run
        self.stack = []
        self.sites = {}         # collective call site -> (bad reason or None)
        self.world = {}
        self.said = {}          # printing site -> reason or None
        self.funcs = set()
        self.calls = 0
        self.reason = None

    # ---- paths ---------------------------------------------------------------------------------
    def norm(self, p):
        for _ in range(8):
            for n in range(len(p), 0, -1):
                t = self.al.get(p[:n])
                if t is not None and t != p[:n]:
                    p = t + p[n:]
                    break
            else:
                return p[:DEPTH]
        return p[:DEPTH]

    def look(self, lab, p):
        """labels of the nearest enclosing object that has any"""
        for n in range(len(p), 0, -1):
            l = lab.get(p[:n])
            if l is not None:
                return p[:n], l
        return None, U

    def get(self, p):
        p = self.norm(p)
        q, r = self.look(self.lab, p)
        if 'L' in r and self.reason is None:
            self.reason = self.why.get(q)
        n = len(p)
        for q, l in self.lab.items():
            if l and q[0] == p[0] and len(q) > n and q[:n] == p:
                r |= l
                if 'L' in l and self.reason is None:
                    self.reason = self.why.get(q)
        return r

    def put(self, p, l, strong, where=None):
        p = self.norm(p)
        if strong:
            for q in [q for q in self.lab if q[0] == p[0] and q[:len(p)] == p]:
                del self.lab[q]
            if l or self.look(self.lab, p)[1]:
                self.lab[p] = frozenset(l)
        elif l:
            self.lab[p] = self.look(self.lab, p)[1] | l
            for q in [q for q in self.lab if q[0] == p[0] and len(q) > len(p) and q[:len(p)] == p]:
                self.lab[q] |= l
        if 'L' in l and p not in self.why:
            self.why[p] = where

    def path(self, e):
        """path of the object an expression stands for"""
        while isinstance(e, dict):
            k = e.get('k')
            if k == 'cast' or k == 'idx' or k == 'un' and e['op'] in ('*', '&', '++', '--'):
                e = e['a']
            elif k == 'ref':
                if e.get('vk') == 'global':
                    return (e['n'],)
                return (e['id'],)
            elif k == 'this':
                return self.this[-1]
            elif k == 'mem':
                b = self.path(e['b'])
                if b is None:
                    return None
                if e['n'] == 'host' and e.get('rec', '').startswith('mtr::'):
                    return b
                return b + (e['n'],)
            elif k == 'call' and e.get('obj') is not None:
                s = e['fn'].rsplit('::', 1)[-1]
                if s in ('operator()', 'operator[]', 'operator->', 'operator*', 'pointer', 'host_pointer', 'device_pointer', 'get', 'data', 'at', 'back', 'front', 'begin', 'c_str', 'operator<<', 'operator>>', 'value'):
                    e = e['obj']
                else:
                    return None
            elif k == 'call' and e['fn'] in ('std::operator<<', 'std::operator>>', 'std::get', 'std::move', 'std::forward', 'std::ref') and e.get('a'):
                e = e['a'][0]
            elif k == 'bin' and e['op'] in ('+', '-', ',') and e.get('t', '').endswith('*'):
                e = e['a'] if e['op'] != ',' else e['b']
            elif k == 'asg':
                e = e['a']
            elif k == 'ctor' and len(e.get('a', ())) == 1:
                e = e['a'][0]
            else:
                return None
        return None

    def whole_object(self, e):
        """the expression names a whole scalar or object, not an element of it"""
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['a']
        return isinstance(e, dict) and e.get('k') in ('ref', 'mem') and not e.get('t', '').endswith(']')

    # ---- expressions ---------------------------------------------------------------------------
    def ev(self, e, ctl):
        if isinstance(e, list):
            r = set()
            for x in e:
                r |= self.ev(x, ctl)
            return frozenset(r)
        if not isinstance(e, dict):
            return U
        k = e.get('k')
        if k == 'ref':
            if e.get('n') == 'MPI_COMM_WORLD':
                return W
            return self.get((e['n'],) if e.get('vk') == 'global' else (e['id'],))
        if k in ('mem', 'idx'):
            r = self.ev(e['b'], ctl) if k == 'idx' else U
            if k == 'idx':
                r |= self.ev(e['a'], ctl)
                return r
            p = self.path(e)
            if p is not None:
                self.side(e['b'], ctl)
                return self.get(p)
            return self.ev(e['b'], ctl)
        if k == 'this':
            return U
        if k == 'asg':
            v = self.ev(e['b'], ctl)
            if e['op'] != '=':
                v |= self.ev(e['a'], ctl)
            self.store(e['a'], v | ctl, ctl, e, e['op'] == '=')
            self.point(e['a'], e['b'])
            return v
        if k == 'un' and e['op'] in ('++', '--'):
            v = self.ev(e['a'], ctl) | ctl
            self.store(e['a'], v, ctl, e, True)
            return v
        if k == 'call':
            return self.call(e, ctl)
        if k == 'ctor':
            return self.construct(e, None, ctl)
        if k == 'cond':
            c = self.ev(e['c'], ctl)
            return c | self.ev(e['a'], ctl | (c & L)) | self.ev(e['b'], ctl | (c & L))
        if k == 'bin' and e['op'] in ('&&', '||'):
            a = self.ev(e['a'], ctl)
            return a | self.ev(e['b'], ctl | (a & L))
        if k in ('lambda', 'sizeof', 'lit', 'str', 'fref', 'enum', 'null'):
            return U
        if k == 'new':
            r = set()
            for f in ('size', 'init', 'a'):
                if e.get(f):
                    r |= self.ev(e[f], ctl)
            return frozenset(r)
        r = set()
        for f, x in e.items():
            if isinstance(x, (dict, list)) and f not in ('l', 't', 'ta', 'pt', 'caps', 'end'):
                r |= self.ev(x, ctl)
        return frozenset(r)

    def side(self, e, ctl):
        if isinstance(e, dict) and e.get('k') not in ('ref', 'mem', 'this'):
            self.ev(e, ctl)

    def store(self, target, v, ctl, e, strong):
        p = self.path(target)
        ix = self.indices(target, ctl)
        if p is not None:
            self.put(p, v | (ix & L), strong and (self.whole_object(target) or self.covered(target)), self.P.where(e))

    def covered(self, e):
        """an element of an array whose indices all run over a range: in the end, all of them"""
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['a']
        if not isinstance(e, dict):
            return False
        ix = [e['b']] if e.get('k') == 'idx' else e.get('a', []) if e.get('k') == 'call' and e.get('obj') is not None and e['fn'].rsplit('::', 1)[-1] in ('operator()', 'operator[]', 'at') else []
        ids = {x['id'] for i in ix for x in walk(i) if x.get('k') == 'ref'}
        return bool(ix) and all(any(x.get('k') == 'ref' and x['id'] in self.loops for x in walk(i)) for i in ix) and ids <= self.loops | {y for y in ids if y not in self.mine}

    def indices(self, e, ctl):
        r = set()
        while isinstance(e, dict):
            k = e.get('k')
            if k == 'idx':
                r |= self.ev(e['b'], ctl)
                e = e['a']
            elif k in ('cast', 'un', 'asg'):
                e = e['a']
            elif k == 'mem':
                e = e['b']
            elif k == 'call' and e.get('obj') is not None:
                r |= self.ev(e.get('a', []), ctl)
                e = e['obj']
            else:
                break
        return frozenset(r)

    def point(self, target, value):
        if isinstance(target, dict) and target.get('k') == 'ref' and target.get('t', '').endswith('*'):
            q = self.path(value)
            if q is not None and q != (target['id'],):
                self.al[(target['id'],)] = self.norm(q)

    # ---- calls ---------------------------------------------------------------------------------
    def call(self, e, ctl):
        self.calls += 1
        fn = e['fn']
        s = fn.rsplit('::', 1)[-1]
        obj, args = e.get('obj'), e.get('a', [])
        if e.get('op') == '=' and obj is not None and len(args) == 1:
            v = self.ev(args[0], ctl)
            self.store(obj, v | ctl, ctl, e, 'Matrix' not in e.get('rec', '') and 'Array' not in e.get('rec', ''))
            self.ev_made(args[0], self.path(obj), ctl)
            return v
        if fn in COLLECTIVE or s in ('forward', 'backward') and 'heffte' in fn:
            self.collective(e, fn, ctl)
        if fn == 'MPI_Comm_rank':
            self.put(self.path(args[1]), L, True, self.P.where(e))
            return U
        if s == 'comm_rank':
            self.reason = self.reason or self.P.where(e)
            return L
        if s in ('comm_size',) or fn == 'MPI_Comm_size':
            v = self.ev(args, ctl)
            if len(args) > 1:
                self.put(self.path(args[1]), ctl & L, True, self.P.where(e))
            return U
        if fn in PRINT:
            self.printed(e, args, ctl)
        lam = [x for a in args for x in self.lambdas(a)]
        f = self.P.funcs.get(e.get('fid'))
        fs = [f] if f and f.get('body') else []
        if e.get('virt'):
            fs += [g for g in self.P.overriders.get(e.get('fid'), ()) if g.get('body')]
        if s in ('make_shared', 'make_unique') and fn.startswith('std::'):
            return self.ev(args, ctl)
        if fs:
            r = U
            for g in fs:
                r |= self.inline(g, e, obj, args, ctl)
            return r
        v = self.ev([a for a in args if not self.lambdas(a)], ctl)
        if obj is not None:
            o = self.ev(obj, ctl)
            if s not in ('update_host', 'update_device'):
                if not e.get('const') and s not in ('operator()', 'operator[]', 'pointer', 'host_pointer', 'device_pointer', 'operator->', 'operator*', 'begin', 'end', 'data', 'get', 'size'):
                    p = self.path(obj)
                    if p is not None and s not in ('operator<<', 'close', 'str', 'c_str'):
                        self.put(p, (v | ctl) & L, False, self.P.where(e))
                v |= o
        for x in lam:
            g = self.P.funcs.get(x['fid'])
            if g and g.get('body'):
                self.lambda_body(g, args, v, ctl)
        pt = e.get('pt') or []
        for i, a in enumerate(args):
            t = pt[i] if i < len(pt) else ''
            if fn in SAME:
                if i == SAME[fn]:
                    p = self.path(a)
                    if p is not None:
                        self.put(p, ctl & L, True, self.P.where(e))
                continue
            if t.endswith(('&', '*')) and not t.startswith('const ') and fn not in PRINT or i >= len(pt) and 'scanf' in fn:
                p = self.path(a)
                if p is not None:
                    n = (v | ctl) & L
                    if fn in LOCAL:
                        n = L
                    if lam:
                        continue
                    if s == 'operator<<' or s == 'operator>>' and i == 0:
                        continue
                    self.put(p, n, False, self.P.where(e))
        return v

    def lambdas(self, a):
        while isinstance(a, dict) and a.get('k') in ('cast', 'ctor'):
            if a['k'] == 'ctor':
                if len(a.get('a', ())) != 1:
                    return []
                a = a['a'][0]
            else:
                a = a['a']
        return [a] if isinstance(a, dict) and a.get('k') == 'lambda' else []

    def lambda_body(self, g, args, v, ctl):
        outs = [self.path(a) for a in args if not self.lambdas(a) and self.path(a) is not None]
        for p in g['p']:
            if p.get('ref') and not p['t'].startswith('const '):
                if outs:
                    self.al[(p['id'],)] = self.norm(outs[-1])
            else:
                self.put((p['id'],), v & L, True)
        if g['fid'] in self.stack:
            return
        self.stack.append(g['fid'])
        self.funcs.add(g['full'])
        try:
            # whether and how often it runs is the same everywhere only if the range is
            self.run(g['body'], ctl | (v & L))
        finally:
            self.stack.pop()

    def ev_made(self, e, target, ctl):
        """make_shared<T>(...) assigned to a member: T's constructor"""
        while isinstance(e, dict) and e.get('k') in ('cast', 'ctor') and (e['k'] == 'cast' or len(e.get('a', ())) == 1):
            e = e['a'] if e['k'] == 'cast' else e['a'][0]
        if isinstance(e, dict) and e.get('k') == 'call' and e['fn'].rsplit('::', 1)[-1].startswith(('make_shared', 'make_unique')) and target is not None:
            t = e['t']
            for g in self.P.funcs.values():
                if g.get('ctor') and len(g['p']) == len(e.get('a', ())) and g.get('rec') and '<' + g['rec'] + '>' in t and not g.get('copy'):
                    self.bind(g, e.get('a', ()), target, ctl)

    def construct(self, e, target, ctl):
        f = self.P.funcs.get(e.get('fid'))
        args = e.get('a', [])
        v = self.ev([a for a in args if not self.lambdas(a)], ctl)
        rec = e.get('rec', '')
        if f and (f.get('body') or f.get('init')) and f['fid'] not in self.stack:
            self.bind(f, args, target or ('tmp' + str(len(self.stack)),), ctl)
            return v
        if 'View' in rec.split('<')[0] and args and target is not None:
            q = self.path(args[0])
            if q is not None:
                self.al[target] = self.norm(q)
        return v

    def bind(self, f, args, this, ctl):
        """run a function on given arguments and object"""
        for p, a in zip(f['p'], args):
            key = (p['id'],)
            self.al.pop(key, None)
            q = self.path(a)
            v = self.ev(a, ctl)
            t = p['t']
            if q is not None and q != key and (p.get('ref') or t.endswith(('*', '&')) or 'View' in t.split('<')[0]):
                self.al[key] = self.norm(q)
            else:
                self.put(key, v, True)
        self.this.append(this)
        self.stack.append(f['fid'])
        here = self.mine
        self.mine = {p['id'] for p in f['p']}
        self.funcs.add(f['full'])
        try:
            for i in f.get('init') or ():
                if i.get('b'):
                    self.construct(i['e'], this, ctl) if isinstance(i['e'], dict) and i['e'].get('k') == 'ctor' else self.ev(i['e'], ctl)
                elif i.get('f') and isinstance(i.get('e'), dict):
                    if i['e'].get('k') == 'ctor':
                        v = self.construct(i['e'], self.this[-1] + (i['f'],), ctl)
                    else:
                        v = self.ev(i['e'], ctl)
                    self.put(this + (i['f'],), v | ctl, i['e'].get('k') != 'ctor', self.P.where(i['e']))
            r = self.run(f.get('body'), ctl)
        finally:
            self.this.pop()
            self.stack.pop()
            gone, self.mine = self.mine, here
            if f['fid'] not in self.stack:
                for q in [q for q in self.lab if q[0] in gone]:
                    del self.lab[q]
                for q in [q for q in self.al if q[0] in gone]:
                    del self.al[q]
        return r.get('value', U)

    def inline(self, f, e, obj, args, ctl):
        if f['fid'] in self.stack or len(self.stack) > 40:
            return self.ev(args, ctl)
        this = self.path(obj) if obj is not None else (self.this[-1] if self.this and f.get('rec') else ('none',))
        if obj is not None:
            self.side(obj, ctl)
        return self.bind(f, args, self.norm(this) if this else ('obj' + str(len(self.stack)),), ctl)

    def chain(self):
        return ' < '.join(self.P.funcs[f]['short'] for f in reversed(self.stack[-4:]))

    def collective(self, e, fn, ctl):
        w = self.P.where(e)
        key = (w, fn)
        if 'L' in ctl:
            self.sites[key] = 'only some ranks reach %s (%s): that they do depends on what differs between ranks%s' % (fn, self.chain(), '' if not self.ctlwhy else ', at ' + self.ctlwhy[-1])
        else:
            self.sites.setdefault(key, None)
        if fn.startswith('MPI_') and not fn.startswith('MPI_File_') or fn == 'MPI_File_open':
            pt = e.get('pt') or []
            ix = [i for i, t in enumerate(pt) if 'mpi_comm_t' in t and not t.endswith('**')]
            for i in ix[:1]:
                c = self.ev(e['a'][i], ctl)
                if 'W' in c:
                    self.world[key] = '%s waits for every process instead of those of the given communicator (%s)' % (fn, self.chain())
                else:
                    self.world.setdefault(key, None)

    ctlwhy = ()

    def printed(self, e, args, ctl):
        p = self.path(args[0])
        if p is None or len(args) < 3:
            return
        n = '.'.join(x for x in self.norm(p)[1:])
        if not self.P.where(e) or n == '' or 'err' == n:
            return
        key = (self.P.where(e), n)
        for i, a in enumerate(args[2:]):
            self.reason = None
            v = self.ev(a, ctl)
            if 'L' in v:
                self.said[key] = 'value %d of a line of %s is the one of rank 0 alone: it differs between ranks%s' % (i + 1, n, ' since ' + self.reason if self.reason else '')
                return
        self.said.setdefault(key, None)

    # ---- statements ----------------------------------------------------------------------------
    def run(self, s, ctl):
        """control that left: {'ret'|'brk'|'cont': labels it depends on, 'value': labels of the result}"""
        out = {}
        if s is None:
            return out
        if isinstance(s, list):
            for x in s:
                c = ctl
                for k in ('ret', 'brk', 'cont'):
                    c |= out.get(k, U) & L
                self.merge(out, self.run(x, c))
            return out
        k = s.get('k')
        if k == 'block':
            return self.run(s['s'], ctl)
        if k == 'decl':
            for v in s['v']:
                key = (v['id'],)
                self.mine.add(v['id'])
                self.al.pop(key, None)
                i = v.get('i')
                t = v['t']
                if i is None:
                    self.put(key, U, True)
                    continue
                self.put(key, U, True)
                if isinstance(i, dict) and i.get('k') == 'ctor':
                    l = self.construct(i, key, ctl)
                    if not self.P.funcs.get(i.get('fid')) and key not in self.al:
                        self.put(key, l | (ctl & L), False, self.P.where(s))
                    continue
                l = self.ev(i, ctl)
                q = self.path(i)
                if q is not None and (t.endswith(('*', '&')) or v.get('ref')):
                    self.al[key] = self.norm(q)
                else:
                    self.put(key, l, True, self.P.where(s))
                    self.ev_made(i, key, ctl)
            return out
        if k == 'expr':
            self.ev(s['e'], ctl)
            return out
        if k == 'if':
            self.reason = None
            if s.get('cx'):
                pass
            c = self.ev(s['c'], ctl)
            cc = ctl | (c & L)
            mark = self.enter(c, s)
            base, al = dict(self.lab), dict(self.al)
            a = self.run(s.get('a'), cc)
            la, ala = self.lab, self.al
            self.lab, self.al = base, al
            b = self.run(s.get('b'), cc) if s.get('b') else {}
            self.join(la, ala)
            self.leave(mark)
            for x in (a, b):
                self.merge(out, x, c & L)
            return out
        if k in ('for', 'while', 'do', 'rfor'):
            if k == 'for' and s.get('init'):
                self.run(s['init'], ctl)
            rng = U
            if k == 'rfor':
                for f in ('r', 'range', 'e'):
                    if isinstance(s.get(f), dict):
                        rng |= self.ev(s[f], ctl)
            c = rng
            left = {}
            run = counters(s) - self.loops if k == 'for' and 'L' not in ctl else set()
            for n in range(4):
                before = (dict(self.lab), dict(left))
                self.reason = None
                if s.get('c') is not None:
                    c |= self.ev(s['c'], ctl | (c & L))
                cc = ctl | (c & L)
                for q in ('brk', 'ret', 'cont'):
                    cc |= left.get(q, U) & L
                mark = self.enter(c, s)
                base, al = dict(self.lab), dict(self.al)
                if 'L' not in c and k == 'for':
                    self.loops |= run
                if k == 'rfor':
                    for v in [s.get('v')] if isinstance(s.get('v'), dict) else s.get('v') or []:
                        if isinstance(v, dict) and 'id' in v:
                            self.put((v['id'],), rng, True)
                self.merge(left, self.run(s.get('s'), cc))
                if s.get('inc') is not None:
                    self.ev(s['inc'], cc)
                if n or not run or 'L' in c:    # a counted loop with the same bounds everywhere runs at least once
                    self.join(base, al)
                self.loops -= run
                self.leave(mark)
                if (dict(self.lab), dict(left)) == before:
                    break
            if 'ret' in left:
                out['ret'] = left['ret'] | (c & L)
            if 'value' in left:
                out['value'] = left['value']
            return out
        if k == 'ret':
            v = self.ev(s['e'], ctl) if s.get('e') is not None else U
            return {'ret': ctl & L, 'value': v | (ctl & L)}
        if k in ('break', 'cont'):
            return {'brk' if k == 'break' else 'cont': ctl & L}
        if k == 'switch':
            c = self.ev(s['c'], ctl)
            mark = self.enter(c, s)
            base, al = dict(self.lab), dict(self.al)
            r = self.run(s['s'], ctl | (c & L))
            self.join(base, al)
            self.leave(mark)
            r.pop('brk', None)
            self.merge(out, r, c & L)
            return out
        if k in ('case', 'default', 'label'):
            return self.run(s.get('s'), ctl)
        if k == 'try':
            for f in ('s', 'b', 'body'):
                if isinstance(s.get(f), (dict, list)):
                    self.merge(out, self.run(s[f], ctl))
            return out
        if k in ('null', 'goto'):
            return out
        for f, x in s.items():
            if isinstance(x, (dict, list)) and f != 'l':
                self.ev(x, ctl)
        return out

    def enter(self, c, s):
        old = self.ctlwhy
        if 'L' in c:
            self.ctlwhy = old + (self.P.where(s['c'] if isinstance(s.get('c'), dict) and s['c'].get('l') else s) + (' (since %s)' % self.reason if self.reason else ''),)
        return old

    def leave(self, old):
        self.ctlwhy = old

    def merge(self, out, r, extra=U):
        for k, v in r.items():
            out[k] = out.get(k, U) | v | (extra if k != 'value' or 1 else U)
        return out

    def join(self, lab, al):
        if lab != self.lab:
            new = {}
            for q in set(lab) | set(self.lab):
                x, y = self.lab.get(q), lab.get(q)
                if x is None:
                    x = self.look(self.lab, q)[1]
                if y is None:
                    y = self.look(lab, q)[1]
                x = x | y
                if x or len(q) > 1:
                    new[q] = x
            self.lab = new
        if al is not self.al and al != self.al:
            for q, t in al.items():
                self.al.setdefault(q, t)


def analyse(P):
    D = Div(P)
    D.this.append(('evpfft',))
    ctors = [f for f in P.funcs.values() if f['full'] == 'EVPFFT::EVPFFT' and f.get('ctor') and f.get('body')]
    todo = [f for n in ('EVPFFT::solve', 'EVPFFT::evolve') for f in P.funcs.values() if f['full'] == n and f.get('body')]
    if not ctors or not todo:
        raise Undecided('no solver in %s' % P.app)
    for f in ctors:
        D.bind(f, (), ('evpfft',), U)
    for n in range(2):
        for f in todo:
            D.bind(f, (), ('evpfft',), U)
    return D


_done = {}


def each(res):
    """the programs, each with its divergence analysis"""
    for P in whole(res):
        if P.app not in _done:
            _done[P.app] = analyse(P)
        D = _done[P.app]
        res.analysed['functions'] |= {P.app + ': ' + f for f in D.funcs}
        res.analysed['call_sites'] += D.calls
        yield P, D


def settle(res, table, rule):
    for (w, n), bad in sorted(table.items()):
        if bad:
            res.fail(rule, w, bad)
        else:
            res.ok(rule)
            res.sample('%s: %s' % (w, n))


def e23(res, tier):
    res.rule('divergence analysis: no collective call depends, through the conditions and loop bounds around it on any call path, on a value that may differ between ranks')
    res.rule('the communicator of every collective call stems from the one the solver was given')
    for P, D in each(res):
        if not D.sites:
            res.undecided('sites', 'no collective call is reached in ' + P.app)
        settle(res, D.sites, 'together')
        settle(res, D.world, 'communicator')


def e24(res, tier):
    res.rule('divergence analysis: every value printed to a history file is the same on every rank: it stems from input, constants and results of collective operations only')
    for P, D in each(res):
        if not D.said:
            res.undecided('lines', 'no line of a history file in ' + P.app)
        settle(res, D.said, 'value')


CHECKS = {'E23': e23, 'E24': e24}
