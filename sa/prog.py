"""Loading of extractor facts (one JSON per translation unit)."""
import json, os


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.errors = d['errors']
        self.files = d['files']
        self.funcs = d['funcs']
        self.records = d['records']
        self.enums = d['enums']
        self.globals = d['globals']
        for fid, f in self.funcs.items():
            f['fid'] = fid
        self.byname = {}
        for f in self.funcs.values():
            self.byname.setdefault(f['n'], []).append(f)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get('over', ()):
                self.overriders.setdefault(o, []).append(f)

    # -- lookup ---------------------------------------------------------
    def named(self, name, full=None):
        r = self.byname.get(name, [])
        if full is not None:
            r = [f for f in r if f['full'] == full]
        return r

    def full(self, full):
        return [f for f in self.funcs.values() if f['full'] == full]

    def where(self, node):
        """file:line of a node (spelling location), relative to /repo."""
        l = node.get('l') if isinstance(node, dict) else node
        if not l:
            return '?'
        return '%s:%d' % (self.files[l[0]].replace('/repo/', ''), l[1])

    def file_of(self, node):
        l = node.get('l') if isinstance(node, dict) else node
        return self.files[l[0]] if l else ''

    # -- class hierarchy ---------------------------------------------------
    def bases(self, rec, seen=None):
        out = []
        r = self.records.get(rec)
        if not r:
            return out
        for b in r.get('bases', ()):
            out.append(b)
            out += self.bases(b)
        return out

    def isa(self, t, base):
        return t == base or base in self.bases(t)

    # -- constant tables -------------------------------------------------
    CONSTM = {'at', 'find', 'count', 'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'operator[]',
              'contains', 'equal_range', 'lower_bound', 'upper_bound', 'data', 'c_str', 'length', 'front', 'back'}

    def _uses(self):
        if hasattr(self, '_mod'):
            return
        self._mod = set()
        for f in self.funcs.values():
            mutref = f['ret'].endswith('&') and not f['ret'].startswith('const ')
            for x in walk(f.get('body')):
                k = x.get('k')
                tgt = None
                if k == 'ret' and mutref and isinstance(x.get('e'), dict):
                    tgt = x['e']
                if k == 'asg':
                    tgt = x['a']
                elif k == 'un' and x['op'] in ('++', '--', '&'):
                    tgt = x['a']
                elif k == 'call':
                    o = x.get('obj')
                    if o is not None and not x.get('const') and x['fn'].rsplit('::', 1)[-1] not in self.CONSTM:
                        tgt = o
                    for i, a in enumerate(x.get('a', ())):
                        pt = (x.get('pt') or [])
                        t = pt[i] if i < len(pt) else ''
                        if t.endswith('&') and not t.startswith('const '):
                            if a.get('k') == 'ref' and not self._param_const(x.get('fid'), i):
                                self._mod.add(a['id'])
                while isinstance(tgt, dict):
                    if tgt.get('k') == 'ref':
                        self._mod.add(tgt['id'])
                        break
                    if tgt.get('k') == 'call' and tgt.get('op') == '[]':
                        tgt = tgt.get('obj')
                    elif tgt.get('k') == 'call' and tgt.get('fn', '').endswith('::at'):
                        tgt = tgt.get('obj')
                    elif tgt.get('k') == 'mem':
                        tgt = tgt.get('b')
                    elif tgt.get('k') == 'idx':
                        tgt = tgt.get('a')
                    else:
                        break

    def _param_const(self, fid, i, depth=0):
        """The callee never modifies its i-th (reference) parameter."""
        f = self.funcs.get(fid)
        if not f or depth > 3 or i >= len(f['p']):
            return False
        pid = f['p'][i]['id']
        for x in walk(f.get('body')):
            k = x.get('k')
            if k == 'asg' or (k == 'un' and x['op'] in ('++', '--', '&')):
                t = x['a']
                while isinstance(t, dict) and t.get('k') in ('mem', 'idx'):
                    t = t.get('b') if t['k'] == 'mem' else t.get('a')
                if isinstance(t, dict) and t.get('k') == 'call' and t.get('op') == '[]':
                    t = t.get('obj')
                if isinstance(t, dict) and t.get('id') == pid:
                    return False
            elif k == 'call':
                o = x.get('obj')
                if o is not None and o.get('id') == pid and not x.get('const') and x['fn'].rsplit('::', 1)[-1] not in self.CONSTM:
                    return False
                for j, a in enumerate(x.get('a', ())):
                    pt = (x.get('pt') or [])
                    t = pt[j] if j < len(pt) else ''
                    if a and a.get('id') == pid and t.endswith('&') and not t.startswith('const '):
                        if not self._param_const(x.get('fid'), j, depth + 1):
                            return False
        return True

    def global_unmodified(self, gid):
        self._uses()
        return gid not in self._mod

    local_static_unmodified = global_unmodified


def walk(n):
    """Every dict node below n, pre-order."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed([v for v in x if isinstance(v, (dict, list))]))


def calls_in(n):
    for x in walk(n):
        if x.get('k') in ('call', 'ctor'):
            yield x
