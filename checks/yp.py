"""Family P: the YAML document library (Yaml.cpp), both copies in the repository."""
import os
from sa import facts
from sa.prog import walk
from sa.interp import (Interp, Policy, Undecided, C, TRUE, FALSE, NULL, isc, under, tree, strip_targs, root, mentions)

L1 = facts.REPO + '/legacy/Fierro_V0/src/Yaml-Serializable'
L2 = facts.REPO + '/apps/multiphysics/src/input'
COPIES = [(L1 + '/src/Yaml.cpp', ['-std=c++17', '-I' + L1 + '/include']),
          (L2 + '/Yaml.cpp', ['-std=c++17', '-I' + L2])]
ANYX = ('Yaml::ParsingException', 'std::bad_alloc', 'int')
ROOT = ('o', 'P0')


def units(res):
    out = []
    for src, fl in COPIES:
        if not os.path.exists(src):
            continue
        P = facts.facts(src, fl, [facts.REPO])
        res.unit(P)
        out.append(P)
    if not out:
        raise Undecided('Yaml.cpp not found')
    return out


class Pol(Policy):
    max_states = 6000
    max_rec = 2
    mark_loops = True

    def __init__(self, opaque=(), throws=None, inl=None, assume=()):
        self.opaque, self.throws, self.inl = tuple(opaque), throws, inl
        self.assume = dict(assume)

    def inline(self, I, fn):
        return self.inl(fn) if self.inl else True

    def may_throw(self, I, name, e):
        return self.throws(I, name, e) if self.throws else ()

    def choose(self, I, st, c):
        return self.assume.get(c)


LOOPS = ('for', 'while', 'do', 'rfor')


def closure(P):
    """fid -> (has a loop in its own body, throws itself or through a callee)"""
    if hasattr(P, '_clo'):
        return P._clo
    own, calls, thr = {}, {}, {}
    for fid, f in P.funcs.items():
        if not f.get('body') and not f.get('init'):
            continue
        own[fid] = thr[fid] = False
        calls[fid] = set()
        for x in walk([f.get('body'), f.get('init')]):
            k = x.get('k')
            if k in LOOPS:
                own[fid] = True
            elif k == 'throw':
                thr[fid] = True
            elif k in ('call', 'ctor') and x.get('fid'):
                calls[fid].add(x['fid'])
    ch = True
    while ch:
        ch = False
        for f in own:
            if not thr[f] and any(thr.get(g) for g in calls[f]):
                thr[f] = ch = True
    P._clo = {f: (own[f], thr[f]) for f in own}
    return P._clo


def show(t, d=0):
    s = str(t)
    return s if len(s) < 160 else s[:157] + '...'


def fns(P, name):
    fs = [f for f in P.named(name) if f.get('body')]
    if not fs:
        raise Undecided('%s not found' % name)
    return fs


# ---- P01..P03 parsing entry points ------------------------------------------------------------
def is_work(P, fid):
    """a parsing step: loops over the text and can fail"""
    o, t = closure(P).get(fid, (False, False))
    return o and t


_pruns = {}


def parse_runs(res, P):
    if id(P) in _pruns:
        r = _pruns[id(P)]
    else:
        r = []
        for f in fns(P, 'Yaml::Parse'):
            def inl(fn):
                return not (is_work(P, fn['fid']) or fn['n'] in ('Yaml::Node::Clear', 'Yaml::Node::operator='))

            def thr(I, name, e):
                return ANYX if is_work(P, e.get('fid')) else ()
            I = Interp(P, Pol(inl=inl, throws=thr))
            r.append((f, I.run(f), I))
        _pruns[id(P)] = r
    for f, outs, I in r:
        res.stats(I)
    return [(f, [o for o in outs if o[1] != 'exit']) for f, outs, I in r]


def root_events(st):
    """(index, 'clear'|'touch', where) for every event that can change the document given by the caller"""
    out = []
    for i, e in enumerate(st.tr):
        if e[0] in ('call', 'call!'):
            if e[3] is not None and e[3][0] is not None and under(ROOT, e[3][0]):
                out.append((i, 'clear' if e[1] in ('Yaml::Node::Clear', 'Yaml::Node::operator=') else 'touch', e[5]))
            elif any(a[0] is not None and under(ROOT, a[0]) for a in e[4]):
                out.append((i, 'touch', e[5]))
        elif e[0] == 'write' and under(ROOT, e[1]):
            out.append((i, 'touch', e[3]))
    return out


def work_events(P, st):
    names = {f['n'] for fid, f in P.funcs.items() if is_work(P, fid)}
    return [(i, e) for i, e in enumerate(st.tr) if e[0] in ('call', 'call!') and e[1] in names]


def p01(res, tier):
    res.rule('every path of every Parse overload on which a parsing step fails (with any exception type): the last change of the document is a clear')
    res.rule('an exception raised by a parsing step leaves Parse as the same exception object and type')
    res.rule('after the last parsing step every path, failing or not, runs the loop that deletes the lines the reader owns; a reader created with new is deleted')
    for P in units(res):
        rec = next((r for n, r in P.records.items() if n == 'Yaml::ParseImp'), None)
        raw = rec and any('*' in f['t'] and '<' in f['t'] for f in rec['fields'])
        runs = parse_runs(res, P)
        deleting = set()
        for f, outs in runs:
            for st, k, v in outs:
                cur = None
                for e in st.tr:
                    if e[0] == 'loop+':
                        cur = e[1]
                    elif e[0] == 'loop-':
                        cur = None
                    elif e[0] == 'delete' and cur is not None:
                        deleting.add(cur)
        for f, outs in runs:
            n = 0
            for st, k, v in outs:
                w = work_events(P, st)
                if not w:
                    continue
                n += 1
                wh = w[-1][1][5]
                boom = next((e for i, e in w if e[0] == 'call!'), None)
                ev = root_events(st)
                if k == 'x':
                    res.check(bool(ev) and ev[-1][1] == 'clear', 'cleared', ev[-1][2] if ev else wh,
                              'when parsing fails (%s) the document keeps what was parsed so far' % v[0])
                if boom is not None:
                    same = k == 'x' and v[0] == boom[6] and v[1][0] == 'thrown' and v[1][1] == boom[1]
                    res.check(same, 'propagated', boom[5], 'a %s raised while parsing %s' % (boom[6], 'does not reach the caller' if k != 'x' else 'reaches the caller as %s' % v[0]))
                if raw:
                    if not deleting:
                        res.undecided('freed', 'no loop that deletes the lines was recognised')
                    else:
                        ok = any(e[0] in ('loop0', 'loop+', 'loop=') and e[1] in deleting for e in st.tr[w[-1][0]:])
                        res.check(ok, 'freed', wh, 'the lines of the reader are not deleted when parsing %s' % ('fails with %s' % v[0] if k == 'x' else 'succeeds'))
                for e in st.tr:
                    if e[0] == 'new' and 'ParseImp' in str(e[2] if len(e) > 2 else e):
                        res.check(any(d[0] == 'delete' and mentions(d, e[1]) for d in st.tr), 'reader-deleted', wh, 'the reader is not deleted')
            if n == 0:
                res.undecided('entry', '%s reaches no parsing step' % P.where(f))
            res.sample('%s: %d paths' % (P.where(f), n))
        lines_owned(res, P)


def p02(res, tier):
    res.rule('on every path of every Parse overload that reaches a parsing step, the first event that can change the document is a clear')
    for P in units(res):
        for f, outs in parse_runs(res, P):
            for st, k, v in outs:
                if not work_events(P, st):
                    continue
                ev = root_events(st)
                res.check(bool(ev) and ev[0][1] == 'clear', 'replaced', ev[0][2] if ev else P.where(f), 'the document is not emptied before the text is parsed into it')
                if k == 'n':
                    last = ev[-1] if ev else None
                    t = [x for x in ev if x[1] == 'touch']
                    if last and t:
                        res.check(last[1] == 'touch', 'kept', last[2], 'the parsed content is cleared again before a successful return')
            n = [p['t'] for p in f['p']]
            for st, k, v in outs:
                for i, e in work_events(P, st):
                    for L, V in e[4]:
                        if V[0] == 'ss':
                            src = V[1]
                        elif L == ('o', 'P1'):
                            src = ('init', L) if V == ('init', L) else V
                        else:
                            continue
                        where = e[5]
                        if 'iostream' in n[1]:
                            res.check(L == ('o', 'P1') and src == ('init', L), 'source', where, 'the stream parsed is not the one given, or was read before')
                        elif len(n) == 3:
                            if src[0] == 'call' and src[1] == 'string':
                                res.check(src[2][:2] == (('parm', 1), ('parm', 2)), 'source', where, 'the text parsed is not the given buffer with the given size: %s' % show(src))
                            else:
                                res.undecided('source', 'text %s' % show(src))
                        elif 'string' in n[1]:
                            res.check(src == ('init', ('o', 'P1')), 'source', where, 'the text parsed is not the given text: %s' % show(src))
                        break
                    break


def opened(st):
    for c, v in st.facts.items():
        if c[0] == 'op' and c[1] == '==' and c[3] == C(0) and c[2][0] == 'call' and c[2][1] == 'is_open':
            return not v
        if c[0] == 'call' and c[1] == 'is_open':
            return v
    return None


def file_ctor(st, kind):
    return [e for e in st.tr if e[0] == 'ctor' and kind in e[1] and e[4]] + \
           [e for e in st.tr if e[0] == 'call' and kind in e[1] and e[1].endswith('::open')]


def p03(res, tier):
    res.rule('Parse(file) and Serialize(file) open exactly the named file, raise an OperationException when it is not open, before the document or the file is touched, and never otherwise because of the file')
    res.rule('Parse(file) parses exactly the bytes read: allocation, read and parse use the same size; Serialize(file) writes exactly the text of Serialize(stream)')
    for P in units(res):
        found = 0
        for f, outs in parse_runs(res, P):
            if len(f['p']) != 2 or 'char *' not in f['p'][1]['t']:
                continue
            found += 1
            for st, k, v in outs:
                cs = file_ctor(st, 'fstream')
                o = opened(st)
                if not cs or o is None:
                    if k == 'n':
                        res.fail('checked', P.where(f), 'a document is accepted without testing that the file is open')
                    continue
                a = cs[0][4][0][1]
                res.check(a == ('parm', 1), 'name', P.where(f), 'the file opened is %s, not the one named' % show(a))
                if not o:
                    res.check(k == 'x' and v[0] == 'Yaml::OperationException', 'not-open', P.where(f),
                              'a file that cannot be opened %s' % ('is accepted' if k == 'n' else 'raises ' + v[0]))
                    res.check(not root_events(st) or k != 'x' or root_events(st)[-1][1] == 'clear', 'untouched', P.where(f), 'the document is changed although the file cannot be opened')
                    continue
                w = work_events(P, st)
                rd = [e for e in st.tr if e[0] == 'call' and e[1] == 'std::basic_istream::read']
                src = [V[1] for i, e in w[:1] for L, V in e[4] if V[0] == 'ss']
                if not w and k == 'x':
                    res.check(v[0] != 'Yaml::OperationException', 'open-accepted', P.where(f), 'a file that was opened is reported as not openable')
                if not rd or not src or src[0][0] != 'call' or src[0][1] != 'string' or len(src[0][2]) < 2:
                    res.undecided('bytes', 'reading of the file not recognised')
                    continue
                ptr, n = rd[0][4][0][1], rd[0][4][1][1]
                ln = src[0][2][1]
                res.check(src[0][2][0] == ptr, 'buffer', rd[0][5], 'the text parsed is not the buffer the file was read into')
                res.check(ln == n or (ln[0] == 'call' and 'gcount' in ln[1]), 'size', rd[0][5], 'the size parsed (%s) is not the size read (%s)' % (show(ln), show(n)))
                sk = [e for e in st.tr if e[0] == 'call' and e[1] in ('std::basic_istream::seekg', 'std::basic_istream::tellg', 'std::basic_istream::read')]
                seq = ['%s%s' % (e[1].rsplit('::', 1)[1], tuple(a[1][1] for a in e[4]) if 'seekg' in e[1] and all(isc(a[1]) for a in e[4]) else '') for e in sk]
                if seq and 'seekg' in seq[0] and 'tellg' in seq:
                    t = seq.index('tellg')
                    res.check('seekg(0, 2)' in seq[:t] and 'seekg(0, 0)' in seq[t:seq.index('read')], 'position', sk[0][5], 'the size is not taken at the end, or the reading does not start at the beginning: %s' % seq)
        for f in fns(P, 'Yaml::Serialize'):
            if 'char *' not in f['p'][1]['t']:
                continue
            found += 1
            for st, k, v in ser_run(res, P, f):
                cs = file_ctor(st, 'fstream')
                o = opened(st)
                if not cs:
                    res.check(k == 'x', 'opened', P.where(f), 'a successful call opens no file')
                    continue
                a = cs[0][4][0][1]
                res.check(a == ('parm', 1), 'name', P.where(f), 'the file opened is %s, not the one named' % show(a))
                ws = [e for e in st.tr if e[0] in ('call', 'out') and ('ostream::write' in e[1] if e[0] == 'call' else True)]
                ws = [e for e in ws if e[0] == 'call']
                if o is False:
                    res.check(k == 'x' and v[0] == 'Yaml::OperationException' and not ws, 'not-open', P.where(f),
                              'a file that cannot be opened %s' % ('is accepted' if k == 'n' else 'raises ' + v[0]))
                elif o is None:
                    if k == 'n':
                        res.fail('checked', P.where(f), 'the file is written without testing that it is open')
                elif k == 'n':
                    if not ws:
                        res.undecided('written', 'writing of the file not recognised')
                        continue
                    t = ws[0][4][0][1]
                    n = ws[0][4][1][1]
                    sl = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::SerializeLoop']
                    res.check(len(ws) == 1 and t[0] in ('sstr', 'cstr'), 'text', ws[0][5], 'the file receives %s' % show(t))
                    res.check(n == ('len', t) or n == ('len', ('sstr', t)) or mentions(n, t), 'length', ws[0][5], 'the length written is %s' % show(n))
                    res.check(len(sl) == 1 and st.tr.index(sl[0]) < st.tr.index(ws[0]), 'order', ws[0][5], 'the text is written before the document was serialised')
                elif k == 'x':
                    res.check(v[0] != 'Yaml::OperationException' or v[1][0] == 'thrown', 'open-accepted', P.where(f), 'a file that was opened is reported as not openable')
        if found < 2:
            res.undecided('entries', 'the file variants of Parse and Serialize were not found')


_sruns = {}


def ser_run(res, P, f):
    key = (id(P), f['fid'])
    if key not in _sruns:
        I = Interp(P, Pol(inl=lambda fn: not is_ser_loop(P, fn), throws=lambda I, n, e: ('int',) if n == 'Yaml::SerializeLoop' else ()))
        _sruns[key] = (I.run(f), I)
    outs, I = _sruns[key]
    res.stats(I)
    return [o for o in outs if o[1] != 'exit']


def is_ser_loop(P, fn):
    """the recursive writer: it has a loop and is reached from itself"""
    return fn['n'] == 'Yaml::SerializeLoop'


def p04(res, tier):
    res.rule('every Serialize overload: an indentation below 2 raises an OperationException before any output and before a file is opened; 2 or more never does')
    res.rule('every overload hands the given document and the given configuration to the writer, once, starting at level 0')
    for P in units(res):
        for f in fns(P, 'Yaml::Serialize'):
            ind = ('init', ('f', ('o', 'P2'), 'SpaceIndentation'))
            for st, k, v in ser_run(res, P, f):
                lo = hi = None
                lo, hi = bounds(st, ind)
                sl = [e for e in st.tr if e[0] in ('call', 'call!') and e[1] == 'Yaml::SerializeLoop']
                small = hi is not None and hi < 2
                if small:
                    outp = sl or file_ctor(st, 'ofstream') or [e for e in st.tr if e[0] == 'write' and under(('o', 'P1'), e[1])]
                    res.check(k == 'x' and v[0] == 'Yaml::OperationException' and not outp, 'rejected', P.where(f),
                              'an indentation below 2 %s' % ('is accepted' if k == 'n' else 'is reported only after output was produced' if outp else 'raises ' + v[0]))
                    continue
                if lo is None or lo < 2:
                    if sl:
                        res.fail('tested', sl[0][5], 'the document is written although the indentation may be below 2 (known bounds %s..%s)' % (lo, hi))
                        continue
                    if k == 'x' and v[0] == 'Yaml::OperationException' and opened(st) is None:
                        res.fail('exact', P.where(f), 'an indentation of 2 or more may be rejected (known bounds %s..%s)' % (lo, hi))
                    continue
                if k == 'x' and not sl:
                    res.check(opened(st) is False, 'accepted', P.where(f), 'an indentation of 2 or more is rejected with %s' % v[0])
                    continue
                res.check(len(sl) == 1, 'once', P.where(f), 'the document is written %d times' % len(sl))
                for e in sl[:1]:
                    av = e[4]
                    res.check(av[0][0] == ('o', 'P0'), 'document', e[5], 'the document written is not the one given')
                    res.check(av[-1][0] == ('o', 'P2') and av[-1][1] == ('init', ('o', 'P2')), 'config', e[5], 'the configuration used is not the one given')
                    lv = [a[1] for a in av if isc(a[1]) and not isinstance(a[1][1], bool)]
                    res.check(lv == [C(0)], 'level', e[5], 'the writer starts at level %s' % lv)
                    fl = f['p'][1]['t']
                    if 'iostream' in fl:
                        res.check(any(a[0] == ('o', 'P1') for a in av), 'target', e[5], 'the text does not go to the given stream')
                    elif 'string' in fl and k == 'n':
                        ws = [w for w in st.tr if w[0] == 'write' and w[1] == ('o', 'P1')]
                        res.check(bool(ws) and ws[-1][2][0] == 'sstr', 'target', e[5], 'the text does not end up in the given string')


def bounds(st, t):
    """integer bounds of a term from the facts of the path"""
    lo = hi = None
    for c, v in st.facts.items():
        if c[0] != 'op':
            if c[0] == 'eq' and c[1] == t and isc(v) and isinstance(v[1], int):
                lo = hi = v[1]
            continue
        _, op, a, b = c
        if a == t and isc(b) and isinstance(b[1], int):
            n = b[1]
            if op == '<' and v:
                hi = n - 1 if hi is None else min(hi, n - 1)
            elif op == '<':
                lo = n if lo is None else max(lo, n)
            elif op == '==' and v:
                lo = hi = n
        elif b == t and isc(a) and isinstance(a[1], int):
            n = a[1]
            if op == '<' and v:
                lo = n + 1 if lo is None else max(lo, n + 1)
            elif op == '<':
                hi = n if hi is None else min(hi, n)
    return lo, hi


# ---- P05 copies ---------------------------------------------------------------------------------
from sa import yamlnode                      # noqa: E402


class NodePol(Pol):
    """documents as seen from outside: the node model instead of the implementation"""

    def model(self, I, name):
        return yamlnode.model(I, name)


def recursive(P, f):
    seen, todo = set(), [f['fid']]
    while todo:
        for x in walk(P.funcs.get(todo.pop(), {}).get('body')):
            g = x.get('fid') if x.get('k') in ('call', 'ctor') else None
            if g == f['fid']:
                return True
            if g and g not in seen and g in P.funcs and P.funcs[g]['n'].startswith('Yaml::') and 'Node::' not in P.funcs[g]['n']:
                seen.add(g)
                todo.append(g)
    return False


def copiers(P):
    """free functions (const Node &, Node &) that call themselves"""
    return [f for f in P.funcs.values() if f.get('body') and not f.get('rec') and len(f['p']) == 2 and
            f['p'][0]['t'] == 'const Yaml::Node &' and f['p'][1]['t'] == 'Yaml::Node &' and recursive(P, f)]


def kindfact(st, L):
    k = ('kind', ('init', L))
    t, n = None, set()
    for c, v in st.facts.items():
        if c[0] == 'op' and c[1] == '==' and c[2] == k and isc(c[3]):
            if v:
                t = c[3][1]
            else:
                n.add(c[3][1])
    return t, n


def inductions(st):
    out = {}
    for e in st.tr:
        if e[0] == 'loop+':
            for t, s, d in e[3]:
                out[t] = (s, d)
    return out


def p05(res, tier):
    res.rule('copying: a list copies every entry, in order, into a new entry of its own; a map copies every entry under its own key; a scalar copies its text; an empty node copies nothing; the source is never changed')
    res.rule('Node = Node: the copy is made from the unchanged right-hand side into a fresh node before anything the left-hand side owns is destroyed, and that copy is what the left-hand side owns afterwards')
    for P in units(res):
        cs = copiers(P)
        if not cs:
            res.undecided('copier', 'no recursive copy function found')
        for f in cs:
            I = Interp(P, NodePol(inl=lambda fn: fn['fid'] != f['fid']))
            outs = I.run(f)
            res.stats(I)
            src, dst = ('o', 'P0'), ('o', 'P1')
            kinds = set()
            for st, k, v in outs:
                t, no = kindfact(st, src)
                calls = [e for e in st.tr if e[0] == 'call' and e[1] == f['n']]
                ws = [e for e in st.tr if e[0] in ('write', 'pushback', 'child') and under(dst, e[1])]
                for e in st.tr:
                    if (e[0] == 'write' and under(src, e[1])) or (e[0] == 'child' and under(src, e[1])) or (e[0] == 'pushback' and under(src, e[1])):
                        res.fail('source', e[3], 'copying changes its source')
                if t in ('Sequence', 'Map'):
                    kinds.add(t)
                    lp = [e for e in st.tr if e[0] == 'loop+']
                    if not lp:
                        if any(e[0] == 'loop0' for e in st.tr) and any(c[0] == 'atend' for c in st.facts):
                            res.check(not calls, 'empty', P.where(f), 'entries are copied from an empty node')
                        elif not calls:
                            res.fail('entries', P.where(f), 'the entries of a %s are not copied' % ('list' if t == 'Sequence' else 'map'))
                        continue
                    body = iteration(st)
                    cb = [e for e in body if e[0] == 'call' and e[1] == f['n']]
                    if not any(e[0] == 'loop-' for e in st.tr[st.tr.index(lp[0]):]) and k == 'n':
                        res.undecided('leaves', 'copy loop left in an unrecognised way')
                    res.check(len(cb) == 1, 'each', lp[0][2], 'one entry of a %s is copied %d times' % (t, len(cb)))
                    for e in cb:
                        ind = inductions(st)
                        pos = [x for x in tree(e[4][0]) if x in ind]
                        if not pos:
                            res.undecided('entry', 'entry copied: %s' % show(e[4][0]))
                            continue
                        s0, d0 = ind[pos[0]]
                        res.check(s0 == C(0) and d0 == C(1) and mentions(e[4][0], src), 'every', e[5], 'the copy visits the entries from %s in steps of %s' % (show(s0), show(d0)))
                        to = e[4][1][0]
                        if t == 'Sequence':
                            pb = [x for x in body if x[0] == 'pushback' and x[1] == dst]
                            res.check(len(pb) == 1 and to == pb[0][2], 'slot', e[5], 'an entry of a list is not copied into a new entry of the copy')
                        else:
                            ch = [x for x in tree(to) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'ykey']
                            res.check(to[0] == 'y' and to[1] == dst and bool(ch) and ch[0][2] == pos[0] and ch[0][1] == ('init', src), 'key', e[5],
                                      'an entry of a map is copied under %s' % show(to))
                    left = [e for e in body if e[0] == 'write' and under(dst, e[1])]
                    res.check(not left, 'only', lp[0][2], 'the copy is changed in another way: %s' % (show(left[0]) if left else ''))
                    st_all = [c for c in st.facts if c[0] == 'atend']
                    res.check(bool(st_all), 'until-end', lp[0][2], 'the copy does not go on to the end of the entries')
                elif t == 'Scalar':
                    kinds.add(t)
                    val = ws[-1][2] if ws and ws[-1][0] == 'write' else None
                    res.check(len(ws) == 1 and val == ('scalar', ('as', 'std::string', ('init', src))), 'scalar', P.where(f), 'the text of a scalar is copied as %s' % (show(val) if val else 'nothing'))
                else:
                    res.check(not calls and not [w for w in ws if w[0] != 'write' or w[2] != ('none',)], 'none', P.where(f), 'an empty node is copied as something')
            for t in ('Sequence', 'Map', 'Scalar'):
                res.check(t in kinds, 'kinds', P.where(f), 'nodes of kind %s are not copied' % t)
        names = [f['n'] for f in cs]
        for f in fns(P, 'Yaml::Node::operator='):
            if 'Yaml::Node &' not in f['p'][0]['t'] or '&&' in f['p'][0]['t']:
                continue
            I = Interp(P, Pol(opaque=names))
            outs = I.run(f)
            res.stats(I)
            this = ('o', 'this')
            old = ('init', ('f', this, 'm_pImp'))
            for st, k, v in outs:
                if k != 'n':
                    continue
                cp = [(i, e) for i, e in enumerate(st.tr) if e[0] == 'call' and e[1] in names]
                same = any(c == ('op', '==', ('&', ROOT), ('&', this)) or c == ('op', '==', ('&', this), ('&', ROOT)) for c, val in st.facts.items() if val)
                if same:
                    res.check(not cp and not [e for e in st.tr if e[0] in ('write', 'delete')], 'self', P.where(f), 'self-assignment changes the node')
                    continue
                if not cp:
                    res.fail('copied', P.where(f), 'an assignment copies nothing')
                    continue
                i, e = cp[0]
                res.check(e[4][0] == (ROOT, ('init', ROOT)), 'from', e[5], 'the copy is not made from the unchanged right-hand side')
                des = [j for j, d in enumerate(st.tr) if (d[0] == 'delete' and mentions(d[1], old)) or
                       (d[0] == 'write' and d[1][0] == 'f' and mentions(d[1], old))]
                res.check(not des or des[0] > i, 'alias', st.tr[des[0]][3] if des else '', 'the old content is destroyed before the copy is made; the right-hand side may be part of it')
                to = e[4][1]
                res.check(not mentions(to, old), 'fresh', e[5], 'the copy is built inside the old content')
                fin = st.mem.get(('f', this, 'm_pImp'), old)
                ok = fin != old and not mentions(fin, old)
                res.check(ok, 'taken', P.where(f), 'the node does not own the copy afterwards')
                if ok:
                    gone = [d for d in st.tr if d[0] == 'delete' and mentions(d[1], fin)]
                    res.check(not gone, 'kept', gone[0][3] if gone else '', 'the copy is destroyed again')
                    od = [d for d in st.tr if d[0] == 'delete' and d[1] in (('*', old), old)]
                    res.check(len(od) == 1, 'old', P.where(f), 'the old content is deleted %d times' % len(od))


def iteration(st):
    """events of the (last) generic loop iteration"""
    a = max(i for i, e in enumerate(st.tr) if e[0] == 'loop+')
    b = next((i for i in range(a, len(st.tr)) if st.tr[i][0] == 'loop-' and st.tr[i][1] == st.tr[a][1]), len(st.tr))
    return st.tr[a + 1:b]


# ---- P06 iteration -----------------------------------------------------------------------------
ITERS = ('Yaml::Iterator', 'Yaml::ConstIterator')
SEQ, MAP, NONE = 'list', 'map', 'empty'


def enumval(P, enum, name):
    for e in P.enums.get(enum, {}).get('e', ()):
        if e['n'] == name:
            return e['v']
    raise Undecided('%s::%s not found' % (enum, name))


def tagof(P, st, term, enum):
    s, m = enumval(P, enum, 'SequenceType'), enumval(P, enum, 'MapType')
    pos, neg = None, set()
    for c, v in st.facts.items():
        if c[0] == 'op' and c[1] == '==' and c[2] == term and isc(c[3]):
            if v:
                pos = c[3][1]
            else:
                neg.add(c[3][1])
    if pos is not None:
        return SEQ if pos == s else MAP if pos == m else NONE
    if {s, m} <= neg:
        return NONE
    return None


def p06(res, tier):
    res.rule('Begin/End (const and non-const): a list node yields a list iterator at the begin/end of its own entries, a map node a map iterator at the begin/end of its own entries, any other node an empty iterator')
    res.rule('++, --, *, ==, !=, copy and destruction of both iterator classes: per kind of iterator, exactly the corresponding operation of the underlying position; two empty iterators are equal, iterators of different kinds are not')
    for P in units(res):
        this = ('o', 'this')
        nimp = ('*', ('init', ('f', this, 'm_pImp')))
        timp = ('*', ('init', ('f', nimp, 'm_pImp')))
        for name in ('Begin', 'End'):
            for f in fns(P, 'Yaml::Node::' + name):
                I = Interp(P, Pol())
                outs = I.run(f)
                res.stats(I)
                it = f['ret']
                seen = set()
                for st, k, v in outs:
                    w = P.where(f)
                    if k != 'n':
                        res.fail('total', w, '%s raises %s' % (name, v[0]))
                        continue
                    tag = tagof(P, st, ('init', ('f', nimp, 'm_Type')), 'Yaml::Node::eType')
                    isnull = any(c == ('op', '==', timp[1], C(0)) and val for c, val in st.facts.items())
                    if isnull:
                        tag = NONE
                    if tag is None and any(c[0] == 'op' and c[1] == '==' and c[2] == timp[1] for c in st.facts):
                        pass
                    typ = field(v, 'm_Type')
                    imp = field(v, 'm_pImp')
                    if typ is None or imp is None or not isc(typ):
                        res.undecided(name, 'result %s' % show(v))
                        continue
                    got = {enumval(P, it + '::eType', 'SequenceType'): SEQ, enumval(P, it + '::eType', 'MapType'): MAP}.get(typ[1], NONE)
                    if tag is None:
                        # several kinds share this path: it must be right for all of them that are possible
                        if got != NONE:
                            res.fail('kind', w, '%s yields a %s iterator without testing the kind of the node' % (name, got))
                        else:
                            res.ok('kind')
                        continue
                    seen.add(tag)
                    res.check(got == tag, 'kind', w, '%s of %s node yields a %s iterator' % (name, tag, got))
                    if got == NONE:
                        continue
                    if imp[0] != '&' or imp[1][0] != 'h':
                        res.fail('position', w, '%s of a %s yields an iterator without a position' % (name, tag))
                        continue
                    H = imp[1]
                    dyn = str(st.mem.get(('dyn', H), ''))
                    want = {SEQ: ('Sequence', 'm_Sequence'), MAP: ('Map', 'm_Map')}[got]
                    res.check(want[0] in dyn and ('Const' in dyn) == ('Const' in it), 'class', w, '%s of a %s yields a position of class %s' % (name, tag, dyn))
                    res.check(not any(e[0] == 'delete' and e[1] == H for e in st.tr), 'alive', w, 'the position is deleted before it is returned')
                    pos = st.mem.get(('f', H, 'm_Iterator'))
                    hit = [t for t in tree(pos) if isinstance(t, tuple) and t and t[0] in ('begin', 'end')] if pos else []
                    if not hit:
                        res.fail('position', w, '%s of a %s leaves the position unset' % (name, tag)) if pos is None or pos[0] in ('uninit', 'new') and not hit else res.undecided(name, show(pos))
                        continue
                    res.check(all(t[0] == name.lower() for t in hit), 'position', w, '%s of a %s yields its %s' % (name, tag, hit[0][0]))
                    res.check(mentions(hit[0], ('f', timp, want[1])), 'own', w, '%s of a %s points into %s' % (name, tag, show(hit[0])))
                res.check({SEQ, MAP} <= seen, 'kinds', P.where(f), '%s does not distinguish list and map nodes' % name)
        for cls in ITERS:
            en = cls + '::eType'
            tt = ('init', ('f', this, 'm_Type'))
            cur = ('f', ('*', ('init', ('f', this, 'm_pImp'))), 'm_Iterator')
            for op in ('operator++', 'operator--'):
                for f in fns(P, cls + '::' + op):
                    I = Interp(P, Pol())
                    outs = I.run(f)
                    res.stats(I)
                    seen = set()
                    for st, k, v in outs:
                        tag = tagof(P, st, tt, en)
                        w = P.where(f)
                        mv = [e for e in st.tr if e[0] == 'call' and e[1].rsplit('::', 1)[-1] in ('operator++', 'operator--') and e[3] is not None and e[3][0] is not None and
                              e[3][0][0] == 'f' and e[3][0][2] == 'm_Iterator']
                        oth = [e for e in st.tr if e[0] == 'write' and not under(cur, e[1]) and e[1][0] in ('f', 'o') and mentions(e[1], this)]
                        if tag is None:
                            res.check(not mv, 'step', w, '%s moves an iterator without testing its kind' % op)
                            continue
                        seen.add(tag)
                        if tag == NONE:
                            res.check(not mv and not oth, 'step', w, '%s changes an empty iterator' % op)
                            continue
                        res.check(len(mv) == 1 and mv[0][1].endswith(op) and mv[0][3][0] == cur, 'step', w, '%s of a %s iterator does %s' % (op, tag, [e[1].rsplit('::', 1)[-1] for e in mv] or 'nothing'))
                        res.check(not oth, 'step-only', w, '%s also changes %s' % (op, show(oth[0][1]) if oth else ''))
                        res.check(k == 'n' and v == ('ref!', this), 'step-self', w, '%s does not return the iterator itself' % op)
                    res.check({SEQ, MAP} <= seen, 'step-kinds', P.where(f), '%s does not handle every kind of iterator' % op)
            for f in fns(P, cls + '::operator*'):
                I = Interp(P, Pol(inl=lambda fn: not fn['n'].startswith('Yaml::Node::')))
                outs = I.run(f)
                res.stats(I)
                ent = ('*', ('init', cur))
                for st, k, v in outs:
                    tag = tagof(P, st, tt, en)
                    w = P.where(f)
                    a = dict(v[2]) if v[0] == 'agg' else {}
                    if tag is None or 'second' not in a:
                        res.undecided('deref', 'result %s' % show(v))
                        continue
                    if tag == NONE:
                        res.check(not mentions(a['second'], ent) and not mentions(a['second'], ('init', cur)), 'deref', w, 'dereferencing an empty iterator reads a position')
                        continue
                    res.check(mentions(a['second'], ('f', ent, 'second')), 'deref', w, 'the value of a %s entry is %s' % (tag, show(a['second'])))
                    if tag == MAP:
                        res.check(mentions(a['first'], ('f', ent, 'first')), 'deref-key', w, 'the key of a map entry is %s' % show(a['first']))
                    else:
                        res.check(a['first'] == C('') or not mentions(a['first'], ent), 'deref-key', w, 'the key of a list entry is %s' % show(a['first']))
            ot = ('init', ('f', ROOT, 'm_Type'))
            ocur = ('f', ('*', ('init', ('f', ROOT, 'm_pImp'))), 'm_Iterator')
            for op, neg in (('operator==', False), ('operator!=', True)):
                for f in fns(P, cls + '::' + op):
                    I = Interp(P, Pol())
                    outs = I.run(f)
                    res.stats(I)
                    for st, k, v in outs:
                        w = P.where(f)
                        if k != 'n':
                            continue
                        same = next((val for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and {c[2], c[3]} == {tt, ot}), None)
                        ta, tb = tagof(P, st, tt, en), tagof(P, st, ot, en)
                        val = v
                        flip = neg
                        while val[0] == 'not':
                            val, flip = val[1], not flip
                        if same is False or (ta and tb and ta != tb):
                            res.check(val == C(flip), 'eq-kinds', w, '%s of iterators of different kinds is %s' % (op, show(v)))
                        elif ta == NONE or tb == NONE:
                            res.check(val == C(not flip), 'eq-empty', w, '%s of two empty iterators is %s' % (op, show(v)))
                        elif isc(val):
                            known = [(c, x) for c, x in st.facts.items() if c[0] == 'op' and c[1] == '==' and {c[2], c[3]} == {('init', cur), ('init', ocur)}]
                            if known:
                                res.check(val == C(known[0][1] != flip), 'eq', w, '%s contradicts the positions' % op)
                            else:
                                res.fail('eq', w, '%s of two iterators of one kind is always %s' % (op, val[1]))
                        else:
                            res.check(val[0] == 'op' and val[1] == '==' and not flip and {val[2], val[3]} == {('init', cur), ('init', ocur)} or
                                      (val[0] == 'op' and val[1] == '==' and flip and v[0] == 'not' and {val[2], val[3]} == {('init', cur), ('init', ocur)}), 'eq', w, '%s compares %s' % (op, show(v)))
            for f in fns(P, cls + '::operator=') + fns(P, cls + '::' + cls.rsplit('::', 1)[1]):
                if len(f['p']) != 1 or '&&' in f['p'][0]['t']:
                    continue
                if not f.get('ctor'):
                    J = Interp(P, Pol())
                    for st, k, v in J.run(f, this=this, args={0: (this, ('init', this))}):
                        w = P.where(f)
                        p = st.mem.get(('f', this, 'm_pImp'))
                        gone = [e for e in st.tr if e[0] == 'delete']
                        if tagof(P, st, tt, en) in (SEQ, MAP) or not gone and p is None:
                            if p is None or p == ('init', ('f', this, 'm_pImp')):
                                res.check(not gone, 'copy-self', gone[0][3] if gone else w, 'assigning an iterator to itself deletes its position')
                            elif p[0] == '&' and p[1][0] == 'h':
                                q = st.mem.get(('f', p[1], 'm_Iterator'))
                                res.check(q is not None and mentions(q, cur), 'copy-self', w, 'assigning an iterator to itself moves it to %s' % (show(q) if q else 'no position'))
                            else:
                                res.fail('copy-self', w, 'assigning an iterator to itself leaves it without a position')
                    res.stats(J)
                I = Interp(P, Pol())
                outs = I.run(f)
                res.stats(I)
                for st, k, v in outs:
                    w = P.where(f)
                    tag = tagof(P, st, ot, en)
                    typ = st.mem.get(('f', this, 'm_Type'))
                    imp = st.mem.get(('f', this, 'm_pImp'))
                    if any(val and {c[2], c[3]} == {('&', ROOT), ('&', this)} for c, val in st.facts.items() if c[0] == 'op' and c[1] == '=='):
                        continue
                    if tag is None:
                        res.undecided('copy', 'kind of the copied iterator not tested')
                        continue
                    if tag == NONE:
                        res.check(imp in (NULL, C(0), None), 'copy-empty', w, 'a copy of an empty iterator holds a position')
                        continue
                    want = enumval(P, en, 'SequenceType' if tag == SEQ else 'MapType')
                    res.check(typ == C(want) or typ == ot, 'copy-kind', w, 'a copy of a %s iterator gets the kind %s' % (tag, show(typ) if typ else 'it had'))
                    if not imp or imp[0] != '&':
                        res.fail('copy-deep', w, 'a copy of a %s iterator shares or loses its position (%s)' % (tag, show(imp) if imp else 'none'))
                        continue
                    H = imp[1]
                    p = st.mem.get(('f', H, 'm_Iterator'))
                    res.check(p == ('init', ocur) or (p is not None and mentions(p, ocur)), 'copy-position', w, 'a copy of a %s iterator is at %s' % (tag, show(p) if p else 'no position'))
                    dyn = str(st.mem.get(('dyn', H), ''))
                    res.check(('Sequence' if tag == SEQ else 'Map') in dyn, 'copy-class', w, 'a copy of a %s iterator holds a %s' % (tag, dyn))
                    res.check(not any(e[0] == 'delete' and e[1] == H for e in st.tr), 'copy-alive', w, 'the position of the copy is deleted')


def field(v, name):
    if v[0] == 'rec':
        for s, x in v[2]:
            if s == (('f', name),):
                return x
    if v[0] == 'agg':
        return dict(v[2]).get(name) if v[1] == 'struct' else None
    return None


# ---- P07..P10 the document node as a container ----------------------------------------------------
from sa.interp import St                                       # noqa: E402

THIS, NIMP, IMP = ('o', 'this'), ('o', 'nimp'), ('o', 'imp')
KINDS = ('None', 'Sequence', 'Map', 'Scalar')


def nlayout(P):
    """names of the fields that hold a node's kind and content"""
    r = P.records.get('Yaml::NodeImp')
    n = P.records.get('Yaml::Node')
    if not r or not n:
        raise Undecided('class NodeImp or Node not found')
    tag = [f['n'] for f in r['fields'] if f['t'].endswith('eType')]
    imp = [f['n'] for f in r['fields'] if f['t'].endswith('*')]
    top = [f['n'] for f in n['fields'] if f['t'].endswith('*')]
    if len(tag) != 1 or len(imp) != 1 or len(top) != 1:
        raise Undecided('layout of Node/NodeImp not recognised')
    return tag[0], imp[0], top[0]


def kindval(P, kind):
    return enumval(P, 'Yaml::Node::eType', kind if kind == 'None' else kind + 'Type')


def impclass(P, kind):
    c = 'Yaml::%sImp' % kind
    if c not in P.records:
        raise Undecided('class %s not found' % c)
    return c


def contfield(P, kind):
    """the container of a list or map content class"""
    fs = [f for f in P.records[impclass(P, kind)]['fields'] if 'Node *' in f['t'] or 'Node*' in f['t']]
    if len(fs) != 1:
        raise Undecided('container of the %s content not recognised' % kind)
    return fs[0]['n']


def nstate(P, kind):
    tag, imp, top = nlayout(P)
    st = St()
    st.mem[('f', THIS, top)] = ('&', NIMP)
    st.mem[('f', NIMP, tag)] = C(kindval(P, kind))
    if kind == 'None':
        st.mem[('f', NIMP, imp)] = NULL
    else:
        st.mem[('f', NIMP, imp)] = ('&', IMP)
        st.mem[('dyn', IMP)] = impclass(P, kind)
    return st


_nruns = {}


def nodeop(res, P, f, kind):
    """outcomes of a Node method on a node of the given kind; destructors and Clear of other nodes are events"""
    key = (id(P), f['fid'], kind)
    if key not in _nruns:
        cop = {c['fid'] for c in copiers(P)}
        opq = () if f['n'] == 'Yaml::Node::Clear' else ('Yaml::Node::Clear',)
        I = Interp(P, Pol(opaque=opq, inl=lambda fn: not fn.get('dtor') and fn['fid'] not in cop))
        _nruns[key] = (I.run(f, st=nstate(P, kind)), I)
    outs, I = _nruns[key]
    res.stats(I)
    return outs


def endkind(P, st):
    """(kind or None when unknown, content object) the node ends with"""
    tag, imp, top = nlayout(P)
    n = st.mem.get(('f', THIS, top))
    N = n[1] if n and n[0] == '&' else None
    t = st.mem.get(('f', N, tag))
    p = st.mem.get(('f', N, imp))
    k = next((k for k in KINDS if t == C(kindval(P, k))), None)
    return k, (p[1] if p and p[0] == '&' else p), t


def deletes(st):
    return [(i, e) for i, e in enumerate(st.tr) if e[0] == 'delete']


def nodemethods(P):
    out = []
    for f in P.funcs.values():
        if f.get('rec') == 'Yaml::Node' and f.get('body') and not f.get('ctor') and not f.get('dtor') and not f.get('static') and \
           f['n'].startswith('Yaml::Node::'):
            out.append(f)
    return out


def strp(t):
    return 'basic_string' in t or t in ('const std::string &', 'std::string')


def target_kind(f):
    """kind a mutating Node method must leave behind, None for methods that must not change it"""
    s = f['short']
    if f.get('const'):
        return None
    if s in ('PushBack', 'PushFront', 'Insert'):
        return 'Sequence'
    if s == 'operator[]':
        return 'Map' if strp(f['p'][0]['t']) else 'Sequence'
    if s == 'operator=':
        t = f['p'][0]['t']
        return 'copy' if 'Yaml::Node' in t else 'Scalar'
    if s == 'Clear':
        return 'None'
    return None


def p07(res, tier):
    res.rule('every operation on a node, per kind of node before it: content replaced is deleted exactly once and no longer referenced; content kept is not deleted; every new entry or content object ends up owned by the node')
    res.rule('destructors: a list or map deletes every entry, first to last, exactly once; a node deletes its content once')
    for P in units(res):
        tag, impf, top = nlayout(P)
        for f in nodemethods(P):
            if target_kind(f) == 'copy':
                continue
            for kind in KINDS:
                for st, k, v in nodeop(res, P, f, kind):
                    if k != 'n':
                        continue
                    ek, X, t = endkind(P, st)
                    w = P.where(f)
                    d = [e for i, e in deletes(st) if e[1] == IMP]
                    if kind != 'None':
                        if X == IMP:
                            res.check(not d, 'kept', d[0][3] if d else w, '%s of a %s node deletes the content the node keeps' % (f['short'], kind))
                        else:
                            res.check(len(d) == 1, 'replaced', d[0][3] if d else w, '%s of a %s node deletes the replaced content %d times' % (f['short'], kind, len(d)))
                    for e in st.tr:
                        if e[0] != 'new' or not ('Node' in e[2] or 'Imp' in e[2]) or 'Iterator' in e[2]:
                            continue
                        if any(x[0] == 'delete' and x[1] == e[1] for x in st.tr):
                            own = not any(mentions(x, e[1]) for L, x in st.mem.items() if L[0] in 'fi' and x[0] == '&' and not under(e[1], L))
                            res.check(own, 'dangling', e[4], '%s keeps a pointer to an object it deleted' % f['short'])
                            continue
                        if impossible_key(st):
                            continue
                        held = any(x != ('deleted',) and mentions(x, ('&', e[1])) for L, x in st.mem.items() if L[0] in 'fih' and not under(e[1], L))
                        res.check(held, 'owned', e[4], '%s of a %s node loses the %s it creates' % (f['short'], kind, e[2].rsplit('::', 1)[-1]))
                    if kind in ('Sequence', 'Map') and X == IMP:
                        M = ('f', X, contfield(P, kind))
                        er = [e for e in st.tr if e[0] == 'call' and e[3] is not None and e[3][0] == M and e[1].rsplit('::', 1)[-1] in ('erase', 'extract', 'pop_back', 'pop_front')]
                        back = [e for e in st.tr if e[0] in ('child', 'mapins') or e[0] == 'call' and e[3] is not None and e[3][0] == M and e[1].rsplit('::', 1)[-1] in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'swap')
                                or e[0] == 'write' and e[1] == M]
                        absent = any(c[0] == 'has' and mentions(c, M) and not val for c, val in st.facts.items())
                        null = any(c[0] == 'op' and c[1] == '==' and c[3] == C(0) and val and mentions(c[2], M) and not mentions(c[2], 'size') for c, val in st.facts.items())
                        loops = kind == 'Map' and any(e[0] in ('loop+', 'loop0') for e in st.tr)
                        if er and not back and not absent and not null and not loops:
                            freed = [e for i, e in deletes(st) if mentions(e[1], IMP) and e[1] != IMP]
                            res.check(bool(freed), 'removed', er[0][5], '%s takes an entry out of a %s without deleting it' % (f['short'], kind))
                    for i, e in deletes(st):
                        if e[1] == IMP or e[1][0] == 'h':
                            continue
                        # an entry: it must leave the container
                        if not mentions(e[1], IMP):
                            continue
                        gone = [x for x in st.tr if x[0] == 'call' and x[1].endswith(('::erase', '::extract', '::clear', '::pop_back'))]
                        twice = [x for j, x in deletes(st) if x[1] == e[1]]
                        res.check(bool(gone) and len(twice) == 1, 'entry', e[3], '%s deletes an entry %s' % (f['short'], 'twice' if len(twice) > 1 else 'that stays in the container'))
        for kind in ('Sequence', 'Map'):
            cls = impclass(P, kind)
            fld = contfield(P, kind)
            ds = [f for f in P.funcs.values() if f.get('dtor') and f.get('rec') == cls and f.get('body') and not f.get('implicit')]
            if not ds:
                res.fail('destructor', cls, 'the entries of a %s are never deleted: %s has no destructor' % (kind, cls))
                continue
            for f in ds:
                I = Interp(P, Pol(inl=lambda fn: not fn.get('dtor') or fn['fid'] == f['fid']))
                outs = I.run(f)
                res.stats(I)
                M = ('f', THIS, fld)
                loops = 0
                for st, k, v in outs:
                    lp = [e for e in st.tr if e[0] == 'loop+']
                    dl = deletes(st)
                    if not lp:
                        n = [e for e in st.tr if e[0] in ('loop0', 'loop=')]
                        if not n:
                            res.fail('all', P.where(f), 'destroying a %s deletes %d entries without visiting them' % (kind, len(dl)))
                        continue
                    loops += 1
                    ind = inductions(st)
                    body = iteration(st)
                    bd = [e for e in body if e[0] == 'delete']
                    res.check(len(bd) == 1 and len(dl) == 1, 'once', lp[0][2], 'destroying a %s deletes %d objects per entry' % (kind, len(bd)))
                    for e in bd:
                        its = [x for x in tree(e[1]) if x in ind]
                        if not its:
                            res.undecided('all', 'entry deleted: %s' % show(e[1]))
                            continue
                        s0, d0 = ind[its[0]]
                        res.check(s0[0] == 'begin' and mentions(s0, M) and d0 == C(1), 'all', e[3], 'destroying a %s visits the entries from %s in steps of %s' % (kind, show(s0), show(d0)))
                        res.check(mentions(e[1], ('f', ('*', its[0]), 'second')) or 'second' not in str(e[1]), 'value', e[3], 'destroying a %s deletes %s' % (kind, show(e[1])))
                    left = [c for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and val and any(isinstance(x, tuple) and x and x[0] == 'end' for x in tree(c))]
                    res.check(bool(left), 'until-end', lp[0][2], 'destroying a %s stops before the last entry' % kind)
                if not loops:
                    res.undecided('all', 'no visiting loop in %s' % P.where(f))
        for cls, own in (('Yaml::NodeImp', IMP), ('Yaml::Node', NIMP)):
            ds = [f for f in P.funcs.values() if f.get('dtor') and f.get('rec') == cls and f.get('body') and not f.get('implicit')]
            if not ds:
                res.fail('destructor', cls, '%s has no destructor' % cls)
            for f in ds:
                for kind in KINDS:
                    I = Interp(P, Pol(inl=lambda fn: not fn.get('dtor') or fn['fid'] == f['fid']))
                    for st, k, v in I.run(f, this=NIMP if cls.endswith('Imp') else THIS, st=nstate(P, kind)):
                        n = [e for i, e in deletes(st) if e[1] == own]
                        want = 0 if own == IMP and kind == 'None' else 1
                        res.check(len(n) == want and len(deletes(st)) == want, 'content', P.where(f), 'destroying a %s node deletes its %s %d times' % (kind, 'content' if own == IMP else 'implementation', len(n)))
                    res.stats(I)
        lines_owned(res, P)


def impossible_key(st):
    """the path claims that a list already has an entry after its last one"""
    for c, v in st.facts.items():
        if c[0] == 'op' and c[1] == '<' and v and c[2][0] in ('parm', 'size') and isc(c[3]) and c[3][1] <= 0:
            return True
        if c[0] == 'has' and v:
            if any(isinstance(x, tuple) and len(x) == 4 and x[:2] == ('op', '+') and isinstance(x[2], tuple) and x[2][0] == 'end' for x in tree(c[2])):
                return True
            if isc(c[2]) and any(z[0] == 'op' and z[1] == '==' and z[2] == ('size', c[1]) and z[3] == C(0) and zv for z, zv in st.facts.items()):
                return True
    return False


def lines_owned(res, P):
    """the reader's lines: every line created is put into the list; a line deleted on its own is taken out, and only then"""
    res.rule('reader: a new line is always added to the list of lines; a line that is deleted is also removed from the list and the other way round')
    rec = P.records.get('Yaml::ParseImp')
    if not rec:
        return
    lf = [f for f in rec['fields'] if '*' in f['t'] and '<' in f['t']]
    if len(lf) != 1:
        return
    M = ('f', THIS, lf[0]['n'])
    for f in P.funcs.values():
        if f.get('rec') != 'Yaml::ParseImp' or not f.get('body') or f.get('static'):
            continue
        body = list(walk(f['body']))
        news = [x for x in body if x.get('k') == 'new']
        ers = [x for x in body if x.get('k') == 'call' and (x.get('fn') or '').startswith('std::list') and x['fn'].rsplit('::', 1)[-1] in ('erase', 'pop_back', 'pop_front', 'clear', 'push_back', 'push_front', 'insert')]
        dels = [x for x in body if x.get('k') == 'delete']
        if not news and not ers and not dels:
            continue
        I = Interp(P, Pol(inl=lambda fn: not fn.get('dtor') and fn.get('rec') not in ('Yaml::ParseImp', 'Yaml::Node') and not closure(P).get(fn['fid'], (0, 0))[0]))
        outs = I.run(f)
        res.stats(I)
        for st, k, v in outs:
            add = [e for e in st.tr if e[0] == 'call' and e[3] is not None and e[3][0] == M and e[1].rsplit('::', 1)[-1] in ('push_back', 'push_front', 'insert', 'emplace_back', 'emplace')]
            add += [e for e in st.tr if e[0] == 'write' and e[1] == M]
            for e in st.tr:
                if e[0] == 'new' and 'ReaderLine' in e[2]:
                    res.check(any(mentions(a, ('&', e[1])) for a in add), 'line-added', e[4], 'a line is created and not added to the lines of the reader')
            er = [(i, e) for i, e in enumerate(st.tr) if e[0] == 'call' and e[3] is not None and e[3][0] == M and e[1].rsplit('::', 1)[-1] in ('erase', 'pop_front', 'pop_back')]
            cl = [(i, e) for i, e in enumerate(st.tr) if e[0] == 'call' and e[3] is not None and e[3][0] == M and e[1].endswith('::clear') or
                  e[0] == 'write' and e[1] == M and e[2][0] == 'agg' and not e[2][2]]
            dl = deletes(st)
            for i, e in er:
                arg = [x for a in e[4] for x in tree(a) if isinstance(x, tuple)]
                hit = [j for j, d in dl if any(d[1] == ('*', ('init', ('*', x))) for x in arg if isinstance(x, tuple))]
                res.check(len(hit) == 1, 'line-removed', e[5], 'a line is removed from the lines of the reader and deleted %d times' % len(hit))
            if not cl:
                for j, d in dl:
                    pos = [x[1][1] for x in tree(d[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == '*' and isinstance(x[1], tuple) and len(x[1]) == 2 and x[1][0] == 'init' and x[1][1][0] == '*']
                    ok = any(mentions(e[4], p[1]) for i, e in er for p in pos)
                    res.check(ok, 'line-deleted', d[3], 'a line is deleted and stays among the lines of the reader')


def p08(res, tier):
    res.rule('every operation on a node, per kind of node before it: list operations leave a list, map operations a map, assigning text a scalar, Clear an empty node; every other operation leaves kind and content object as they were')
    res.rule('at the end of every operation the kind and the class of the content agree; an operation of the right kind keeps the content object')
    res.rule('Is*, Type, Size and AsString per kind of node: exactly one Is* holds; Type names it; Size is the number of entries; the text of anything but a scalar is empty')
    for P in units(res):
        for f in nodemethods(P):
            tk = target_kind(f)
            if tk == 'copy':
                continue
            s = f['short']
            for kind in KINDS:
                for st, k, v in nodeop(res, P, f, kind):
                    w = P.where(f)
                    if k != 'n':
                        if k == 'x' and not s.startswith(('As', 'Get')):
                            res.fail('total', w, '%s of a %s node raises %s' % (s, kind, v[0]))
                        continue
                    ek, X, t = endkind(P, st)
                    if ek is None:
                        res.undecided('kind', '%s leaves kind %s' % (s, show(t)))
                        continue
                    want = tk or kind
                    res.check(ek == want, 'kind', w, '%s turns a %s node into a %s node' % (s, kind, ek))
                    if X == IMP:
                        res.check(ek == kind, 'agree', w, '%s marks the content of a %s node as %s' % (s, kind, ek))
                        res.check(not tk or tk == kind, 'fresh', w, '%s keeps the content of a %s node' % (s, kind))
                    elif X in (NULL, C(None), C(0), None):
                        res.check(ek == 'None', 'agree', w, '%s leaves a %s node without content' % (s, ek))
                    else:
                        dyn = st.mem.get(('dyn', X))
                        res.check(dyn == (impclass(P, ek) if ek != 'None' else None), 'agree', w, '%s leaves a %s node with content of class %s' % (s, ek, dyn))
                        res.check(tk != kind, 'kept', w, '%s of a %s node replaces its content' % (s, kind))
                    if s in ('IsNone', 'IsSequence', 'IsMap', 'IsScalar'):
                        res.check(v == C(s[2:] == kind) or v == C(int(s[2:] == kind)), 'is', w, '%s of a %s node is %s' % (s, kind, show(v)))
                    elif s == 'Type':
                        res.check(v == C(kindval(P, kind)), 'type', w, 'the type of a %s node is %s' % (kind, show(v)))
                    elif s == 'Size':
                        if kind in ('None', 'Scalar'):
                            res.check(v == C(0), 'size', w, 'the size of a %s node is %s' % (kind, show(v)))
                        else:
                            M = ('f', IMP, contfield(P, kind))
                            res.check(v == ('size', ('init', M)), 'size', w, 'the size of a %s node is %s' % (kind, show(v)))
                    elif s in ('AsString',):
                        txt = v
                        if kind == 'Scalar':
                            fl = [x['n'] for x in P.records[impclass(P, 'Scalar')]['fields']]
                            res.check(any(mentions(txt, ('f', IMP, n)) for n in fl), 'text', w, 'the text of a scalar is %s' % show(txt))
                        else:
                            res.check(txt == C('') or (txt[0] == 'ref!' and txt[1][0] == 'g'), 'text', w, 'the text of a %s node is %s' % (kind, show(txt)))
                    elif s == 'operator=':
                        fl = [x['n'] for x in P.records[impclass(P, 'Scalar')]['fields']]
                        got = [st.mem.get(('f', X, n)) for n in fl]
                        if strp(f['p'][0]['t']):
                            res.check(('init', ROOT) in got, 'value', w, 'assigning a text stores %s' % show(got))
                        else:
                            null = any(c[0] == 'op' and c[1] == '==' and c[2] == ('parm', 0) and c[3] == C(0) and val for c, val in st.facts.items())
                            res.check(got == [C('')] if null else any(g is not None and mentions(g, ('parm', 0)) for g in got), 'value', w, 'assigning a text stores %s' % show(got))


def mapfinal(st, M, key):
    v = st.mem.get(('i', M, key))
    if v is None:
        a = st.mem.get(M)
        if a and a[0] == 'agg':
            v = dict(a[2]).get(key)
    return v


def ltfact(st, a, b):
    """a < b known? (True/False/None)"""
    r = st.facts.get(('op', '<', a, b))
    if r is None and isc(a) and isc(b):
        return a[1] < b[1]
    return r


def p09(res, tier):
    res.rule('list operations on a list node: append puts one new entry at the position after the last; insert puts it at the given position (at the end when beyond it) after moving every later entry back by one, last first; push-front inserts at 0')
    res.rule('erase removes exactly the entry at the position, then moves every later entry forward by one, first first, so positions stay 0..n-1; erasing a position that does not exist changes nothing')
    res.rule('indexing yields the entry at exactly that position, or an emptied stand-in when there is none, and never changes the list')
    for P in units(res):
        fld = contfield(P, 'Sequence')
        M = ('f', IMP, fld)
        M0 = ('init', M)
        size = ('size', M0)
        seen = set()
        for f in nodemethods(P):
            s = f['short']
            if target_kind(f) != 'Sequence' and not (s == 'Erase' and not strp(f['p'][0]['t'])):
                continue
            seen.add(s)
            w = P.where(f)
            for st, k, v in nodeop(res, P, f, 'Sequence'):
                if k != 'n' or impossible_key(st):
                    continue
                empty = any(c == ('op', '==', size, C(0)) and val for c, val in st.facts.items())
                nodes = [e for e in st.tr if e[0] == 'new' and e[2] == 'Yaml::Node']
                ws = [e for e in st.tr if e[0] == 'write' and e[1][0] == 'i' and e[1][1] == M]
                other = [e for e in st.tr if e[0] == 'write' and under(IMP, e[1]) and e not in ws]
                calls = [e for e in st.tr if e[0] == 'call' and e[3] is not None and e[3][0] == M and
                         e[1].rsplit('::', 1)[-1] in ('erase', 'clear', 'insert', 'emplace', 'extract', 'swap', 'try_emplace')]
                if s == 'operator[]':
                    res.check(not ws and not calls and not other and not nodes, 'index-pure', w, 'indexing a list changes it')
                    for e in st.tr:
                        if e[0] == 'mapidx' and e[1] == M:
                            res.check(st.facts.get(('has', M0, e[3])) is True, 'index-pure', e[4], 'indexing a list may insert an empty entry')
                    h = st.facts.get(('has', M0, ('parm', 0)))
                    ent = ('init', ('i', M, ('parm', 0)))
                    nul = any(c[0] == 'op' and c[1] == '==' and c[2] == ent and c[3] == C(0) and val for c, val in st.facts.items())
                    if v[0] != 'ref!':
                        res.undecided('index', show(v))
                    elif h and not nul:
                        res.check(v[1] == ('*', ent), 'index', w, 'indexing an existing position yields %s' % show(v[1]))
                    elif h is False:
                        cl = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::Node::Clear' and e[3][0] == v[1]]
                        res.check(v[1][0] in 'gh' and bool(cl), 'index-none', w, 'indexing a position that does not exist yields %s%s' % (show(v[1]), '' if cl else ', which is not emptied'))
                    continue
                if s == 'Erase':
                    h = st.facts.get(('has', M0, ('parm', 0)))
                    lt = ltfact(st, ('parm', 0), size)
                    dl = [e for i, e in deletes(st)]
                    if h is False or lt is False:
                        res.check(not dl and not ws and not calls and not other, 'erase-none', w, 'erasing a position that does not exist changes the list')
                        continue
                    if h is None and lt is None:
                        if dl or calls or ws:
                            res.fail('erase-known', (dl + calls + ws)[0][3] if dl else w, 'erase does not test that the position exists')
                        continue
                    res.check(len(dl) == 1 and dl[0][1] == ('*', ('init', ('i', M, ('parm', 0)))), 'erase-entry', dl[0][3] if dl else w,
                              'erase deletes %s' % (show([d[1] for d in dl])))
                    shift(res, st, M, ws, ('parm', 0), +1, size, w, 'Erase')
                    er = [e for e in calls if e[1].endswith('::erase')]
                    if len(er) != 1 or len(calls) != 1:
                        res.fail('erase-last', w, 'erase removes %d positions' % len(er))
                        continue
                    a = er[0][4][0][1]
                    last = a[0] == 'op' and a[1] == '+' and a[3] == C(-1) and a[2][0] == 'size' and mentions(a[2], M) or \
                        mentions(a, 'end') or mentions(a, 'rbegin')
                    lone = ltfact(st, ('op', '+', ('parm', 0), C(1)), size)
                    res.check(last or (lone is False and a == ('parm', 0)), 'erase-last', er[0][5], 'erase removes the position %s; the remaining positions are not 0..n-1' % show(a))
                    continue
                # insertion
                res.check(len(nodes) == 1, 'one', w, '%s creates %d entries' % (s, len(nodes)))
                if len(nodes) != 1:
                    continue
                H = ('&', nodes[0][1])
                res.check(v == ('ref!', nodes[0][1]), 'returned', w, '%s does not return the new entry' % s)
                fin = [e for e in ws if e[2] == H]
                if len(fin) != 1 or calls or other:
                    res.fail('stored', w, '%s stores the new entry %d times' % (s, len(fin))) if not calls and not other else res.undecided('stored', '%s changes the list through %s' % (s, show(calls or other)))
                    continue
                key = fin[0][1][2]
                if s == 'PushBack':
                    lastp = mentions(key, 'end') and key[0] == 'op' and key[1] == '+' and key[3] == C(1) and ends_first(key[2], M)
                    if key == size or lastp or (empty and key == C(0)):
                        res.ok('append')
                    elif isc(key) or offset(key, size) is not None or ends_first(key, M) or key[0] == 'op' and key[1] in '+-' and ends_first(key[2], M) or mentions(key, ('parm', 0)):
                        res.fail('append', fin[0][3], 'append stores the new entry at %s' % show(key))
                    else:
                        res.undecided('append', show(key))
                    res.check(len(ws) == 1, 'append-only', fin[0][3], 'append also changes other entries')
                    continue
                sh = [e for e in ws if e is not fin[0]]
                if s == 'PushFront':
                    res.check(key == C(0) or (empty and key == size), 'front', fin[0][3], 'push-front stores the new entry at %s' % show(key))
                    pos = C(0)
                else:
                    lt = ltfact(st, ('parm', 0), size)
                    if lt is None:
                        res.fail('clamped', fin[0][3], 'insert does not test whether the position is inside the list') if key == ('parm', 0) else res.undecided('insert', show(key))
                        continue
                    res.check(key == (('parm', 0) if lt else size), 'position', fin[0][3], 'insert %s the end stores the new entry at %s' % ('before' if lt else 'at or beyond', show(key)))
                    pos = ('parm', 0) if lt else size
                if pos == size or empty:
                    res.check(not sh, 'shift', w, '%s at the end moves other entries' % s)
                else:
                    res.check(bool(sh), 'shift', w, '%s overwrites the entry at its position' % s)
                    shift(res, st, M, sh, pos, -1, size, w, s)
                    res.check(not sh or st.tr.index(sh[-1]) < st.tr.index(fin[0]), 'order', fin[0][3], '%s stores the new entry before the others are moved' % s)
            for kind in ('None', 'Map', 'Scalar'):
                for st, k, v in nodeop(res, P, f, kind):
                    if k != 'n' or s in ('Erase', 'operator[]') or impossible_key(st):
                        continue
                    nodes = [e for e in st.tr if e[0] == 'new' and e[2] == 'Yaml::Node']
                    ek, X, t = endkind(P, st)
                    if len(nodes) != 1 or not X or X[0] != 'h':
                        res.fail('first', w, '%s of a %s node creates %d entries' % (s, kind, len(nodes)))
                        continue
                    if any(c[0] == 'op' and c[1] == '<' and c[3] == ('size', ('agg', 'map', ())) and val for c, val in st.facts.items()):
                        continue
                    got = mapfinal(st, ('f', X, fld), C(0))
                    if got is None:
                        c = [x for L, x in st.mem.items() if L[0] == 'i' and L[1] == ('f', X, fld) and x == ('&', nodes[0][1])]
                        got = c[0] if c and any(L[2] in (('size', ('agg', 'map', ())), C(0)) for L in st.mem if L[0] == 'i' and L[1] == ('f', X, fld)) else None
                    res.check(got == ('&', nodes[0][1]) and v == ('ref!', nodes[0][1]), 'first', w, 'the first entry made by %s is not at position 0 or not the one returned' % s)
        for s in ('PushBack', 'Insert', 'PushFront', 'Erase', 'operator[]'):
            if s not in seen:
                res.undecided('operations', 'Node::%s not found' % s)


def ends_first(t, M):
    """t is the key of the last entry of M"""
    return t[0] in ('init', 'part') and mentions(t, 'first') and (mentions(t, ('call', 'std::map::rbegin', (), (M, ('init', M)), ())) or any(isinstance(x, tuple) and len(x) == 4 and x[:2] == ('op', '+') and x[3] == C(-1) and
                                                                    isinstance(x[2], tuple) and x[2][0] == 'end' and x[2][2] == M for x in tree(t)))


def shift(res, st, M, ws, pos, d, size, w, what):
    """entries move by one: each write takes the neighbour's old value, in the order that loses nothing"""
    ind = inductions(st)
    for e in ws:
        t, val = e[1][2], e[2]
        src = None
        if val[0] == 'init' and val[1][0] == 'i' and val[1][1] == M:
            src = val[1][2]
        elif val[0] in ('top', 'maybe', 'part'):
            res.undecided('shift', '%s: %s' % (what, show(val)))
            continue
        if src is None:
            res.fail('shift', e[3], '%s stores %s at another position' % (what, show(val)))
            continue
        diff = offset(src, t)
        res.check(diff == C(d), 'shift', e[3], '%s moves the entry at %s to %s' % (what, show(src), show(t)))
        base = [x for x in (t, src) if x in ind] or [x for y in (t, src) for x in tree(y) if x in ind]
        if base:
            s0, st0 = ind[base[0]]
            res.check(st0 == C(d), 'shift-order', e[3], '%s moves the entries in the wrong order (steps of %s)' % (what, show(st0)))
    # the loop goes on until every later entry has moved
    lim = [e for e in st.tr if e[0] in ('loop-', 'loop0', 'loop=')]
    if not lim:
        res.fail('shift-all', w, '%s does not move the later entries' % what)
        return
    ok = False
    for c, val in st.facts.items():
        if c[0] != 'op' or c[1] not in ('<', '=='):
            continue
        if d < 0 and c[1] == '<' and not val and c[2] == pos:
            ok = True
        if c[1] == '==' and val and pos in (c[2], c[3]):
            ok = True
        if d > 0 and c[1] == '<' and not val and mentions(c[3], 'size') and mentions(c[3], M):
            k = 0
            lim_ = c[3]
            while lim_[0] == 'op' and lim_[1] == '+' and isc(lim_[3]):
                k += lim_[3][1]
                lim_ = lim_[2]
            x = c[2]
            if lim_[0] == 'size' and (offset(x, pos) == C(1 + k) or any(offset(x, i) == C(1 + k) for i in list(ind) + [('op', '+', i, C(1)) for i in ind])):
                ok = True
    if any(c[0] == 'op' and c[2] == size and c[3] == C(0) and val for c, val in st.facts.items()):
        ok = True
    if not ok:
        bad = [c for c, val in st.facts.items() if c[0] == 'op' and c[1] == '<' and not val and (any(i in tree(c) for i in ind) or mentions(c, pos))]
        if bad:
            res.fail('shift-all', w, '%s stops moving entries at %s' % (what, show(bad[0])))
        else:
            res.undecided('shift-all', '%s: end of the moving loop not recognised' % what)
    else:
        res.ok('shift-all')


def offset(a, b):
    """a - b when it is a constant"""
    def norm(t):
        n = 0
        while t[0] == 'op' and t[1] == '+' and isc(t[3]) and isinstance(t[3][1], int):
            n += t[3][1]
            t = t[2]
        if isc(t) and isinstance(t[1], int):
            return None, n + t[1]
        return t, n
    x, y = norm(a), norm(b)
    return C(x[1] - y[1]) if x[0] == y[0] else None


def p10(res, tier):
    res.rule('a map node looked up by a key: an existing key yields its own entry and creates nothing; a missing key gets exactly one new entry under exactly that key, which is the one returned')
    res.rule('erasing a key deletes and removes exactly the entry of that key; erasing a missing key changes nothing')
    for P in units(res):
        fld = contfield(P, 'Map')
        for f in nodemethods(P):
            s = f['short']
            if not (s in ('operator[]', 'Erase') and strp(f['p'][0]['t'])):
                continue
            w = P.where(f)
            key = ('init', ROOT)
            for kind in KINDS:
                for st, k, v in nodeop(res, P, f, kind):
                    if k != 'n':
                        continue
                    ek, X, t = endkind(P, st)
                    M = ('f', X, fld)
                    ent = ('init', ('i', M, key))
                    nodes = [e for e in st.tr if e[0] == 'new' and e[2] == 'Yaml::Node']
                    ws = [e for e in st.tr if e[0] == 'write' and under(M, e[1])]
                    calls = [e for e in st.tr if e[0] == 'call' and e[3] is not None and e[3][0] == M and e[1].rsplit('::', 1)[-1] in ('erase', 'clear', 'extract', 'swap')]
                    h = st.facts.get(('has', ('init', M), key))
                    if s == 'operator[]':
                        if kind != 'Map':
                            h = False
                        if h:
                            nul = any(c[0] == 'op' and c[1] == '==' and c[2] == ent and c[3] == C(0) and val for c, val in st.facts.items())
                            if nul:
                                continue
                            res.check(v == ('ref!', ('*', ent)), 'found', w, 'an existing key yields %s' % show(v))
                            res.check(not nodes and not ws and not calls, 'found-only', w, 'looking up an existing key changes the map')
                        elif h is False:
                            got = mapfinal(st, M, key)
                            res.check(len(nodes) == 1 and got == ('&', nodes[0][1]) if nodes else False, 'created', w, 'a missing key gets %d new entries%s' % (len(nodes), '' if got else ', none under the key'))
                            res.check(bool(nodes) and v == ('ref!', nodes[0][1]), 'created-returned', w, 'a missing key yields %s' % show(v))
                            res.check(len([e for e in ws if e[1][0] == 'i' or e[1] == M]) == 1 and not calls, 'created-only', w, 'looking up a missing key changes the map in another way')
                        else:
                            res.undecided('lookup', 'no test for the key')
                    else:
                        dl = [e for i, e in deletes(st)]
                        if kind != 'Map' or h is False:
                            res.check(not dl and not ws and not calls, 'erase-none', w, 'erasing a missing key changes the node')
                        elif h:
                            res.check(len(dl) == 1 and dl[0][1] == ('*', ent), 'erase-entry', w, 'erasing a key deletes %s' % show([d[1] for d in dl]))
                            er = [e for e in calls if e[1].endswith('::erase')]
                            a = er[0][4][0][1] if er else None
                            res.check(len(er) == 1 and len(calls) == 1 and a is not None and (a == key or a[0] == 'it' and a[2] == key or mentions(a, ('it', ('init', M), key, M)) or mentions(a, key)), 'erase-key', w,
                                      'erasing a key removes %s' % (show(a) if a else 'nothing'))
                            res.check(not ws, 'erase-only', w, 'erasing a key changes other entries')
                        else:
                            if dl or calls:
                                res.fail('erase-known', w, 'erase does not test that the key exists')


# ---- P11 document structure -------------------------------------------------------------------
PARSERS = {'Yaml::ParseImp::ParseSequence': SEQ, 'Yaml::ParseImp::ParseMap': MAP, 'Yaml::ParseImp::ParseScalar': 'Scalar'}


def lineread(t):
    """t is a member of the line an iterator points to -> (iterator term, member)"""
    if t[0] == 'init' and t[1][0] == 'f':
        L, n = t[1][1], t[1][2]
    elif t[0] == 'part' and len(t) == 4 and t[2] == 'f':
        b = t[1]
        L = b[3] if b[0] == 'top' and b[1] == 'loop' and len(b) == 4 else b[1] if b[0] == 'init' else None
        n = t[3]
    else:
        return None
    if L and L[0] == '*' and L[1][0] == 'init' and L[1][1][0] == '*':
        return L[1][1][1], n
    return None


def linefacts(st):
    """what the path knows of the lines: end{it}, typ{it} -> set/value, offs{(a,b)} -> a<b"""
    end, typ, nt, lt, same = {}, {}, {}, {}, {}
    for c, v in st.facts.items():
        if c[0] == 'eq':
            r = lineread(c[1])
            if r and r[1] == 'Type' and isc(v):
                typ[r[0]] = v[1]
            continue
        if c[0] != 'op' or len(c) != 4:
            continue
        a, b = c[2], c[3]
        if c[1] == '==':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'end':
                    end[y] = v
                rx, ry = lineread(x), lineread(y)
                if rx and rx[1] == 'Type':
                    if isc(y):
                        if v:
                            typ[rx[0]] = y[1]
                        else:
                            nt.setdefault(rx[0], set()).add(y[1])
                    elif ry and ry[1] == 'Type':
                        same[(rx[0], ry[0])] = v
        elif c[1] == '<':
            ra, rb = lineread(a), lineread(b)
            if ra and rb and ra[1] == rb[1] == 'Offset':
                lt[(ra[0], rb[0])] = v
    return end, typ, nt, lt, same


def p11(res, tier):
    res.rule('list and map parsers, every path of one iteration: exactly one entry is made in the given node (a map entry under exactly the text of the key line), the line is consumed, and the value is parsed into exactly that entry by the parser for the kind of the next line')
    res.rule('after an entry: end of document or a smaller indent ends the collection; a larger indent or another kind of line at the same indent is an error; the same indent and kind goes on')
    res.rule('the root is filled by the parser for the kind of the first line; lines left over are an error; a document without lines leaves the root empty')
    opq = tuple(PARSERS) + ('Yaml::ExceptionMessage',)
    for P in units(res):
        tv = {SEQ: kindval(P, 'Sequence'), MAP: kindval(P, 'Map'), 'Scalar': kindval(P, 'Scalar')}
        for name, mine in (('Yaml::ParseImp::ParseSequence', SEQ), ('Yaml::ParseImp::ParseMap', MAP)):
            for f in fns(P, name):
                w = P.where(f)
                ip = next((i for i, p in enumerate(f['p']) if 'iterator' in p['t']), None)
                if ip is None:
                    res.undecided('shape', '%s takes no iterator' % w)
                    continue
                IT = ('o', 'P%d' % ip)
                pol = NodePol(opaque=opq, inl=lambda fn: not fn.get('dtor'))
                pol.keep_facts = True
                I = Interp(P, pol)
                outs = I.run(f)
                res.stats(I)
                runs = [(st, k, v) for st, k, v in outs] + [(st, 'more', None) for u, wh, st in I.backs]
                for st, k, v in runs:
                    if not any(e[0] == 'loop+' for e in st.tr):
                        made = [e for e in st.tr if e[0] in ('child', 'pushback')]
                        res.check(not made, 'entry', w, 'an entry is made although there is no line')
                        continue
                    made = [e for e in st.tr if e[0] in ('child', 'pushback') and e[1] == ROOT]
                    rec = [e for e in st.tr if e[0] in ('call', 'call!') and e[1] in PARSERS]
                    heads = {t for e in st.tr for t in tree(e) if isinstance(t, tuple) and len(t) == 4 and t[:2] == ('top', 'loop') and t[3] == IT}
                    if len(heads) != 1:
                        res.undecided('shape', '%s: position in the lines not recognised' % w)
                        continue
                    h = heads.pop()
                    nx = ('op', '+', h, C(1))
                    end, typ, nt, lt, same = linefacts(st)
                    want = 'pushback' if mine == SEQ else 'child'
                    ok = len(made) == 1 and made[0][0] == want
                    res.check(ok, 'entry', made[-1][-1] if made else w, 'the %s parser makes %d entries for one line' % (mine, len(made)))
                    if not ok:
                        continue
                    if mine == MAP:
                        key = made[0][2]
                        res.check(lineread(key) == (h, 'Data'), 'key', made[0][3], 'the entry is stored under %s, not under the text of its line' % show(key))
                        slot = ('y', ROOT, key)
                    else:
                        slot = made[0][2]
                    cur = rec[0][4][ip][1] if rec else nx
                    res.check(cur == nx, 'consume', rec[0][5] if rec else w, 'the value is read from %s instead of the next line' % show(cur))
                    if end.get(nx):
                        res.check(k == 'x', 'no-value', w, 'an entry without a value line is accepted')
                        continue
                    t = typ.get(nx)
                    full = {tv[SEQ], tv[MAP], tv['Scalar']}
                    if t is None and not nt.get(nx, set()) >= full and rec:
                        res.fail('dispatch', rec[0][5], 'the value is parsed without testing the kind of its line')
                        continue
                    if t in full or rec:
                        good = len(rec) == 1 and tv[PARSERS[rec[0][1]]] == t
                        res.check(good, 'dispatch', rec[0][5] if rec else w, 'a value of kind %s is parsed by %s' % (t, [e[1].rsplit('::', 1)[1] for e in rec] or 'nothing'))
                        if not good:
                            continue
                        inode = next((i for i in range(len(rec[0][4])) if i != ip), 0)
                        res.check(rec[0][4][inode][0] == slot, 'slot', rec[0][5], 'the value is parsed into %s instead of the new entry' % show(rec[0][4][inode][0]))
                    t2s = {x for x in list(end) + [a for p in lt for a in p] if x not in (h, nx) and x[0] == 'top'}
                    if rec:
                        if len(t2s) > 1:
                            res.undecided('next', 'several positions after the value')
                            continue
                        t2 = next(iter(t2s), None)
                    else:
                        t2 = nx
                    if t2 is None:
                        res.fail('next', w, 'the %s parser goes on without looking at the next line' % mine) if k == 'more' else res.undecided('next', 'position after the value')
                        continue
                    less, more = lt.get((t2, h)), lt.get((h, t2))
                    ty = typ.get(t2)
                    smk = same.get((t2, h)) if ty is None else ty == tv[mine]
                    if smk is None and tv[mine] in nt.get(t2, ()):
                        smk = False
                    state = 'end' if rec and end.get(t2) else 'less' if less else 'more' if more else 'other' if smk is False else 'same' if less is False and more is False and smk else None
                    msg = {'end': 'the end of the document', 'less': 'a smaller indent', 'more': 'a larger indent', 'other': 'another kind of line at the same indent', 'same': 'the next entry'}
                    if state is None:
                        if k == 'more':
                            miss = 'a smaller indent' if less is None else 'a larger indent' if more is None else 'the kind of the next line'
                            res.fail('next', w, 'the %s parser goes on without ruling out %s' % (mine, miss))
                        elif k == 'x':
                            res.undecided('next', 'error for an unknown reason')
                        else:
                            res.fail('next', w, 'the %s parser stops although the next line may continue it' % mine)
                        continue
                    exp = {'end': 'n', 'less': 'n', 'more': 'x', 'other': 'x', 'same': 'more'}[state]
                    txt = {'n': 'ends the %s' % mine, 'x': 'is rejected', 'more': 'continues the %s' % mine}
                    res.check(k == exp, 'next', w, '%s after an entry %s' % (msg[state], txt.get(k, k)))
                res.check(any(k == 'more' for st, k, v in runs), 'goes-on', w, 'the %s parser never reads a second entry' % mine)
        for f in fns(P, 'Yaml::ParseImp::ParseRoot'):
            w = P.where(f)
            pol = NodePol(opaque=opq, inl=lambda fn: not fn.get('dtor'))
            pol.keep_facts = True
            I = Interp(P, pol)
            outs = I.run(f)
            res.stats(I)
            for st, k, v in outs:
                rec = [e for e in st.tr if e[0] in ('call', 'call!') and e[1] in PARSERS]
                first = {}
                endpos = {}
                for c, val in st.facts.items():
                    if c[0] == 'op' and c[1] == '==' and len(c) == 4:
                        for x, y in ((c[2], c[3]), (c[3], c[2])):
                            if x[0] == 'end':
                                endpos[y] = val
                begin = [t for t in endpos if t[0] == 'begin' or mentions(t, 'begin')]
                if begin and endpos[begin[0]] or any(c[0] == 'op' and c[1] == '==' and c[2][0] == 'size' and c[3] == C(0) and val for c, val in st.facts.items()):
                    res.check(k == 'n' and not rec, 'root-empty', w, 'a document without lines %s' % ('is rejected' if k != 'n' else 'is parsed'))
                    continue
                end, typ, nt, lt, same = linefacts(st)
                t = next((typ[x] for x in typ if mentions(x, 'begin')), None)
                if rec:
                    good = len(rec) == 1 and t is not None and tv[PARSERS[rec[0][1]]] == t
                    res.check(good, 'root-kind', rec[0][5], 'a document of kind %s is parsed by %s' % (t, [e[1].rsplit('::', 1)[1] for e in rec]))
                    res.check(any(a[0] == ROOT for a in rec[0][4]), 'root-node', rec[0][5], 'the document is parsed into %s' % show([a[0] for a in rec[0][4]]))
                    after = [x for x in endpos if x[0] == 'top']
                    if not after:
                        if k == 'n':
                            res.fail('root-rest', w, 'the lines left over are not checked')
                        continue
                    res.check((k == 'n') == bool(endpos[after[0]]), 'root-rest', w, 'lines left over after the document are accepted' if k == 'n' else 'a completely parsed document is rejected')
                elif t in (tv[SEQ], tv[MAP], tv['Scalar']):
                    res.fail('root-kind', w, 'a document of kind %s is not parsed' % t)


# ---- P12 reading the lines --------------------------------------------------------------------
NPOS = C(2 ** 64 - 1)


def charset(st, ch):
    """the char values the path still allows for the term ch (None: a fact that cannot be evaluated)"""
    ok = set(range(-128, 128))
    for c, v in st.facts.items():
        if not mentions(c, ch):
            continue
        if c == ('eq', ch):
            ok &= {v[1]} if isc(v) and isinstance(v[1], int) else ok
        elif c[0] == 'op' and len(c) == 4 and c[1] in ('==', '<') and (c[2] == ch and isc(c[3]) or c[3] == ch and isc(c[2])):
            k = (c[3] if c[2] == ch else c[2])[1]
            if not isinstance(k, int):
                return None
            if c[1] == '==':
                f = lambda x: x == k
            elif c[2] == ch:
                f = lambda x: x < k
            else:
                f = lambda x: k < x
            ok = {x for x in ok if f(x) == v}
        elif c[0] in ('op', 'call', 'not', 'cast'):
            return None
    return ok


def chain(t):
    """t, and the texts it was cut from"""
    out = [t]
    while t[0] == 'call' and t[1] == 'substr':
        t = t[2]
        out.append(t)
    return out


def carried(st, u):
    """the tests on this path of what the loop u remembers from earlier iterations"""
    fs = [(('op', '==', c, C(0)), not v) if c[0] == 'top' and isinstance(v, bool) else (c, v) for c, v in st.facts.items()]
    return {c: v for c, v in fs if c[0] == 'op' and isinstance(v, bool) and
            any(isinstance(t, tuple) and len(t) == 4 and t[:3] == ('top', 'loop', u) for t in tree(c)) and not mentions(c, 'extract') and
            not any(mentions(c, i) for i in inductions(st))}


def p12(res, tier):
    res.rule('every line added by the reader: its number is the count of physical lines read; its text is the line without a trailing carriage return, comment and leading blanks; its offset is the number of leading blanks')
    res.rule('every character of an added line was tested by a loop over the whole line: tab and 32..126 go on, every other value raises a ParsingException')
    res.rule('a tab among the leading blanks raises a ParsingException')
    res.rule('a line is dropped only when it is blank and no text came before, or is a document marker; the first "---" discards the lines before it, "..." and a further "---" end the document')
    good = {9} | set(range(32, 127))
    for P in units(res):
        for f in fns(P, 'Yaml::ParseImp::ReadLines'):
            w = P.where(f)
            pol = NodePol(opaque=('Yaml::ExceptionMessage', 'Yaml::FindNotCited', 'Yaml::ParseImp::ClearLines'))
            pol.keep_facts = True
            I = Interp(P, pol)
            outs = I.run(f)
            res.stats(I)
            fl = [x['n'] for x in P.records['Yaml::ReaderLine']['fields']]
            outer = None
            for st, k, v in outs:
                for e in st.tr:
                    if e[0] == 'loop+':
                        outer = e[1]
                    elif e[0] == 'in':
                        break
                if any(e[0] == 'in' for e in st.tr):
                    break
            runs = [(st, k, v) for st, k, v in outs] + [(st, 'more' if u == outer else 'inner', None) for u, wh, st in I.backs]
            okc, badc, unk, nidx = set(), set(), False, 0
            drops, keeps, firsts, seconds = [], [], [], []
            for st, k, v in runs:
                got = [e for e in st.tr if e[0] == 'in']
                if not got:
                    continue
                R = next((t for fct in st.facts for t in tree(fct) if isinstance(t, tuple) and t and t[0] == 'extract' and t[2] == got[0][2]), None)
                if R is None:
                    if k != 'x':
                        res.undecided('line', 'the line read is not tested')
                    continue
                ind = inductions(st)
                # characters tested on this path
                idx = {(c[1], c[3]) for fct in st.facts for c in tree(fct) if isinstance(c, tuple) and len(c) == 4 and c[0] == 'part' and c[2] == 'i'}
                idx |= {(c[1], c[2]) for fct in st.facts for c in tree(fct) if isinstance(c, tuple) and len(c) == 3 and c[0] == 'i'}
                loopchars = [(S, i) for S, i in idx if i in ind and R in chain(S)]
                for S, i in loopchars:
                    nidx += 1
                    ch = next(c for fct in st.facts for c in tree(fct) if isinstance(c, tuple) and len(c) > 2 and c[0] in ('part', 'i') and c[1] == S and c[-1] == i)
                    cs = charset(st, ch)
                    last = st.tr[-1]
                    if cs is None:
                        unk = True
                    elif k == 'x' and not any(e[0] == 'loop-' for e in st.tr):
                        badc |= cs
                        res.check(v[0] == 'Yaml::ParsingException', 'char-error', w, 'an invalid character raises %s' % v[0])
                    elif k != 'x' or any(e[0] == 'loop-' for e in st.tr):
                        okc |= cs
                    s0, step = ind[i]
                    if step != C(1) or not isc(s0) or not all((S, C(j)) in idx for j in range(s0[1])):
                        res.fail('char-all', w, 'the characters tested start at %s in steps of %s' % (show(ind[i][0]), show(ind[i][1])))
                lines = [e for e in st.tr if e[0] == 'new' and e[2] == 'Yaml::ReaderLine']
                # what the path knows of blanks
                fn = {c[2][2]: (c[2], val) for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[3] == NPOS and c[2][0] == 'call' and c[2][1] == 'sfind_first_not_of'}
                tab = [(c, val) for c, val in st.facts.items() if c[0] == 'op' and c[1] == '<' and c[2][0] == 'call' and c[2][1] == 'sfind_first_of' and c[2][3] == C('\t') and c[3][0] == 'call' and c[3][1] == 'sfind_first_not_of']
                for c, val in tab:
                    if val and c[2][2] == c[3][2]:
                        res.check(k == 'inner' or k == 'x' and v[0] == 'Yaml::ParsingException', 'tab', w, 'a tab among the leading blanks is accepted' if k != 'x' else 'a tab among the leading blanks raises %s' % v[0])
                if k in ('x', 'inner'):
                    continue
                marks = {c[3][1] if isc(c[3]) else c[2][1]: (c, val) for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and (c[3] in (C('---'), C('...')) or c[2] in (C('---'), C('...')))}
                mark = next((m for m, (c, val) in marks.items() if val), None)
                cleared = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::ParseImp::ClearLines']
                rest = [e for e in st.tr if e[0] == 'call' and e[1].endswith('::seekg')]
                if mark is not None:
                    res.check(not lines, 'marker', w, 'the marker %s is taken as a line' % mark)
                    if mark == '...':
                        res.check(k == 'n' and not cleared, 'marker', w, 'reading goes on after "..."')
                    elif cleared:
                        res.ok('marker')
                        firsts.append(carried(st, outer))
                    else:
                        seconds.append(carried(st, outer))
                        res.check(k == 'n', 'marker', w, 'reading goes on after a second "---"')
                        tl = [e for e in st.tr if e[0] == 'call' and e[1].endswith('::tellg')]
                        ok = bool(rest) and bool(tl) and any(a[1] == tl[-1][6] or mentions(a[1], tl[-1][6]) for a in rest[-1][4]) and st.tr.index(tl[-1]) < st.tr.index(got[0])
                        if not rest:
                            res.fail('marker-rest', w, 'a second "---" is consumed')
                        elif ok:
                            res.ok('marker-rest')
                        else:
                            res.undecided('marker-rest', 'position restored after a second "---"')
                    continue
                res.check(not cleared, 'marker', w, 'lines are discarded without a "---"')
                if not lines:
                    blank = any(val for t, val in fn.values())
                    empty = any(c[0] == 'op' and c[1] == '==' and c[3] == C('') and val and R in chain(c[2]) for c, val in st.facts.items())
                    if blank or empty:
                        drops.append(carried(st, outer))
                    elif fn:
                        txt = [c for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[3] == C('') and val]
                        (res.ok('dropped') if txt else res.fail('dropped', w, 'a line that is not blank is dropped'))
                    else:
                        res.fail('dropped', w, 'a line is dropped without testing that it is blank')
                    continue
                if len(lines) > 1:
                    res.fail('once', lines[1][4], 'one physical line is added twice')
                    continue
                H = lines[0][1]
                wl = lines[0][4]
                pushes = [e for e in st.tr if e[0] == 'write' and e[2][0] == 'pushed' and e[2][2] == ('&', H)]
                res.check(len(pushes) == 1, 'once', wl, 'the new line is added %d times' % len(pushes))
                no, off, txt = (st.mem.get(('f', H, n)) for n in ('No', 'Offset', 'Data'))
                if None in (no, off, txt):
                    res.undecided('line', 'members of the line')
                    continue
                b, d = no, 0
                while b[0] == 'op' and b[1] == '+' and isc(b[3]):
                    b, d = b[2], d + b[3][1]
                if b in ind:
                    s0, step = ind[b]
                    res.check(step == C(1) and isc(s0) and s0[1] + d == 1, 'number', wl, 'the number of the first line is %s, in steps of %s' % (show(offset(s0, C(-d)) or s0), show(step)))
                elif b[0] == 'top' and b[1] == 'loop':
                    L = b[3]
                    ends = {s2.mem.get(L) for u, wh, s2 in I.backs if u == b[2]}
                    wrong = [x for x in ends if x is not None and offset(x, b) not in (None, C(1))] + ([b] if b in ends else [])
                    if wrong:
                        res.fail('number', wl, 'the line count does not advance by one for every line read')
                    else:
                        res.undecided('number', show(no))
                elif isc(no):
                    res.fail('number', wl, 'every line gets the number %s' % no[1])
                else:
                    res.undecided('number', show(no))
                # text
                S = txt
                sub = None
                if txt[0] == 'call' and txt[1] == 'substr' and txt[3][0] == 'call' and txt[3][1].startswith('sfind_first_not_of'):
                    S, sub = txt[2], txt[3]
                    res.check(sub[2] == S and sub[3] == C(' \t') or sub[2] == S and isc(sub[3]) and set(sub[3][1]) <= set(' \t'), 'text', wl, 'leading blanks are found as %s' % show(sub))
                    res.check(off == sub, 'offset', wl, 'the offset of a line is %s' % show(off))
                    c = [val for c, val in tab if c[3] == sub and c[2][2] == S]
                    res.check(c == [False], 'tab', wl, 'a line is added without ruling out tabs among the leading blanks')
                elif txt == C(''):
                    res.check(off == C(0), 'offset', wl, 'the offset of a blank line is %s' % show(off))
                    keeps.append(carried(st, outer))
                    continue
                elif R in chain(txt):
                    res.fail('text', wl, 'the text of a line keeps its leading blanks: %s' % show(txt))
                    continue
                else:
                    res.undecided('text', show(txt))
                    continue
                # the characters
                done = [c[3][1] for c, val in st.facts.items() if c[0] == 'op' and c[1] == '<' and not val and c[3][0] == 'len' and c[3][1] in chain(txt) and
                        (c[2] == C(0) or c[2] in ind or any(offset(c[2], i) == C(1) for i in ind))]
                for c, val in st.facts.items():     # i == size() and size() == i end the loop as i < size() does
                    if c[0] == 'op' and c[1] == '==' and val:
                        for a, b in ((c[2], c[3]), (c[3], c[2])):
                            if b[0] == 'len' and b[1] in chain(txt) and (a == C(0) or a in ind or any(offset(a, i) == C(1) for i in ind)):
                                done.append(b[1])
                emp = any(c[0] == 'op' and c[1] == '==' and c[3] == C('') and val and c[2] in chain(txt) for c, val in st.facts.items())
                if done or emp or any(e[0] in ('loop=', 'loop0') for e in st.tr):
                    res.ok('char-all')
                elif loopchars:
                    res.fail('char-all', wl, 'the test of the characters ends before the end of the line')
                else:
                    res.fail('char-all', wl, 'a line is added without testing its characters')
                # carriage return and comment
                X = S
                com = [(c[2], val) for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[3] == NPOS and c[2][0] == 'call' and c[2][1] == 'Yaml::FindNotCited']
                if not com:
                    res.fail('comment', wl, 'a line is added without looking for a comment')
                    continue
                t, none = com[0]
                res.check(any(mentions(x, C(35)) or mentions(x, C('#')) for x in t[2:]), 'comment', wl, 'comments start at %s' % show(t[2:]))
                if none:
                    Y = X
                else:
                    ok = X[0] == 'call' and X[1] == 'substr' and X[3] == C(0) and X[4] == t
                    res.check(ok, 'comment', wl, 'a line with a comment becomes %s' % show(X))
                    if not ok:
                        continue
                    Y = X[2]
                res.check(mentions(t, Y), 'comment', wl, 'the comment is looked for in %s' % show(t))
                cr = None
                for c, val in st.facts.items():
                    if c[0] == 'op' and c[1] == '==' and c[3] == C(13) and mentions(c[2], R):
                        cr = val
                if cr is True:
                    res.check(Y == ('call', 'substr', R, C(0), ('op', '+', ('len', R), C(-1))), 'cr', wl, 'a line with a carriage return becomes %s' % show(Y))
                else:
                    res.check(Y == R, 'cr', wl, 'a line without a carriage return becomes %s' % show(Y))
            for a, b, key, msg in ((drops, keeps, 'dropped', 'a blank line is dropped although text came before it'), (seconds, firsts, 'marker-first', 'the first "---" may be taken for the end of the document')):
                for x in a:
                    # told apart from the other group by something the loop remembers
                    res.check(bool(b) and all(any(y.get(c) is not None and y[c] != val for c, val in x.items()) for y in b), key, w, msg)
            if nidx == 0:
                res.undecided('chars', 'no loop over the characters recognised')
            elif unk:
                res.undecided('chars', 'test of a character not recognised')
            else:
                res.check(okc <= good, 'chars', w, 'the characters %s are accepted' % sorted(okc - good)[:8])
                res.check(not (badc & good), 'chars', w, 'the characters %s are rejected' % sorted(badc & good)[:8])
                res.check(okc | badc == set(range(-128, 128)), 'chars', w, 'some characters are neither accepted nor rejected')


# ---- P13, P14 writing a document --------------------------------------------------------------
def flat(vals):
    """texts written one after another -> list of pieces, constants merged"""
    out = []
    for v in vals:
        for p in (v[1] if v[0] == 'cat' else [v]):
            if p[0] == 'call' and p[1] == 'strrep' and isc(p[2]) and isc(p[3]):
                p = C(p[3][1] * p[2][1])
            if isc(p) and isinstance(p[1], str):
                if p[1] == '':
                    continue
                if out and isc(out[-1]):
                    out[-1] = C(out[-1][1] + p[1])
                    continue
            out.append(p)
    return out


def nodekind(st, node):
    """(kind known of the node value, kinds ruled out)"""
    no = set()
    for c, v in st.facts.items():
        if c[0] == 'op' and c[1] == '==' and c[2][0] == 'op' and c[2][1] == '==' and c[3] in (C(0), C(1), FALSE, TRUE):
            v = v == bool(c[3][1])
            c = c[2]
        if c[0] == 'op' and c[1] == '==' and c[2] == ('kind', node) and isc(c[3]):
            if v:
                return c[3][1], no
            no.add(c[3][1])
    if len(no) == 3:
        return next(k for k in KINDS if k not in no), no
    return None, no


_sruns = {}


def serialize_runs(res, P):
    if id(P) in _sruns:
        r = _sruns[id(P)]
    else:
        f = fns(P, 'Yaml::SerializeLoop')[0]
        pol = NodePol(opaque=('Yaml::SerializeLoop', 'Yaml::LineFolding', 'Yaml::ShouldBeCited', 'Yaml::AddEscapeTokens'))
        pol.keep_facts = True
        I = Interp(P, pol)
        outs = I.run(f)
        r = _sruns[id(P)] = (f, outs, list(I.backs), I)
    f, outs, backs, I = r
    res.stats(I)
    pi = {}
    for i, p in enumerate(f['p']):
        t = p['t']
        n = 'node' if 'Node' in t else 'stream' if 'stream' in t else 'config' if 'Config' in t else 'flag' if 'bool' in t else 'level'
        pi[n] = i
    return f, outs, backs, pi


def subst(t, m):
    if t in m:
        return m[t]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def truth(c):
    """constant truth of a condition term"""
    if isc(c):
        return bool(c[1])
    if c[0] == 'op' and len(c) == 4:
        a, b = c[2], c[3]
        if isc(a) and isc(b):
            return a[1] == b[1] if c[1] == '==' else a[1] < b[1] if c[1] == '<' else None
        if c[1] == '<' and isc(a) and a[1] == 0 and b[0] == 'op' and b[1] == '+' and isc(b[3]) and b[3][1] > 0:
            return True          # counters do not wrap
        if c[1] == '==' and isc(b) and b[1] == 0 and a[0] == 'op' and a[1] == '+' and isc(a[3]) and a[3][1] > 0:
            return False
    return None


def p13(res, tier):
    res.rule('a list or map node: every entry that is not empty is written exactly once, in order, by one recursive call for that entry with the same stream and settings, one level deeper; empty entries write nothing; the loop ends only at the end of the entries')
    res.rule('before the entry: the indentation of the level, then "- " or the key and ": ", then a line break whenever the entry starts on a new line, which the recursive call is told; a nested block always starts on a new line')
    res.rule('a text: a single line is written whole, several lines as a block that marks whether it ends with a line break and indents every line')
    for P in units(res):
        f, outs, backs, pi = serialize_runs(res, P)
        w = P.where(f)
        if set(pi) != {'node', 'stream', 'config', 'flag', 'level'}:
            res.undecided('shape', 'parameters of %s' % w)
            continue
        N = ('o', 'P%d' % pi['node'])
        S = ('o', 'P%d' % pi['stream'])
        CF = ('o', 'P%d' % pi['config'])
        lev, flg = ('parm', pi['level']), ('parm', pi['flag'])
        pad = ('call', 'strrep', lev, C(' '))
        noind = {}
        finals = []
        for st, k, v in [(st, k, v) for st, k, v in outs] + [(st, 'more', u) for u, wh, st in backs]:
            if k == 'x':
                res.fail('total', w, 'writing a document raises %s' % v[0])
                continue
            kind, no = nodekind(st, ('init', N))
            rec = [(i, e) for i, e in enumerate(st.tr) if e[0] == 'call' and e[1] == 'Yaml::SerializeLoop']
            out = [(i, e) for i, e in enumerate(st.tr) if e[0] == 'out']
            for i, e in out:
                if e[1] != S:
                    res.undecided('stream', 'text written to %s' % show(e[1]))
            if kind in (None, 'None') and kind != 'Scalar':
                if kind == 'None' or {'Sequence', 'Map', 'Scalar'} <= no:
                    res.check(not rec and not out, 'empty', w, 'an empty node is written')
                elif rec:
                    res.fail('kind', rec[0][1][5], 'entries are written without testing the kind of the node')
                continue
            if kind in ('Sequence', 'Map'):
                ends = {c[2]: val for c, val in st.facts.items() if c[0] == 'atend' and c[1] == ('init', N)}
                cur = [t for t, val in ends.items() if not val]
                ind = inductions(st)
                if not any(e[0] == 'loop+' for e in st.tr):
                    res.check(not rec and not out, 'empty', w, 'text is written for a collection without entries')
                    continue
                it = next((t for t in cur if t in ind), None)
                if it is None:
                    if rec or out:
                        res.fail('entries', w, 'an entry is written without testing that there is one') if not cur else res.undecided('entries', 'position among the entries')
                    continue
                res.check(ind[it] == (C(0), C(1)) or ind[it][1] == C(1) and mentions(ind[it][0], 'begin'), 'entries', w, 'the entries are visited from %s in steps of %s' % (show(ind[it][0]), show(ind[it][1])))
                if k == 'n':
                    res.check(any(val and offset(t, it) == C(1) for t, val in ends.items()), 'all', w, 'writing the %s may stop before its last entry' % kind.lower())
                E = ('y', N, ('pos', it))
                ek, eno = nodekind(st, ('init', E))
                if ek == 'None':
                    res.check(not rec and not out, 'empty', w, 'text is written for an empty entry')
                    continue
                if 'None' not in eno and ek is None:
                    if rec:
                        res.fail('empty', rec[0][1][5], 'an entry is written without testing that it is not empty')
                    continue
                if len(rec) != 1:
                    res.fail('once', rec[1][1][5] if rec else w, 'an entry is written %d times' % len(rec))
                    continue
                ri, r = rec[0]
                wr = r[5]
                a = r[4]
                res.check(a[pi['node']][0] == E, 'entry', wr, 'the entry written is %s' % show(a[pi['node']][0]))
                res.check(a[pi['stream']][0] == S and a[pi['config']][0] == CF, 'same', wr, 'an entry is written to another stream or with other settings')
                if any(i > ri for i, e in out):
                    res.undecided('text', 'text after the entry')
                lv = a[pi['level']][1]
                d = offset(lv, lev)
                grow = lv[3] if lv[0] == 'op' and lv[1] == '+' and lv[2] == lev else lv[2] if lv[0] == 'op' and lv[1] == '+' and lv[3] == lev else None
                txt = flat([e[2] for i, e in out if i < ri])
                nl = bool(txt) and isc(txt[-1]) and txt[-1][1].endswith('\n')
                if kind == 'Sequence' and not nl and ek != 'Scalar' and 'Map' not in eno:
                    res.check(d == C(2), 'level', wr, 'a map after "- " is written at level %s' % show(lv))
                elif d is not None:
                    res.check(d[1] >= 1, 'level', wr, 'an entry is written at level %s' % show(lv))
                elif grow is not None and grow[0] == 'init' and under(CF, grow[1]):
                    res.check('Indent' in str(grow[1][-1]), 'level', wr, 'an entry is written at level %s' % show(lv))
                elif lv == lev or lv[0] == 'c':
                    res.fail('level', wr, 'an entry is written at level %s' % show(lv))
                else:
                    res.undecided('level', show(lv))
                fl = a[pi['flag']][1]
                if isc(fl):
                    res.check(bool(fl[1]) == nl, 'newline', wr, 'an entry %s a new line is written as if it %s' % (('on', 'did not start one') if nl else ('without', 'started one')))
                else:
                    res.undecided('newline', show(fl))
                if (kind == 'Map' and ek != 'Scalar' and 'Scalar' in eno | ({ek} if ek else set()) or kind == 'Map' and ek in ('Map', 'Sequence')) or kind == 'Sequence' and ek == 'Sequence':
                    res.check(nl, 'newline', wr, 'a nested %s starts on the line of its %s' % ((ek or 'block').lower(), 'key' if kind == 'Map' else '"-"'))
                body = txt[:]
                if nl:
                    last = body.pop()[1][:-1]
                    if last:
                        body.append(C(last))
                ided = bool(body) and body[0] == pad
                if ided:
                    body = body[1:]
                if kind == 'Sequence':
                    res.check(ided and body == [C('- ')], 'text', wr, 'a list entry starts with %s' % show(txt))
                else:
                    okk = len(body) in (2, 3) and isc(body[-1]) and body[-1][1] in (': ', '": ') and (len(body) == 2 and body[-1][1] == ': ' or len(body) == 3 and body[0] == C('"') and body[-1][1] == '": ')
                    res.check(okk, 'text', wr, 'a map entry starts with %s' % show(txt))
                    if not ided:
                        noind[tuple(sorted(((c, val) for c, val in st.facts.items() if any(isinstance(t, tuple) and t[:2] == ('top', 'loop') and len(t) == 4 and t[3][0] == 'v' and t != it for t in tree(c))), key=str))] = wr
                    else:
                        p0 = next((i for i, e in out if mentions(e[2], pad)), None)
                    if k == 'more':
                        finals.append({t: st.mem[t[3]] for c in st.facts for t in tree(c) if isinstance(t, tuple) and t[:2] == ('top', 'loop') and len(t) == 4 and t[3][0] == 'v' and t[3] in st.mem} | {('mem',): st.mem})
                continue
            # texts
            res.check(not rec, 'scalar', w, 'a text is written as if it had entries')
            if k == 'more':
                continue
            T = ('as', 'std::string', ('init', N))
            txt = flat([e[2] for i, e in out])
            e0 = next((val for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[2] in (T, ('len', T)) and c[3] in (C(''), C(0))), None)
            if e0:
                res.check(txt == [C('\n')], 'scalar-empty', w, 'an empty text is written as %s' % show(txt))
                continue
            if not txt:
                res.fail('scalar', w, 'a text is not written')
                continue
            head = next((p for p in txt if isc(p)), C(''))
            first = txt[1] if txt[0] == pad and len(txt) > 1 else txt[0]
            several = [(c, val) for c, val in st.facts.items() if c[0] == 'op' and c[1] == '<' and isc(c[2]) and c[3][0] == 'size' or c[0] == 'op' and c[1] == '<' and isc(c[3]) and c[2][0] == 'size']
            multi = None
            for c, val in several:
                # the number of lines is known to be at least 2 / at most 1
                if isc(c[2]):
                    if val and c[2][1] >= 1:
                        multi = True
                    elif not val and c[2][1] <= 1:
                        multi = False
                    else:
                        multi = 'other'
                else:
                    if not val and c[3][1] >= 2:
                        multi = True
                    elif val and c[3][1] <= 2:
                        multi = False
                    else:
                        multi = 'other'
            if any(mentions(p, T) and not mentions(p, 'extract') for p in txt):
                core = [p for p in txt if p != pad]
                q = [C('"'), T, C('"\n')]
                res.check(core in ([T, C('\n')], q) and (pad not in txt or txt[0] == pad), 'scalar', w, 'a text is written as %s' % show(txt))
                ided = txt[0] == pad
                fv = st.facts.get(flg)
                if fv is None:
                    fv = next((bool(val) for c, val in st.facts.items() if c == flg), None)
                res.check(fv is None and not ided or fv == ided, 'scalar-indent', w, 'a text %s is %sindented' % ('on a new line' if fv else 'after its key', '' if ided else 'not '))
                if several:
                    res.check(multi is False, 'scalar-lines', w, 'a text of several lines is written as one line')
            elif isc(first) and first[1][:1] in '|>':
                lines = [p for p in st.facts if p[0] == 'op' and p[1] == '==' and p[3] == C('') and p[2][0] in ('part', 'i')]
                endnl = [st.facts[p] for p in lines]
                minus = first[1].startswith(('|-', '>-'))
                if endnl and first[1][1:2] in ('-', '\n'):
                    res.check(minus != endnl[0], 'block-end', w, 'a block that %s with a line break is marked as if it did%s' % (('ends', ' not') if endnl[0] else ('does not end', '')))
                if first[1][0] == '|':
                    res.check(multi is True or not several, 'block-kind', w, 'a single line is written as a literal block')
                else:
                    res.check(multi is False or not several, 'block-kind', w, 'several lines are written as a folded block')
                res.check('\n' in first[1], 'block-head', w, 'the header of a block is %r' % first[1])
                lp = [i for i, e in enumerate(st.tr) if e[0] == 'loop+' and i > out[0][0]]
                if lp and out[-1][0] > lp[-1]:
                    body = flat([e[2] for i, e in out if i > lp[-1]])
                    res.check(len(body) == 3 and body[0] == pad and body[2] == C('\n'), 'block-line', w, 'a line of a block is written as %s' % show(body))
            else:
                res.undecided('scalar', show(txt))
        for cond, wr in noind.items():
            # written without indentation: never for a second entry
            for m in finals:
                mem = m[('mem',)]
                bad = True
                for c, val in cond:
                    mm = {t: mem[t[3]] for t in tree(c) if isinstance(t, tuple) and t[:2] == ('top', 'loop') and len(t) == 4 and t[3] in mem}
                    x = truth(subst(c, mm))
                    if x is not None and x != val:
                        bad = False
                res.check(not bad, 'indent', wr, 'a second entry of a map may be written without indentation')


MUSTQUOTE = '":#-|>'


def p14(res, tier):
    res.rule('a key is written after escaping backslashes and quotes, backslashes first, and between quotes whenever it holds a character that would be misread (%s)' % ' '.join(MUSTQUOTE))
    res.rule('escaping puts one backslash before every occurrence of each given character; unescaping removes exactly the first of every such pair and keeps the other')
    res.rule('a separator is reported only when it lies before the next quoted part or behind the last one it was compared with')
    res.rule('a text written between quotes has its quotes and backslashes escaped')
    for P in units(res):
        findquote(res, P)
        f, outs, backs, pi = serialize_runs(res, P)
        w = P.where(f)
        N = ('o', 'P%d' % pi['node'])
        keyed = 0
        for st, k, v in [(st, k, v) for st, k, v in outs] + [(st, 'more', u) for u, wh, st in backs]:
            if k == 'x':
                continue
            kind, no = nodekind(st, ('init', N))
            rec = [(i, e) for i, e in enumerate(st.tr) if e[0] == 'call' and e[1] == 'Yaml::SerializeLoop']
            cite = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::ShouldBeCited']
            esc = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::AddEscapeTokens']
            txt = flat([e[2] for e in st.tr if e[0] == 'out'])
            cited = None
            for c, val in st.facts.items():
                if c[0] == 'call' and c[1] == 'Yaml::ShouldBeCited':
                    cited = val
                elif c[0] == 'op' and c[1] == '==' and c[2][0] == 'call' and c[2][1] == 'Yaml::ShouldBeCited' and isc(c[3]):
                    cited = val == bool(c[3][1])
            if kind == 'Map' and rec:
                keyed += 1
                wr = rec[0][1][5]
                tok = [a[1][1] for e in esc for a in e[4] if isc(a[1]) and isinstance(a[1][1], str)]
                src = [e for e in esc if any(mentions(a[1], 'ykey') for a in e[4] if a[1] is not None)]
                if not esc:
                    res.fail('key-escape', wr, 'a key is written without escaping it')
                elif not src:
                    res.undecided('key-escape', 'text escaped')
                else:
                    allt = ''.join(tok)
                    res.check('"' in allt and '\\' in allt and allt.index('\\') < allt.index('"'), 'key-escape', src[0][5], 'a key is escaped for %r' % allt)
                    raw = [p for p in txt if mentions(p, 'ykey')]
                    res.check(not raw, 'key-escape', wr, 'the key is written as it was before escaping')
                qd = any(isc(p) and p[1].endswith('": ') or isc(p) and p[1].endswith('": \n') for p in txt)
                if cited is None:
                    res.check(qd, 'key-quote', wr, 'a key is written without testing whether it needs quotes')
                else:
                    res.check(qd == cited, 'key-quote', wr, 'a key that %s quotes is written %s them' % ('needs' if cited else 'needs no', 'with' if qd else 'without'))
            elif kind == 'Scalar' and not rec and k == 'n':
                T = ('as', 'std::string', ('init', N))
                if not any(mentions(x, T) and not mentions(x, 'extract') for x in txt) and not (cite and any(isc(p) and p[1].startswith('"') for p in txt)):
                    continue
                qd = any(isc(p) and p[1].startswith('"\n') or isc(p) and p[1] == '"\n' for p in txt)
                if cited is None:
                    res.check(qd, 'value-quote', w, 'a text is written without testing whether it needs quotes')
                else:
                    res.check(qd == cited, 'value-quote', w, 'a text that %s quotes is written %s them' % ('needs' if cited else 'needs no', 'with' if qd else 'without'))
                if qd:
                    res.check(bool(esc) and not mentions(tuple(txt), T), 'value-escape', w, 'a text between quotes is written without escaping the quotes and backslashes in it')
        if not keyed:
            res.undecided('keys', 'no key is written')
        for g in fns(P, 'Yaml::ShouldBeCited'):
            I = Interp(P, Pol())
            sets = []
            for st, k, v in I.run(g):
                # quotes are needed when one of the characters is found
                for t in [v] + list(st.facts):
                    for x in tree(t):
                        if isinstance(x, tuple) and len(x) == 5 and x[0] == 'call' and x[1] in ('sfind_first_of', 'sfind') and isc(x[3]) and x[2] == ('init', ROOT):
                            sets.append(x)
                neg = v[0] == 'not'
                core = v[1] if neg else v
                if core[0] == 'op' and core[1] == '==' and core[3] == NPOS:
                    res.check(neg, 'quote-when', P.where(g), 'texts without special characters are quoted and the others are not')
            res.stats(I)
            chars = ''.join(str(x[3][1]) if isinstance(x[3][1], str) else chr(x[3][1]) for x in sets)
            if not sets:
                res.undecided('quote-set', 'test for special characters not recognised')
            else:
                miss = [c for c in MUSTQUOTE if c not in chars]
                res.check(not miss, 'quote-set', P.where(g), 'texts with %s are written without quotes' % ' '.join(miss))
        for g in fns(P, 'Yaml::AddEscapeTokens'):
            escape_rule(res, P, g, True)
        for g in fns(P, 'Yaml::RemoveAllEscapeTokens'):
            escape_rule(res, P, g, False)
        for g in fns(P, 'Yaml::FindNotCited'):
            if len(g['p']) == 3:
                notcited(res, P, g)


def one(t):
    return t[3] if t[0] == 'call' and t[1] == 'strrep' and t[2] == C(1) else t


def escape_rule(res, P, g, add):
    w = P.where(g)
    pol = Pol()
    pol.keep_facts = True
    I = Interp(P, pol)
    outs = I.run(g)
    res.stats(I)
    n = 0
    for st, k, v in list(outs) + [(st, 'more', u) for u, wh, st in I.backs]:
        if k == 'x':
            res.fail('escape', w, 'raises %s' % v[0])
            continue
        rep = [(i, e) for i, e in enumerate(st.tr) if e[0] == 'call' and e[1].endswith('basic_string::replace')]
        finds = sorted({t for c in st.facts for t in tree(c) if isinstance(t, tuple) and len(t) == 5 and t[0] == 'call' and t[1] in ('sfind_first_of', 'sfind')}, key=str)
        for i, e in rep:
            n += 1
            a = [x[1] for x in e[4]]
            if len(a) != 3 or not isc(a[1]):
                res.undecided('escape', show(a))
                continue
            pos, cnt, txt = a
            pieces = [one(p) for p in (txt[1] if txt[0] == 'cat' else [txt])]
            if add:
                ok = cnt == C(1) and len(pieces) == 2 and pieces[0] == C('\\') and not isc(pieces[1])
                res.check(ok, 'escape', e[5], 'escaping replaces %s characters by %s' % (cnt[1], show(pieces)))
            else:
                nxt = pieces[0] if len(pieces) == 1 else None
                while nxt is not None and nxt[0] == 'chr':
                    nxt = nxt[1]
                ix = nxt[-1] if nxt is not None and nxt[0] in ('part', 'i') else None
                res.check(cnt == C(2) and ix == ('op', '+', pos, C(1)), 'unescape', e[5], 'unescaping replaces %s characters by %s' % (cnt[1], show(pieces)))
            step = C(2 if add else 1)
            again = [t for t in finds if t[4] not in (C(0),) and (t[4] == pos or offset(t[4], pos) is not None)]
            if not again:
                res.undecided('escape-next', 'next position')
            for t in again:
                d = C(0) if t[4] == pos else offset(t[4], pos)
                res.check(d == step, 'escape-next' if add else 'unescape-next', e[5], 'after %sescaping the search goes on %s characters later' % ('' if add else 'un', d[1]))
    for st, k, v in outs:
        if k == 'n' and any(e[0] == 'loop-' for e in st.tr):
            last = [val for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[3] == NPOS and val]
            edge = [val for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and mentions(c, 'len') and val]
            res.check(bool(last) or bool(edge), 'escape-all', w, 'the search ends before the end of the text')
    if not n:
        res.undecided('escape', 'replacement not recognised in %s' % w)


def notcited(res, P, g):
    w = P.where(g)
    pol = Pol(opaque=('Yaml::FindQuote',))
    pol.keep_facts = True
    I = Interp(P, pol)
    outs = I.run(g)
    res.stats(I)

    def quote(t, end):
        return t[0] == 'part' and t[-1] == end or t[0] == 'init' and t[1][0] == 'f' and t[1][2] == end

    def outside(st, t):
        for c, val in st.facts.items():
            if c[0] == 'op' and c[1] == '<':
                if val and c[2] == t and (quote(c[3], 'first') or c[3][0] == 'top'):
                    return True
                if val and c[3] == t and (quote(c[2], 'second') or c[2][0] == 'top'):
                    return True
        return False

    for st, k, v in outs:
        if k != 'n':
            res.fail('find', w, 'raises %s' % v[0])
            continue
        if v == NPOS:
            ok = any(c[0] == 'op' and c[1] == '==' and val and (c[3] == NPOS or mentions(c, 'len')) for c, val in st.facts.items())
            res.check(ok, 'find-none', w, 'a separator is reported missing although there may be one')
            continue
        noq = any(val for c, val in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[2][0] == 'size' and c[3] == C(0)) or \
            any(not val for c, val in st.facts.items() if c[0] == 'op' and c[1] == '<' and c[2] == C(0) and c[3][0] == 'size')
        fq = [val for c, val in st.facts.items() if c[0] == 'call' and c[1] == 'Yaml::FindQuote']
        if (noq or fq and not any(fq)) and v[0] == 'call':
            res.ok('find-unquoted')
            continue
        if v[0] not in ('call', 'top'):
            res.undecided('find', show(v))
            continue
        res.check(outside(st, v), 'find-outside', w, 'a separator inside a quoted text may be reported')


def findquote(res, P):
    """the helper that finds the next quoted part"""
    for f in fns(P, 'Yaml::FindQuote'):
        w = P.where(f)

        class QP(Pol):
            keep_facts = True
            max_unroll = 0
        I = Interp(P, QP())
        outs = I.run(f)
        res.stats(I)
        start, end = ('o', 'P1'), ('o', 'P2')
        for st, k, v in outs + [(s, 'more', u) for u, wh, s in I.backs]:
            if k == 'x':
                res.fail('quote-find', w, 'raises %s' % v[0])
                continue
            lp = next((i for i, e in enumerate(st.tr) if e[0] == 'loop+'), None)
            if lp is None:
                continue
            ws = [e for e in st.tr[lp:] if e[0] == 'write' and e[1] in (start, end)]
            # the position examined on this turn and what is known about it
            q = next((c[2][-1] if c[2][0] == 'part' else c[2][1][-1] for c in st.facts if c[0] == 'op' and c[1] == '==' and c[3] == C(34) and c[2][0] in ('part', 'init')), None)
            if q is not None and q[0] == 'call' and q[1].startswith('sfind_first') and len(q) > 4 and q[4][0] == 'op':
                res.check(q[4][2][0] != 'top' or isc(q[4][3]) and q[4][3][1] == 0, 'quote-find', w, 'the search for a quoted part skips characters')
            isq = next((x for c, x in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[3] == C(34) and isinstance(x, bool)), None)
            esc = next((x for c, x in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[3] == C(92) and isinstance(x, bool)), None)
            zero = any(x is True and c[0] == 'op' and c[1] == '==' and c[3] == C(0) and c[2] == q for c, x in st.facts.items())
            for e in ws:
                what = 'begins' if e[1] == start else 'ends'
                if e[2] != q:
                    res.fail('quote-find', e[3], 'a quoted part %s at %s' % (what, show(e[2]))) if q is not None and offset(e[2], q) not in (None, C(0)) else res.undecided('quote-find', show(e[2]))
                    continue
                res.check(isq is True, 'quote-find', e[3], 'a quoted part %s at a character that is no quote' % what)
                res.check(esc is False or zero, 'quote-find', e[3], 'a quoted part %s at an escaped quote' % what)
            if v == TRUE and k == 'n':
                res.check([e[1] for e in ws] == [end], 'quote-find', w, 'a quoted part is reported without %s' % ('its end' if end not in [e[1] for e in ws] else 'having begun before'))
            if isq and (esc is False or zero):
                res.check(len(ws) == 1, 'quote-find', w, 'a quote that is not escaped is overlooked')
            if k == 'n' and v == FALSE:
                stop = any(x is True and c[0] == 'op' and c[1] == '==' and (c[3] == NPOS or c[2][0] == 'len' and q is not None and offset(c[3], q) == C(1) or c[3][0] == 'len' and q is not None and offset(c[2], q) == C(1)) for c, x in st.facts.items())
                for c, x in st.facts.items():
                    if c[0] == 'op' and c[1] == '<' and q is not None:
                        if c[3][0] == 'len' and x is False and offset(c[2], q) is not None:
                            stop = stop or offset(c[2], q)[1] <= 1
                        elif c[2][0] == 'len' and x is True and offset(c[3], q) is not None:
                            stop = stop or offset(c[3], q)[1] <= 2
                res.check(stop, 'quote-find', w, 'the search for a quoted part ends before the end of the text')
            if k == 'more' and q is not None:
                nxt = [x for L, x in st.mem.items() if L[0] == 'v' and isinstance(x, tuple) and offset(x, q) is not None]
                nxt = [offset(x, q) for x in nxt if x != q]
                if nxt:
                    res.check(nxt[0] == C(1), 'quote-find', w, 'the search for a quoted part skips characters')


def p15(res, tier):
    res.rule('As<T>() of a number reads one value of that type from exactly the text of the node, into a variable that has a value if nothing can be read')
    res.rule('As<T>(default) returns the default exactly when reading fails (numbers) or the text is empty (texts, switches), and the value otherwise')
    res.rule('a switch is true exactly for true, yes and 1 after folding to lower case; a text is returned unchanged')
    YES = {'true', 'yes', '1'}
    for src, fl in COPIES:
        if not os.path.exists(src):
            continue
        P = facts.facts(facts.VERIF + '/witness/yaml_as.cpp', fl, [facts.REPO, facts.VERIF + '/witness'])
        res.unit(P)
        for f in P.funcs.values():
            if not f['n'].startswith('witness::as_'):
                continue
            what = f['n'][12:]
            kind, dflt = what.split('_')[0], what.endswith('_or')

            class AP(Pol):
                keep_facts = True
            I = Interp(P, AP(opaque=['Yaml::Node::AsString']))
            outs = I.run(f)
            res.stats(I)
            w = '%s/Yaml.hpp: Yaml::Node::As<%s>%s' % (os.path.relpath(os.path.dirname(src), facts.REPO).replace('/src/Y', '/Y'), kind, ' with a default' if dflt else '')
            T = ('init', ('*', ('call', 'Yaml::Node::AsString', (), ('init', ROOT), ())))
            DEF = ('init', ('o', 'P1'))
            for st, k, v in outs:
                if k == 'x':
                    res.fail('total', w, 'converting a node raises %s' % v[0])
                    continue
                ins = [e for e in st.tr if e[0] == 'in']
                text = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::Node::AsString']
                if any(e[3] is None or e[3][0] != ROOT for e in text):
                    res.fail('node', text[0][5], 'the text of another node is converted')
                    continue
                empty = None
                for c, val in st.facts.items():
                    if c[0] == 'op' and c[1] == '==' and c[2] in (T, ('len', T)) and c[3] in (C(''), C(0)):
                        empty = val
                    elif c[0] == 'op' and c[1] == '<' and c[2] == C(0) and c[3] == ('len', T):
                        empty = not val
                if kind in ('int', 'double'):
                    bad = None
                    for c, val in st.facts.items():
                        n = c[1].rsplit('::', 1)[-1] if c[0] == 'call' and isinstance(c[1], str) and c[1].startswith('std::basic_ios') else None
                        if n in ('fail', 'operator!'):
                            bad = val
                        elif n == 'operator bool':
                            bad = not val
                        elif n in ('eof', 'good', 'bad'):
                            bad = n
                    if v == DEF and dflt:
                        if empty and not ins:
                            res.ok('default')
                        elif bad is None or bad in ('eof', 'good', 'bad'):
                            res.fail('default', w, 'the default is returned %s' % ('without testing that reading failed' if bad is None else 'by testing %s() only' % bad))
                        else:
                            res.check(bad is True, 'default', w, 'the default is returned although the text could be read')
                    elif v[0] == 'extract':
                        res.check(v[2] == ('ss', T), 'text', w, 'the value is read from %s' % show(v[2]))
                        res.check(v[4].replace('&', '').strip() == kind, 'type', w, 'a value of type %s is read' % v[4])
                        res.check(len(ins) == 1, 'one', w, '%d values are read from the text' % len(ins))
                        if dflt:
                            res.check(bad is False, 'default', w, 'what was read is returned %s' % ('without testing that reading succeeded' if bad is None else 'although reading may have failed'))
                        elif bad is not False:
                            res.check(ins[0][5] is not None and ins[0][5][0] != 'uninit', 'initialised', ins[0][4], 'when the text is no number the result has no value')
                    elif isc(v) and not dflt and (empty or bad is True):
                        res.check(v[1] == 0, 'zero', w, 'a text that is no number gives %r' % v[1])
                    elif isc(v):
                        res.fail('value', w, 'the result is %r whatever the text' % v[1])
                    elif v == DEF:
                        res.fail('default', w, 'the default is returned')
                    elif v[0] == 'uninit':
                        res.fail('initialised', w, 'the result has no value')
                    else:
                        res.undecided('value', show(v))
                elif kind == 'string':
                    if v == DEF and dflt:
                        res.check(empty is True, 'default', w, 'the default is returned for a text that is not empty')
                    elif v == T:
                        res.check(not dflt or empty is False, 'default', w, 'an empty text is returned instead of the default')
                    elif isc(v) and v[1] == '' and not dflt and empty:
                        res.ok('default')
                    elif isc(v):
                        res.fail('value', w, 'the result is %r whatever the text' % v[1])
                    elif v[0] in ('cut', 'extract') or v[0] == 'call' and v[1] == 'substr':
                        res.fail('value', w, 'only a part of the text is returned')
                    else:
                        res.undecided('value', show(v))
                else:
                    if v == DEF and dflt:
                        res.check(empty is True, 'default', w, 'the default is returned for a text that is not empty')
                        continue
                    if dflt and empty is not False:
                        cmp_ = any(c[0] == 'op' and c[1] == '==' and val and c[3][0] == 'c' and c[3][1] in YES for c, val in st.facts.items())
                        if not cmp_:
                            res.fail('default', w, 'an empty text does not give the default')
                    if ins:
                        res.fail('value', w, 'a switch is read as %s' % ins[0][1])
                        continue
                    fold = [e for e in st.tr if e[0] in ('call', 'call!') and ('tolower' in str(e) or 'to_lower' in str(e))]
                    other = [e for e in st.tr if e[0] in ('call', 'loop+', 'loop0') and e not in text and e not in fold]
                    same = {}
                    for c, val in st.facts.items():
                        if c[0] == 'op' and c[1] == '==' and isc(c[3]) and isinstance(c[3][1], str) and c[3][1]:
                            same[c[3][1]] = val
                            if not fold and not any(ch[0] in ('loop+', 'loop0') for ch in st.tr) and not other and c[2] == T:
                                res.fail('case', w, 'the text is compared with %s without folding its case' % c[3][1])
                    if not isc(v):
                        if v[0] == 'op' and v[1] == '==' and isc(v[3]) and v[3][1] in YES and all(same.get(y) is False for y in YES - {v[3][1]}):
                            res.ok('switch')
                        else:
                            res.undecided('switch', show(v))
                        continue
                    hit = {t for t, val in same.items() if val}
                    if v[1]:
                        res.check(bool(hit) and hit <= YES, 'switch', w, 'a text is true %s' % ('for ' + ', '.join(sorted(hit - YES)) if hit else 'without being compared'))
                    elif empty:
                        res.ok('switch')
                    elif hit:
                        res.fail('switch', w, '%s is false' % ', '.join(sorted(hit)))
                    elif other:
                        res.undecided('switch', 'the comparisons made')
                    else:
                        res.check(all(same.get(y) is False for y in YES), 'switch', w, 'a text is false without being compared with %s' % ', '.join(sorted(y for y in YES if y not in same)))


def contradiction(st):
    """the path needs a value to be neither of its two possibilities (literal nor folded)"""
    z = [c for c, x in st.facts.items() if x is True and c[0] == 'op' and c[1] == '==' and c[3] == C(0) and c[2][0] == 'op' and c[2][1] == '&']
    return len(z) >= 2


def p16(res, tier):
    res.rule('texts over several lines, every path of one turn of each loop: the text of the current line is appended exactly once (a plain text without the blanks at its end, a block whole and after the indent it has beyond the first line); plain lines are joined by one blank, folded lines by one blank, literal lines by a line break; a blank line becomes a line break')
    res.rule('the loops go from line to line and end only at the end of the lines or at a line of another kind; a block line with a smaller indent than the first is an error')
    res.rule('quotes are removed exactly from a text that is not a block and starts with one, after the quotes have been validated; a block ends with a line break exactly when its header says so')
    res.rule('block headers: | is literal, > is folded, both keep the line break at the end unless - follows; anything else behind them is an error, anything else is no header')
    for P in units(res):
        LIT, FOLD, NL = (1 << enumval(P, 'Yaml::ReaderLine::eFlag', n) for n in ('LiteralScalarFlag', 'FoldedScalarFlag', 'ScalarNewlineFlag'))
        hdr = 'Yaml::ParseImp::IsBlockScalar'
        f = fns(P, 'Yaml::ParseImp::ParseScalar')[0]
        w = P.where(f)

        class SP(Pol):
            keep_facts = True
            max_unroll = 0
            max_states = 20000
        I = Interp(P, SP(opaque=(hdr, 'Yaml::ValidateQuote', 'Yaml::Node::operator=', 'Yaml::ExceptionMessage', 'Yaml::ParsingException::ParsingException')))
        outs = I.run(f)
        res.stats(I)
        IT = ('o', 'P1')

        def flag(st, bit):
            for c, v in st.facts.items():
                if c[0] == 'op' and c[1] == '==' and c[3] == C(0) and c[2][0] == 'op' and c[2][1] == '&' and isc(c[2][3]) and c[2][3][1] == bit and isinstance(v, bool):
                    return not v
            return None

        def isdata(t):
            return isinstance(t, tuple) and (t[0] == 'part' and t[-1] == 'Data' or t[0] == 'init' and t[1][0] == 'f' and t[1][-1] == 'Data')
        seen = set()
        for st, k, v in outs + [(s, 'more', u) for u, wh, s in I.backs]:
            if k == 'exit':
                continue
            block = None
            for c, val in st.facts.items():
                if c[0] == 'call' and c[1] == hdr and isinstance(val, bool):
                    block = val
            asg = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::Node::operator=' and e[3] is not None and e[3][0] == ROOT]
            val_ = [e for e in st.tr if e[0] == 'call' and e[1] == 'Yaml::ValidateQuote']
            loop = next((e for e in reversed(st.tr) if e[0] in ('loop+',)), None)
            if k == 'x':
                res.check(v[0] == 'Yaml::ParsingException', 'error', w, 'a text raises %s' % v[0])
                continue
            if block is None:
                res.undecided('block', 'whether the text is a block')
                continue
            if k == 'n':
                if not asg:
                    res.check(block, 'assigned', w, 'a text is not stored in the node')
                    continue
                res.check(len(asg) == 1, 'assigned', asg[-1][5], 'a text is stored %d times' % len(asg))
                V = asg[0][4][0][1]
                cut = V[0] == 'call' and V[1] == 'substr'
                D = V[2] if cut else V
                q = [c[3][1] for c, x in st.facts.items() if x is True and c[0] == 'op' and c[1] == '==' and isc(c[3]) and c[3][1] in (34, 39) and c[2][0] == 'part' and c[2][1] == D]
                if cut:
                    res.check(not block, 'quotes', asg[0][5], 'the first and last character of a block are removed')
                    res.check(bool(q), 'quotes', asg[0][5], 'the first and last character of a text without quotes are removed')
                    ln = V[4]
                    if len(V) > 4 and V[3] == C(1) and ln == ('op', '+', ('len', D), C(-2)):
                        res.ok('quotes')
                    elif isc(V[3]) and (V[3][1] != 1 or len(V) > 4 and offset(V[4], ('len', D)) not in (None, C(-2))):
                        res.fail('quotes', asg[0][5], 'more or less than the two quotes are removed')
                    else:
                        res.undecided('quotes', show(V))
                elif not block:
                    res.check(not q, 'quotes', asg[0][5], 'the quotes around a text are kept')
                    noq = {c[3][1] for c, x in st.facts.items() if x is False and c[0] == 'op' and c[1] == '==' and isc(c[3]) and c[2][0] == 'part' and c[2][1] == D}
                    emp = any(x is True and c == ('op', '==', D, C('')) for c, x in st.facts.items()) or isc(D)
                    if not emp and not q:
                        for ch in {34, 39} - noq:
                            res.fail('quotes', asg[0][5], 'a text that may start with %s is stored with its quotes' % chr(ch))
                if not block:
                    okv = any(mentions(c, 'Yaml::ValidateQuote') and (x is False if c[0] == 'op' else x is True) for c, x in st.facts.items() if isinstance(x, bool))
                    res.check(okv, 'validated', w, 'a text is stored without validating its quotes')
                if block and flag(st, NL) is not None or block and loop is not None:
                    ps = flat([D])
                    if ps and any(isdata(p) for p in ps):
                        last = isc(ps[-1]) and ps[-1][1].endswith('\n') and not isdata(ps[-1])
                        nl = flag(st, NL)
                        if nl is None:
                            nl2 = flag(st, LIT)
                            res.fail('block-end', w, 'the end of a block does not depend on its header') if not mentions(tuple(st.facts), 'top') else res.undecided('block-end', 'the last line of a block')
                        else:
                            res.check(last == nl, 'block-end', w, 'a block that %s with a line break is stored %s one' % (('ends', 'without') if nl else ('does not end', 'with')))
                            seen.add('end')
            if loop is None:
                continue
            u = loop[1]
            ind = inductions(st)
            its = [t for t in ind if t[-1] == IT and t[2] == u]
            for t in its:
                res.check(ind[t][1] == C(1), 'next', loop[2], 'the lines are visited in steps of %s' % (show(ind[t][1]) if ind[t][1] else '?'))
            acc = None
            for L, x in (list(st.mem.items()) if k == 'more' else [(None, asg[0][4][0][1])] if asg else []):
                if not isinstance(x, tuple) or not x:
                    continue
                if L is not None and L[0] == 'v' and x == ('top', 'loop', u, L):
                    x = I.read(st, L)
                if x[0] == 'call' and x[1] == 'substr' and k == 'n':
                    x = x[2]
                parts = x[1] if x[0] == 'cat' else (x,)
                b = parts[0]
                base = b[1] if b[0] == 'rec' else b
                if base[0] == 'top' and base[1:3] == ('loop', u) and (L is None or base[3] == L) and (L is None or L[0] in ('v', 'o')) and 'str' not in str(L and L[0]):
                    if x[0] == 'cat' or b[0] == 'rec' or mentions(x, 'Data'):
                        acc = (b, list(flat(parts[1:])), b[0] == 'rec')
            if acc is None:
                if k == 'more':
                    # nothing was appended: only right when the path is impossible
                    res.check(contradiction(st), 'line', loop[2], 'a line is left out of the text')
                continue
            b, ps, rep = acc
            dat = [i for i, p in enumerate(ps) if isdata(p) or p[0] == 'call' and p[1] == 'substr' and isdata(p[2])]
            lnb = [(c, x) for c, x in st.facts.items() if c[0] == 'op' and c[1] == '==' and c[3] == NPOS and c[2][0] == 'call' and c[2][1] == 'sfind_last_not_of' and isinstance(x, bool) and mentions(c, u)]
            blank = lnb[0][1] if lnb else None
            if blank:
                seen.add('blank')
                res.check(not dat, 'blank', loop[2], 'a blank line adds its text')
                t = ''.join(p[1] for p in ps if isc(p))
                res.check(rep and not ps or t.startswith('\n') and len(ps) == 1, 'blank', loop[2], 'a blank line adds %r' % t)
                continue
            if len(dat) != 1:
                res.fail('line', loop[2], 'the text of a line is added %d times' % len(dat)) if not contradiction(st) else None
                continue
            d = ps[dat[0]]
            after = ''.join(p[1] for p in ps[dat[0] + 1:] if isc(p))
            before = ps[:dat[0]]
            if not isdata(d):
                full = isdata(d[2]) and d[3] == C(0) and offset(d[4], ('call', 'sfind_last_not_of', d[2], C(' \t'), NPOS)) == C(1)
                if full:
                    res.ok('line')
                elif d[3] != C(0) or isc(d[4]) or offset(d[4], ('call', 'sfind_last_not_of', d[2], C(' \t'), NPOS)) is not None:
                    res.fail('line', loop[2], 'a line adds only a part of its text')
                else:
                    res.undecided('line', show(d))
            if k == 'more':
                if not block:
                    seen.add('plain')
                    res.check(after == ' ', 'join', loop[2], 'the lines of a plain text are joined by %r' % after)
                    res.check(not before, 'join', loop[2], 'a plain line adds %s before its text' % show(tuple(before)))
                else:
                    fo, li = flag(st, FOLD), flag(st, LIT)
                    if fo:
                        seen.add('folded')
                        res.check(after == ' ', 'join', loop[2], 'the lines of a folded block are joined by %r' % after)
                    elif li:
                        seen.add('literal')
                        res.check(after == '\n', 'join', loop[2], 'the lines of a literal block are joined by %r' % after)
            if block:
                pad = [p for p in before if p[0] == 'call' and p[1] == 'strrep']
                eqs = [x for c, x in st.facts.items() if isinstance(x, bool) and c[0] == 'op' and c[1] == '==' and "'Offset'" in str(c[2]) and "'Offset'" in str(c[3]) and 'loop' in str(c)]
                eqo = any(eqs)
                sep = ''.join(p[1] if isc(p) else '?' for p in before if p not in pad)
                if rep:
                    sub = [x for x in b[2:] if mentions(x, '\n') or mentions(x, 10)] if len(b) > 2 else []
                    sep = '\n' + sep if sub else sep + '?'
                fo = flag(st, FOLD)
                if fo and eqs and not eqs[0] and not contradiction(st):
                    res.check(sep == '\n' or '?' in sep, 'deeper', loop[2], 'a more deeply indented line of a folded block is joined to the line before')
                    if '?' in sep:
                        res.undecided('deeper', show(tuple(before)))
                elif eqo and not contradiction(st):
                    res.check(not sep or '?' in sep, 'own-line', loop[2], 'a block line adds %r before its text' % sep)
                if not pad:
                    res.check(eqo, 'indent', loop[2], 'the indent of a block line is dropped')
                else:
                    a = pad[0][2]
                    okp = a[0] == 'op' and a[1] == '-' and "'Offset'" in str(a[2]) and "'loop'" in str(a[2]) and "'Offset'" in str(a[3]) and pad[0][3] == C(' ')
                    if okp:
                        res.ok('indent')
                        lt = [x for c, x in st.facts.items() if c[0] == 'op' and c[1] == '<' and c[2] == a[2] and c[3] == a[3]]
                        res.check(bool(lt) and lt[0] is False, 'indent', loop[2], 'a block line with a smaller indent than the first is not rejected')
                    else:
                        res.undecided('indent', show(a))
            if k == 'n' and its:
                t = its[0]
                E = ('op', '+', t, C(1))
                ends = [x for c, x in st.facts.items() if c[0] == 'op' and c[1] == '==' and 'end' in (c[2][0], c[3][0]) and (mentions(c, E) or mentions(c, t))]
                typ = [x for c, x in st.facts.items() if c[0] == 'op' and c[1] == '==' and "'Type'" in str(c[2]) and mentions(c, t)]
                res.check(any(ends) or any(x is False for x in typ), 'all', loop[2], 'a text ends before its last line')
        for need in ('plain', 'folded', 'literal', 'blank', 'end'):
            if need not in seen:
                res.undecided('reached', 'no path for %s texts' % need)
        # headers
        for f in fns(P, hdr):
            w = P.where(f)
            I = Interp(P, SP(opaque=('Yaml::ExceptionMessage', 'Yaml::ParsingException::ParsingException')))
            outs = I.run(f)
            res.stats(I)
            T = ('init', ('o', 'P0'))
            out = ('o', 'P2')
            for st, k, v in outs:
                first, second, long_ = set(range(-128, 128)), set(range(-128, 128)), None
                empty = False
                for c, x in st.facts.items():
                    if c[0] != 'op' or not isinstance(x, bool):
                        continue
                    if c[1] == '==' and c[2] == T and c[3] == C(''):
                        empty = empty or x
                    elif c[1] == '<' and c[2] == ('len', T) and isc(c[3]):
                        long_ = (not x) if c[3][1] == 2 else long_
                    elif c[1] == '<' and c[3] == ('len', T) and isc(c[2]):
                        long_ = x if c[2][1] == 1 else long_
                    elif c[1] == '==' and c[2] == ('len', T) and c[3] == C(1):
                        long_ = not x
                    elif c[1] == '==' and isc(c[3]) and isinstance(c[3][1], int):
                        pos = c[2]
                        ix = pos[-1] if pos[0] == 'part' else pos[1][-1] if pos[0] == 'init' and isinstance(pos[1], tuple) else None
                        ix = ix[1] if isinstance(ix, tuple) and isc(ix) else ix
                        sel = first if ix == 0 else second if ix == 1 else None
                        if sel is not None:
                            if x:
                                sel &= {c[3][1]}
                            else:
                                sel.discard(c[3][1])
                if empty:
                    res.check(k == 'n' and v == FALSE, 'header', w, 'an empty text is a block header')
                    continue
                hd = first & {ord('|'), ord('>')}
                if not hd:
                    res.check(k == 'n' and v == FALSE, 'header', w, 'a text that starts with neither | nor > is %s' % ('a block header' if k == 'n' else 'an error'))
                    continue
                if len(hd) > 1 or len(first) > 1:
                    if k == 'n' and v == FALSE:
                        res.fail('header', w, 'a text that may start with %s is no block header' % ' or '.join(chr(h) for h in sorted(hd)))
                    else:
                        res.undecided('header', 'the first character')
                    continue
                good = {ord('-'), ord(' '), 9}
                if k == 'x':
                    res.check(long_ is True and not second & good, 'header', w, '%s is rejected as a block header' % chr(min(hd)))
                    continue
                if v != TRUE:
                    res.fail('header', w, '%s is not taken as a block header' % chr(min(hd))) if isc(v) else res.undecided('header', show(v))
                    continue
                if long_:
                    res.check(second <= good, 'header', w, 'characters behind the header of a block are ignored')
                fl = st.mem.get(out)
                if fl is None or not isc(fl):
                    res.undecided('header', 'flags %s' % (show(fl) if fl else '?'))
                    continue
                fl = fl[1]
                res.check(bool(fl & LIT) == (hd == {ord('|')}) and bool(fl & FOLD) == (hd == {ord('>')}), 'header-kind', w, 'a block after %s is taken as %s' % (chr(min(hd)), 'literal' if fl & LIT else 'folded' if fl & FOLD else 'neither literal nor folded'))
                if long_ is False:
                    res.check(bool(fl & NL), 'header-end', w, 'a block after %s loses its last line break' % chr(min(hd)))
                elif long_ and second:
                    if second == {ord('-')}:
                        res.check(not fl & NL, 'header-end', w, 'a block after %s- keeps its last line break' % chr(min(hd)))
                    elif ord('-') not in second:
                        res.check(bool(fl & NL), 'header-end', w, 'a block after %s and a blank (a comment, for example) loses its last line break' % chr(min(hd)))
                    else:
                        res.undecided('header-end', 'the character behind %s' % chr(min(hd)))


CHECKS = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09, 'P10': p10, 'P11': p11, 'P12': p12, 'P13': p13, 'P14': p14, 'P15': p15, 'P16': p16}
