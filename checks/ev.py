"""Family E: the EVPFFT programs (command line, XDMF writer), all four copies."""
import glob
import os
import re
import xml.etree.ElementTree as ET
from sa import facts
from sa.interp import Interp, Undecided, C, NULL, isc, tree, strip_targs, mentions
from checks.yp import Pol, fns, show

BASE = facts.REPO + '/apps/micromechanics'
THIS = ('o', 'this')
CLI = 'CommandLineArgs'
XW = 'XdmfUniformGridWriter'

# long option -> (short, setting, kind)
OPTIONS = {'infile': ('f', 'input_filename', 'text'), 'micro-filetype': ('m', 'micro_filetype', 'int'), 'euler-angles': ('e', 'EulerAnglesFullPath', 'text'),
           'feature-ids': ('g', 'FeatureIdsFullPath', 'text'), 'phase-ids': ('p', 'PhaseIdsFullPath', 'text'), 'euler-unit': ('u', 'EulerAnglesUnit', 'int')}
FIELDS = {v[1]: v for v in OPTIONS.values()}
NUM = {'atoi', 'atol', 'strtol', 'std::stoi', 'std::stol', 'std::strtol', 'std::atoi', 'strtoul', 'std::stoul', 'std::from_chars'}


class EP(Pol):
    keep_facts = True
    max_unroll = 0
    max_states = 20000


def apps(res, name):
    out = []
    for src in sorted(glob.glob(BASE + '/*/src/' + name)):
        P = facts.facts(src, ['-std=c++17', '-I' + os.path.dirname(src)], [facts.REPO])
        res.unit(P)
        out.append(P)
    if not out:
        raise Undecided(name + ' not found')
    return out


def one(res, P, name):
    f = fns(P, name)
    if len(f) != 1:
        raise Undecided('%s: %d definitions' % (name, len(f)))
    return f[0]


def intset(st, t):
    """the int values a path still allows for t (-1..255)"""
    s = set(range(-1, 256))
    for c, v in st.facts.items():
        if c[0] != 'op' or len(c) != 4 or not isinstance(v, bool):
            continue
        a, b = c[2], c[3]
        if a == t and isc(b) and isinstance(b[1], int):
            k = b[1]
            s = {x for x in s if ((x == k) if c[1] == '==' else (x < k)) == v}
        elif b == t and isc(a) and isinstance(a[1], int):
            k = a[1]
            s = {x for x in s if ((x == k) if c[1] == '==' else (k < x)) == v}
    return s


def rec(t):
    """fields of an aggregate value"""
    if t[0] in ('rec', 'agg') and isinstance(t[-1], tuple):
        d = {}
        for it in t[-1]:
            if isinstance(it, tuple) and len(it) == 2 and isinstance(it[0], tuple):
                d[it[0][0][-1]] = it[1]
        return d
    return None


def table(I, st, v):
    """the entries of the long option table"""
    L = v[1] if v[0] in ('arr!', '&') else None
    if L is not None and L[0] == 'i' and L[2] == C(0):
        L = L[1]
    t = st.mem.get(L) if L is not None else None
    if t is None and L is not None:
        t = I.read(st, L)
    if not t or t[0] != 'agg':
        return None
    out = []
    for e in t[-1]:
        r = rec(e)
        if r is None or not {'name', 'has_arg', 'val'} <= set(r):
            if r is not None and not r or e == ('zero',):
                r = {'name': NULL, 'has_arg': C(0), 'val': C(0), 'flag': NULL}
            else:
                return None
        out.append(r)
    return out


def zero(v):
    return v == NULL or v == C(0) or v == ('zero',)


def turns(res, P, opaque=()):
    """one symbolic run of the parser: (I, outcomes, option value of each)"""
    f = one(res, P, CLI + '::parse_command_line')
    I = Interp(P, EP(opaque=opaque))
    outs = I.run(f)
    res.stats(I)
    runs = []
    for st, k, v in outs + [(s, 'more', u) for u, w, s in I.backs]:
        g = [e for e in st.tr if e[0] == 'call' and e[1] in ('getopt_long', 'getopt_long_only')]
        runs.append((st, k, v, g[-1] if g else None))
    if not any(r[3] for r in runs):
        raise Undecided('the options are not read with getopt_long')
    return f, I, runs


def args_of(e):
    return [a[1] for a in e[4]]


def e01(res, tier):
    res.rule('per option: its long name is in the option table and takes an argument, the same letter is in the short options with an argument, and the turn of the loop for that letter writes the argument (or the number it holds) to the setting of that option and to nothing else')
    res.rule('the option table is terminated; every turn asks getopt_long for the next option of the whole command line; the loop ends only when there is none left')
    for P in apps(res, 'command_line_args.cpp'):
        f, I, runs = turns(res, P, opaque=(CLI + '::check_cmd_args', CLI + '::print_help'))
        w = P.where(f)
        e = next(r[3] for r in runs if r[3])
        st0 = next(r[0] for r in runs if r[3])
        a = args_of(e)
        res.check(e[1] == 'getopt_long', 'call', e[5], 'options may be given with a single dash')
        res.check(a[0] == ('parm', 0) or a[0] == ('init', ('o', 'P0')), 'argc', e[5], 'not the whole command line is parsed: %s arguments' % show(a[0]))
        res.check(mentions(a[1], ('parm', 1)) and a[1] == ('parm', 1), 'argv', e[5], 'not the given command line is parsed')
        if not isc(a[2]) or not isinstance(a[2][1], str):
            res.undecided('short', 'the short options are not a constant')
            continue
        back = [r for r in runs if r[1] == 'more' and r[3]]
        tab = None
        for r in back or runs:
            if r[3]:
                tab = tab or table(I, r[0], args_of(r[3])[3])
        if tab is None:
            res.undecided('table', 'the option table is not a constant')
            continue
        short = {}
        s = a[2][1].lstrip('+-:')
        res.check(not a[2][1].startswith('-'), 'short', e[5], 'arguments that are no options are taken for options')
        for m in re.finditer(r'([^:])(:{0,2})', s):
            short[m.group(1)] = len(m.group(2))
        ends = [n for n, r in enumerate(tab) if zero(r['name'])]
        res.check(bool(ends), 'terminator', e[5], 'the option table has no terminating entry')
        live = tab[:ends[0]] if ends else tab
        res.check(not ends or ends[0] == len(tab) - 1, 'terminator', e[5], 'the options behind entry %d of the table are never found' % (ends[0] if ends else 0))
        longs = {}
        for r in live:
            if isc(r['name']):
                res.check(r['name'][1] not in longs, 'table', e[5], 'option --%s is in the table twice' % r['name'][1])
                longs[r['name'][1]] = r

        def lands(code, name, how):
            """every turn for that option value stores the argument where it belongs"""
            ch, fld, kind = OPTIONS[name]
            hit = [r for r in runs if r[3] and code in intset(r[0], r[3][6])]
            res.check(bool(hit), 'handled', w, '%s is not handled' % how)
            for st, k, v, g in hit:
                if k == 'n':
                    res.fail('ends', w, 'reading the options ends at %s' % how)
                    continue
                if k == 'exit' or any(x[0] == 'call' and x[1].endswith('::print_help') for x in st.tr):
                    res.fail('accepted', w, '%s is refused' % how)
                    continue
                i = st.tr.index(g)
                ws = [x for x in st.tr[i:] if x[0] == 'write' and x[1][0] == 'f' and x[1][1] == THIS]
                to = [x[1][2] for x in ws]
                for x in ws:
                    if x[1][2] != fld:
                        res.fail('setting', x[3], '%s changes the setting %s' % (how, x[1][2]))
                mine = [x for x in ws if x[1][2] == fld]
                if not mine:
                    if to:
                        continue
                    if any(x[0] == 'call' for x in st.tr[i + 1:]):
                        res.undecided('setting', 'what %s does' % how)
                    else:
                        res.fail('setting', w, '%s is accepted and ignored' % how)
                    continue
                x = mine[-1]
                val = x[2]
                if 'optarg' not in str(val):
                    res.fail('value', x[3], '%s does not store its argument in %s' % (how, fld))
                elif kind == 'text':
                    plain = val[0] == 'init' and val[1][0] == 'g' or val[0] == 'call' and val[1] == 'str' and len(val) == 3
                    if plain:
                        res.ok('value')
                    elif val[0] == 'call' and val[1] in NUM or val[0] == 'cat' or val[0] == 'call' and val[1] in ('substr',):
                        res.fail('value', x[3], '%s stores %s' % (how, show(val)))
                    else:
                        res.undecided('value', show(val))
                else:
                    if val[0] == 'call' and val[1] in NUM:
                        conv = [y for y in st.tr[i:] if y[0] == 'call' and y[1] == val[1]]
                        last = conv[-1][4][-1][1] if conv and len(conv[-1][4]) == 3 else C(10)
                        res.check(last in (C(10), C(0)), 'value', x[3], '%s is read in base %s' % (how, show(last)))
                    elif val[0] == 'op':
                        res.fail('value', x[3], '%s stores %s' % (how, show(val)))
                    else:
                        res.undecided('value', show(val))
        for name, (ch, fld, kind) in OPTIONS.items():
            r = longs.get(name)
            if r is None:
                pre = [n for n in longs if n.startswith(name)]
                res.fail('long', e[5], 'option --%s is not accepted' % name)
            else:
                res.check(r['has_arg'] == C(1), 'argument', e[5], 'option --%s takes %s argument' % (name, 'no' if r['has_arg'] == C(0) else 'an optional'))
                res.check(zero(r.get('flag', NULL)), 'flag', e[5], 'option --%s is reported elsewhere' % name)
                if isc(r['val']) and isinstance(r['val'][1], int):
                    lands(r['val'][1], name, 'option --%s' % name)
                else:
                    res.undecided('long', show(r['val']))
            if ch not in short:
                res.fail('short', e[5], 'option -%s is not accepted' % ch)
            else:
                res.check(short[ch] == 1, 'argument', e[5], 'option -%s takes %s argument' % (ch, 'no' if short[ch] == 0 else 'an optional'))
                lands(ord(ch), name, 'option -%s' % ch)
        # the loop ends only when there are no options left
        for st, k, v, g in runs:
            if k == 'n' and g:
                res.check(intset(st, g[6]) == {-1}, 'all', w, 'reading the options may end before the last one')
            if k == 'more' and g:
                res.check(-1 not in intset(st, g[6]), 'end', w, 'reading the options never ends')


def known(I, st, t):
    return I.known(st, t)


def settings(I, st):
    return {n: I.read(st, ('f', THIS, n)) for n in FIELDS}


def usage(st):
    """the text a path prints, and the exit code"""
    out = ''
    for e in st.tr:
        if e[0] == 'out' and e[1][0] == 'g' and e[1][1] in ('std::cout', 'std::cerr', 'std::clog') and e[2] is not None:
            out += e[2][1] if isc(e[2]) and isinstance(e[2][1], str) else ''
        elif e[0] == 'call' and e[1] in ('printf', 'fprintf', 'puts', 'fputs', 'std::printf', 'std::fprintf', 'std::puts', 'std::fputs'):
            out += ''.join(a[1][1] for a in e[4] if a[1] is not None and isc(a[1]) and isinstance(a[1][1], str))
    return out


def e02(res, tier):
    res.rule('an option value that is none of the accepted ones (unknown option, missing argument) leads, on every path, to the usage text and an exit with a code other than 0')
    res.rule('parsing returns only with a complete command line: an input file, and for microstructure type 1 also the three dataset paths and the unit; a complete one is never refused; a fresh object has no file, no path, type 0 and unit -1')
    for P in apps(res, 'command_line_args.cpp'):
        f, I, runs = turns(res, P)
        w = P.where(f)
        for st, k, v, g in runs:
            if g is None:
                continue
            vals = intset(st, g[6])
            S = settings(I, st)
            need = {n: S[n] for n in S if FIELDS[n][2] == 'text'}
            if k == 'x':
                res.undecided('raises', v[0])
                continue
            known_opts = {ord(o[0]) for o in OPTIONS.values()} | {ord('h'), -1}
            if k == 'exit':
                res.check('--infile' in usage(st) and '-f' in usage(st), 'usage', w, 'the program ends without the usage text')
                code = v[1][0] if isinstance(v, tuple) and len(v) > 1 and v[1] else None
                code = next((e[4][0][1] for e in reversed(st.tr) if e[0] == 'call' and e[1] in ('exit', 'std::exit', '_exit', 'std::quick_exit', 'std::_Exit') and e[4]), None)
                if -1 in vals or vals - known_opts:
                    if code is not None and isc(code):
                        res.check(code[1] != 0, 'code', w, 'a refused command line ends with exit code 0')
                    elif any(e[0] == 'call' and e[1] in ('abort', 'std::abort', 'MPI_Abort') for e in st.tr):
                        res.ok('code')
                    else:
                        res.undecided('code', 'the exit code')
            elif k == 'more':
                bad = {x for x in vals if x not in known_opts}
                extra = {x for x in bad if x in (63, 58)}
                res.check(not extra, 'refused', w, 'an unknown option or a missing argument is ignored')
            if vals != {-1}:
                continue
            inf = known(I, st, ('op', '==', need['input_filename'], C('')))
            mts, uns = intset(st, S['micro_filetype']), intset(st, S['EulerAnglesUnit'])
            mt = False if 1 not in mts else True if mts == {1} else None
            paths = {n: known(I, st, ('op', '==', S[n], C(''))) for n in need if n != 'input_filename'}
            un = False if -1 not in uns else True if not uns & {0, 1} else None

            def tested(t):
                # a test of the setting that is no comparison with a constant
                return any(mentions(c, t) and not (c[0] == 'op' and len(c) == 4 and c[1] in ('==', '<') and isinstance(x, bool)
                                                   and (c[2] == t and isc(c[3]) and isinstance(c[3][1], int) or c[3] == t and isc(c[2]) and isinstance(c[2][1], int)))
                           for c, x in st.facts.items())
            fuzzy = any(c[0] == 'call' and isinstance(x, bool) and any(mentions(c, t) for t in S.values()) for c, x in st.facts.items())
            if k == 'n':
                def must(cond, field, msg):
                    if cond is False:
                        res.ok('complete')
                    elif cond is None and (fuzzy or tested(S[field]) and field != 'micro_filetype'):
                        res.undecided('complete', 'the test of %s' % field)
                    else:
                        res.fail('complete', w, msg)
                must(inf, 'input_filename', 'a command line without an input file is accepted')
                if mt is not False:
                    for n, x in paths.items():
                        must(x, n, 'microstructure type 1 is accepted without --%s' % next(o for o in OPTIONS if OPTIONS[o][1] == n))
                    must(un, 'EulerAnglesUnit', 'microstructure type 1 is accepted without --euler-unit')
            elif k == 'exit':
                lack = any(x is True for x in paths.values())
                if inf is True or not mts & {0, 1, 2}:
                    res.ok('never-refused')
                elif fuzzy:
                    res.undecided('never-refused', 'why a command line is refused')
                elif mts & {0, 2}:
                    res.fail('never-refused', w, 'a complete command line is refused for microstructure types other than 1')
                elif lack or not uns & {0, 1}:
                    res.ok('never-refused')
                else:
                    res.fail('never-refused', w, 'a complete command line is refused')
        # the values of a fresh object
        for c in fns(P, CLI + '::' + CLI):
            if c['p'] or c.get('implicit'):
                continue
            I = Interp(P, EP())
            for st, k, v in I.run(c):
                S = settings(I, st)
                for n, t in S.items():
                    want = C('') if FIELDS[n][2] == 'text' else C(0) if n == 'micro_filetype' else C(-1)
                    if t == ('zero',):
                        t = C(0) if FIELDS[n][2] == 'int' else C('')
                    if FIELDS[n][2] == 'text' and t[0] in ('uninit', 'init', 'new'):
                        t = C('')
                    if isc(t):
                        res.check(t == want, 'fresh', P.where(c), 'without options %s is %r' % (n, t[1]))
                    elif t[0] in ('uninit', 'init'):
                        res.fail('fresh', P.where(c), 'without options %s has no defined value' % n)
                    else:
                        res.undecided('fresh', show(t))


LINE = re.compile(r'^\s*-(\w),\s*--([\w-]+)[ \t]*(<[\w ]+>)?')


def e03(res, tier):
    res.rule('the usage text lists, line by line, exactly the options of the option table, each with the short letter that means the same and with an argument exactly when it takes one')
    for P in apps(res, 'command_line_args.cpp'):
        f, I, runs = turns(res, P, opaque=(CLI + '::check_cmd_args', CLI + '::print_help'))
        e = next(r[3] for r in runs if r[3])
        tab = None
        for r in runs:
            if r[3]:
                tab = tab or table(I, r[0], args_of(r[3])[3])
        a = args_of(e)
        if tab is None or not isc(a[2]):
            res.undecided('table', 'the option table is not a constant')
            continue
        short = {m.group(1): len(m.group(2)) for m in re.finditer(r'([^:+-])(:{0,2})', a[2][1])}
        longs = {}
        for r in tab:
            if zero(r['name']):
                break
            longs[r['name'][1]] = r
        h = one(res, P, CLI + '::print_help')
        w = P.where(h)
        I2 = Interp(P, EP())
        outs = I2.run(h)
        res.stats(I2)
        for st, k, v in outs:
            txt = usage(st)
            res.check(k == 'exit', 'ends', w, 'after the usage text the program goes on')
            doc = {}
            for line in txt.split('\n'):
                m = LINE.match(line)
                if m:
                    doc[m.group(2)] = (m.group(1), bool(m.group(3)))
            if not doc:
                res.undecided('text', 'the usage text is not a constant')
                continue
            for n, (ch, arg) in doc.items():
                r = longs.get(n)
                if r is None:
                    res.fail('documented', w, 'the usage text lists --%s, which is not accepted' % n)
                    continue
                res.check(arg == (r['has_arg'] == C(1)), 'argument', w, 'the usage text is wrong on the argument of --%s' % n)
                res.check(r['val'] == C(ord(ch)), 'letter', w, 'the usage text gives -%s for --%s' % (ch, n))
                res.check(ch in short, 'letter', w, 'the usage text lists -%s, which is not accepted' % ch)
                res.check(short.get(ch, 0) == (1 if arg else 0), 'argument', w, 'the usage text is wrong on the argument of -%s' % ch)
            for n in longs:
                res.check(n in doc, 'listed', w, 'option --%s is not in the usage text' % n)
            for ch in short:
                res.check(any(d[0] == ch for d in doc.values()), 'listed', w, 'option -%s is not in the usage text' % ch)
            for m in re.finditer(r'(?<![\w<-])(--?)([a-z][\w-]*)(?:=|\s|$)', txt.split('Examples', 1)[-1] if 'Examples' in txt else ''):
                okx = m.group(2) in longs if m.group(1) == '--' else m.group(2) in short
                res.check(okx, 'example', w, 'an example uses %s%s, which is not accepted' % (m.group(1), m.group(2)))


# ---- XDMF -------------------------------------------------------------------------------
CONV = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([diouxXsfgeEGcp%])')


class Text:
    def __init__(self):
        self.s = ''
        self.slots = []

    def lit(self, s):
        self.s += s

    def val(self, conv, term, trunc):
        self.s += '@@%d@@' % len(self.slots)
        self.slots.append((conv, term, trunc))

    def add(self, o):
        n = len(self.slots)
        self.s += re.sub(r'@@(\d+)@@', lambda m: '@@%d@@' % (int(m.group(1)) + n), o.s)
        self.slots += o.slots
        return self


def written(res, P, st, field):
    """what a path writes to the file in the field: Text or None"""
    t = Text()
    H = ('init', ('f', THIS, field))
    for e in st.tr:
        if e[0] in ('loop+', 'loop0') and any(x[0] == 'call' and 'put' in x[1] or x[0] == 'call' and 'printf' in x[1] for x in st.tr[st.tr.index(e):]):
            return None
        if e[0] == 'call' and e[1] in ('fprintf', 'std::fprintf'):
            a = args_of(e)
            if a[0] != H:
                res.fail('file', e[5], 'text is written to %s' % show(a[0]))
                continue
            if not isc(a[1]) or not isinstance(a[1][1], str):
                return None
            fmt, n, pos = a[1][1], 2, 0
            for m in CONV.finditer(fmt):
                t.lit(fmt[pos:m.start()])
                pos = m.end()
                if m.group(5) == '%':
                    t.lit('%')
                    continue
                if n >= len(a):
                    res.fail('format', e[5], 'the format has more conversions than values')
                    return None
                if m.group(0) == '%s' and isc(a[n]) and isinstance(a[n][1], str):
                    t.lit(a[n][1])
                else:
                    t.val(m.group(5), a[n], m.group(3) is not None)
                n += 1
            t.lit(fmt[pos:])
            res.check(n == len(a), 'format', e[5], 'a value is not written')
        elif e[0] == 'call' and e[1] in ('fputs', 'std::fputs'):
            a = args_of(e)
            if a[1] != H:
                res.fail('file', e[5], 'text is written to %s' % show(a[1]))
            elif isc(a[0]):
                t.lit(a[0][1])
            else:
                t.val('s', a[0], False)
        elif e[0] == 'call' and e[1] in ('fputc', 'putc', 'std::fputc'):
            a = args_of(e)
            if a[1] != H:
                res.fail('file', e[5], 'text is written to %s' % show(a[1]))
            elif isc(a[0]):
                t.lit(chr(a[0][1]))
            else:
                t.val('c', a[0], False)
        elif e[0] == 'call' and e[1] in ('fwrite', 'vfprintf', 'std::fwrite'):
            return None
    return t


def xw_field(P):
    r = P.records.get(XW)
    if not r:
        raise Undecided(XW)
    c = [f['n'] for f in r['fields'] if 'FILE' in f['t']]
    if len(c) != 1:
        raise Undecided('%d files in %s' % (len(c), XW))
    return c[0]


def parts(res, P, name, fld):
    f = one(res, P, '%s::%s' % (XW, name))
    I = Interp(P, EP())
    out = []
    for st, k, v in I.run(f):
        if k == 'n':
            t = written(res, P, st, fld)
            if t is None:
                res.undecided('text', 'what %s writes' % name)
            else:
                out.append(t)
    res.stats(I)
    if not out:
        raise Undecided('%s writes nothing that can be read' % name)
    return f, out


def e04(res, tier):
    res.rule('header, any number of attributes and footer, as their constant texts put them together, are one well-formed XML document: Xdmf > Domain > Grid, the attributes inside the grid')
    res.rule('the grid has N+1 points per direction, each attribute N values per direction, in the order N1 N2 N3; name, type, number type, precision and location of an attribute and the grid name are those given, whole')
    for P in apps(res, XW + '.cpp'):
        fld = xw_field(P)
        hf, heads = parts(res, P, 'write_header', fld)
        af, attrs = parts(res, P, 'write_attribute', fld)
        ff, feet = parts(res, P, 'write_footer', fld)
        w = P.where(hf)
        N = [('init', ('f', THIS, n)) for n in ('N1', 'N2', 'N3')]
        for c in fns(P, XW + '::' + XW):
            if len(c['p']) != 3:
                continue
            I = Interp(P, EP())
            for st, k, v in I.run(c):
                for n in range(3):
                    res.check(I.read(st, ('f', THIS, 'N%d' % (n + 1))) == ('parm', n), 'sizes', P.where(c), 'N%d is not the size given for direction %d' % (n + 1, n + 1))

        def dims(x, plus, T, what, where):
            got = []
            for tok in (x or '').split():
                m = re.fullmatch(r'@@(\d+)@@', tok)
                got.append(T.slots[int(m.group(1))] if m else ('lit', tok, False))
            if len(got) != 3:
                res.fail('dims', where, '%s: %d dimensions' % (what, len(got)))
                return
            for n, (cv, term, tr) in enumerate(got):
                want = ('op', '+', N[n], C(1)) if plus else N[n]
                alt = ('op', '+', C(1), N[n])
                if term == want or plus and term == alt:
                    res.check(cv in 'diu', 'dims', where, '%s is written with %%%s' % (what, cv))
                elif cv == 'lit' or any(mentions(term, x) for x in N):
                    res.fail('dims', where, '%s: dimension %d is %s' % (what, n + 1, show(term)))
                else:
                    res.undecided('dims', show(term))

        def given(x, n, T, what, where, exact=True):
            m = re.fullmatch(r'\s*@@(\d+)@@\s*' if not exact else r'@@(\d+)@@', x or '')
            if not m:
                res.fail('given', where, '%s is written as %r' % (what, re.sub(r'@@\d+@@', '..', x or '')))
                return
            cv, term, tr = T.slots[int(m.group(1))]
            res.check(term == ('parm', n) or term == ('init', ('o', 'P%d' % n)), 'given', where, '%s is %s' % (what, show(term)))
            res.check(cv == 's' and not tr, 'given', where, '%s is cut off' % what)
        for h in heads:
            for foot in feet:
                for k in (0, 1, 2):
                    for at in attrs if k else [None]:
                        T = Text().add(h)
                        for _ in range(k):
                            T.add(at)
                        T.add(foot)
                        try:
                            root = ET.fromstring(T.s)
                        except ET.ParseError as ex:
                            res.fail('well-formed', w, 'a file with %d attributes is no well-formed XML: %s' % (k, ex))
                            continue
                        res.ok('well-formed')
                        res.check(root.tag == 'Xdmf', 'structure', w, 'the outermost element is %s' % root.tag)
                        grids = root.findall('./Domain/Grid')
                        res.check(len(grids) == 1 and len(list(root.iter('Grid'))) == 1, 'structure', w, '%d grids in a domain' % len(grids))
                        if not grids:
                            continue
                        g = grids[0]
                        given(g.get('Name'), 0, T, 'the grid name', w)
                        res.check(g.get('GridType') == 'Uniform', 'structure', w, 'the grid is of type %s' % g.get('GridType'))
                        top = g.findall('Topology')
                        res.check(len(top) == 1, 'structure', w, '%d topologies' % len(top))
                        for t in top:
                            dims(t.get('Dimensions') or t.get('NumberOfElements'), True, T, 'the grid', w)
                            res.check(t.get('TopologyType') in ('3DCoRectMesh', '3DCORECTMesh', '3DCORECTMESH'), 'structure', w, 'the topology is %s' % t.get('TopologyType'))
                        geo = g.findall('Geometry')
                        res.check(len(geo) == 1, 'structure', w, '%d geometries' % len(geo))
                        for t in geo:
                            di = t.findall('DataItem')
                            res.check(len(di) == 2, 'structure', w, 'origin and spacing are %d items' % len(di))
                            for d in di:
                                v = re.sub(r'@@(\d+)@@', lambda m: str(T.slots[int(m.group(1))][1][1]) if isc(T.slots[int(m.group(1))][1]) else '?', d.text or '').split()
                                res.check(str(len(v)) == (d.get('Dimensions') or '').strip() == '3', 'geometry', w, 'origin or spacing: %d values for dimensions %s' % (len(v), d.get('Dimensions')))
                            if len(di) == 2:
                                sp = [float(T.slots[int(m)][1][1]) for m in re.findall(r'@@(\d+)@@', di[1].text or '') if isc(T.slots[int(m)][1])] or [float(x) for x in re.findall(r'[\d.]+', di[1].text or '')]
                                res.check(not sp or all(x > 0 for x in sp), 'geometry', w, 'the spacing is %s' % sp)
                        A = list(root.iter('Attribute'))
                        res.check(len(A) == k and len(g.findall('Attribute')) == k, 'attributes', P.where(af), '%d attributes are written as %d, %d in the grid' % (k, len(A), len(g.findall('Attribute'))))
                        wa = P.where(af)
                        for x in g.findall('Attribute'):
                            given(x.get('Name'), 0, T, 'the name of an attribute', wa)
                            given(x.get('AttributeType'), 1, T, 'the type of an attribute', wa)
                            res.check(x.get('Center') == 'Cell', 'structure', wa, 'attribute values are centred at %s' % x.get('Center'))
                            di = x.findall('DataItem')
                            res.check(len(di) == 1, 'structure', wa, 'an attribute has %d data items' % len(di))
                            for d in di:
                                dims(d.get('Dimensions'), False, T, 'an attribute', wa)
                                given(d.get('NumberType'), 2, T, 'the number type', wa)
                                given(d.get('Precision'), 3, T, 'the precision', wa)
                                given(d.text, 4, T, 'the location', wa, exact=False)
                                res.check(d.get('Format') == 'HDF', 'structure', wa, 'the data are in format %s' % d.get('Format'))


def e05(res, tier):
    res.rule('opening creates exactly the named file and keeps its handle; when that fails an exception is raised before anything can be written to it')
    res.rule('closing closes exactly that handle once, also when nothing was opened or the file has been closed before; writing neither opens nor closes')
    for P in apps(res, XW + '.cpp'):
        fld = xw_field(P)
        F = ('f', THIS, fld)
        f = one(res, P, XW + '::open_file')
        w = P.where(f)
        I = Interp(P, EP())
        for st, k, v in I.run(f):
            op = [e for e in st.tr if e[0] == 'call' and e[1] in ('fopen', 'std::fopen', 'fopen64')]
            if not op:
                res.check(k == 'x', 'opened', w, 'no file is opened')
                continue
            a = args_of(op[-1])
            res.check(a[0] == ('parm', 0), 'name', op[-1][5], 'the file opened is %s' % show(a[0]))
            res.check(isc(a[1]) and str(a[1][1]).rstrip('bt+xe') == 'w', 'mode', op[-1][5], 'the file is opened with mode %s' % show(a[1]))
            failed = I.known(st, ('op', '==', op[-1][6], C(0)))
            if k == 'n':
                res.check(I.read(st, F) == op[-1][6], 'kept', w, 'the handle of the opened file is not kept')
                res.check(failed is False, 'failure', op[-1][5], 'a file that cannot be opened is not reported: writing then uses a null handle')
            elif k in ('x', 'exit'):
                res.check(failed is not False, 'failure', w, 'a file that was opened is reported as an error')
        res.stats(I)
        f = one(res, P, XW + '::close_file')
        w = P.where(f)
        I = Interp(P, EP())
        H = ('init', F)
        for st, k, v in I.run(f):
            cl = [e for e in st.tr if e[0] == 'call' and e[1] in ('fclose', 'std::fclose')]
            null = I.known(st, ('op', '==', H, C(0)))
            if null is True:
                res.check(not cl, 'close-null', w, 'a null handle is closed')
            else:
                res.check(len(cl) == 1 and args_of(cl[0])[0] == H, 'close', w, 'an open file is closed %d times' % len(cl))
                if null is None and cl:
                    res.fail('close-null', w, 'closing does not test whether a file is open')
                if k == 'n':
                    x = I.read(st, F)
                    res.check(x == C(0) or x == NULL or x == ('zero',), 'close-twice', w, 'after closing, the closed handle is kept: closing again closes it twice')
        res.stats(I)
        for n in ('write_header', 'write_attribute', 'write_footer'):
            f = one(res, P, '%s::%s' % (XW, n))
            I = Interp(P, EP())
            for st, k, v in I.run(f):
                bad = [e for e in st.tr if e[0] == 'call' and e[1].split('::')[-1] in ('fopen', 'fclose', 'freopen', 'rewind', 'fseek')]
                res.check(not bad, 'writing', bad[0][5] if bad else P.where(f), '%s calls %s' % (n, bad[0][1] if bad else ''))
                res.check(not any(e[0] == 'write' and e[1] == F for e in st.tr), 'writing', P.where(f), '%s changes the handle' % n)
            res.stats(I)
        for c in fns(P, XW + '::' + XW):
            if len(c['p']) == 3:
                I = Interp(P, EP())
                for st, k, v in I.run(c):
                    x = I.read(st, F)
                    res.check(x in (C(0), NULL, ('zero',)), 'fresh', P.where(c), 'a fresh writer has the handle %s' % show(x))


CHECKS = {'E01': e01, 'E02': e02, 'E03': e03, 'E04': e04, 'E05': e05}


# number type and size of the element types (LP64)
ELEM = {'int': ('Int', '4'), 'float': ('Float', '4'), 'double': ('Float', '8'), 'long': ('Int', '8'), 'short': ('Int', '2'), 'char': ('Char', '1'), 'unsigned int': ('UInt', '4'),
        'long double': None}
MUST = ('int', 'float', 'double')


def e06(res, tier):
    res.rule('for each element type the number type and precision given are those of that type (kind of number, bytes per number), both set on every path; a type without an XDMF counterpart is refused with an exception')
    stub = os.path.join(facts.VERIF, 'stubs', 'xdmf_types.cpp')
    for src in sorted(glob.glob(BASE + '/*/src/' + XW + '.h')):
        P = facts.facts(stub, ['-std=c++17', '-I' + os.path.dirname(src)], [facts.REPO])
        res.unit(P)
        fs = [f for f in P.funcs.values() if f['short'] == 'deduce_attribute_number_type' and f.get('body') and f.get('ta')]
        if len(fs) < 3:
            raise Undecided('%d instances of the type deduction' % len(fs))
        for f in fs:
            T = f['ta'][0]
            want = ELEM.get(T)
            w = P.where(f)
            I = Interp(P, EP())
            outs = I.run(f)
            res.stats(I)
            for st, k, v in outs:
                if k != 'n':
                    res.check(T not in MUST, 'accepted', w, 'data of type %s are refused' % T)
                    continue
                got = [I.read(st, ('o', 'P%d' % n)) for n in (1, 2)]
                for n, what in ((0, 'number type'), (1, 'precision')):
                    x = got[n]
                    if isc(x):
                        res.check(want is not None and (x[1] == want[n] or n == 0 and want[0] in ('Char',) and x[1] == 'Int'), what, w, 'data of type %s are given the %s %s' % (T, what, x[1]))
                    elif x == ('init', ('o', 'P%d' % (n + 1))):
                        res.fail(what, w, 'data of type %s are given no %s' % (T, what))
                    else:
                        res.undecided(what, show(x))


CHECKS['E06'] = e06
