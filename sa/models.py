"""Transfer functions for the standard library.

Handler(I, st, fr, e, objL, args, name) -> outcomes; st may be changed in place.
args = [(location|None, value)].  For constructors objL is the object built.
"""
import re
from .interp import C, TRUE, FALSE, NULL, isc

MODELS, RX = {}, []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def rx(p):
    def d(f):
        RX.append((re.compile(p + r'$'), f))
        return f
    return d


S = 'std::basic_string::'
VEC = r'std::(?:vector|deque|list|array|forward_list)::'
MAP = r'std::(?:map|unordered_map|multimap)::'
SET = r'std::(?:set|unordered_set|multiset)::'
CONT = r'std::(?:vector|deque|list|array|map|unordered_map|multimap|set|unordered_set|multiset|initializer_list)::'


def ok(st, v=('top', 'void', 0)):
    return [(st, 'n', v)]


# ---- strings -----------------------------------------------------------------
def strv(I, st, v):
    """string contents of a char pointer / string value"""
    if v[0] in ('arr!', '&'):
        w = I.read(st, v[1])
        if w[0] == 'agg' and w[1] == 'list' and all(isc(x) and isinstance(x[1], int) for x in w[2]):
            s = ''
            for x in w[2]:
                if x[1] == 0:
                    break
                s += chr(x[1] & 255)
            return C(s)
        if isc(w) and isinstance(w[1], str):
            return w
        return ('str', w)
    return v


def chv(v, t=''):
    if isc(v) and isinstance(v[1], int) and not isinstance(v[1], bool):
        return C(chr(v[1] & 0xff))
    if isc(v) and isinstance(v[1], str):
        return v
    return ('chr', v)


def cat(a, b):
    pa = list(a[1]) if a[0] == 'cat' else [a]
    pb = list(b[1]) if b[0] == 'cat' else [b]
    out = []
    for p in pa + pb:
        if p == C(''):
            continue
        if out and isc(p) and isc(out[-1]) and isinstance(p[1], str) and isinstance(out[-1][1], str):
            out[-1] = C(out[-1][1] + p[1])
        else:
            out.append(p)
    if not out:
        return C('')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def ischar(t):
    return t.replace('const ', '').replace(' &', '').replace(' &&', '').strip() in ('char', 'unsigned char', 'signed char', 'wchar_t')


def sarg(I, st, e, i, args):
    L, v = args[i]
    pt = (e.get('pt') or [''] * 9)
    t = pt[i] if i < len(pt) else ''
    if ischar(t):
        return chv(v)
    return strv(I, st, v)


@model('std::allocator::allocator', 'std::less::less', 'std::hash::hash', 'std::equal_to::equal_to')
def m_triv(I, st, fr, e, L, args, name):
    I.write(st, L, C(0), e, event=False)
    return ok(st)


@model(S + 'basic_string', 'std::basic_string_view::basic_string_view', 'std::filesystem::path::path')
def m_str_ctor(I, st, fr, e, L, args, name):
    pt = [p for p in e.get('pt', ()) if 'allocator' not in p.split('<')[0] and 'std::filesystem' not in p or 'path' in p and '&' in p]
    n = len([p for p in e.get('pt', ()) if not p.startswith('const std::allocator') and 'filesystem::path::format' not in p])
    if n == 0:
        v = C('')
    elif n == 1:
        v = strv(I, st, args[0][1])
        if v[0] == 'agg':
            return NotImplemented
    elif n == 2 and e['pt'][0] in ('unsigned long', 'size_type') and ischar(e['pt'][1]):
        a, b = args[0][1], chv(args[1][1])
        v = C(b[1] * a[1]) if isc(a) and isc(b) and a[1] < 4096 else ('call', 'strrep', a, b)
    elif n == 2 and e['pt'][0].startswith('const char') and isc(args[1][1]):
        a = strv(I, st, args[0][1])
        v = C(a[1][:args[1][1][1]]) if isc(a) and isinstance(a[1], str) else ('call', 'strn', a, args[1][1])
    else:
        v = ('call', 'string', tuple(a[1] for a in args))
    I.write(st, L, v, e, event=False)
    return ok(st)


@model('std::operator+')
def m_plus(I, st, fr, e, L, args, name):
    if 'basic_string' not in ''.join(e.get('pt', ())):
        return NotImplemented
    return ok(st, cat(sarg(I, st, e, 0, args), sarg(I, st, e, 1, args)))


@model(S + 'operator+=', S + 'append', S + 'push_back')
def m_append(I, st, fr, e, L, args, name):
    if len([p for p in e['pt'] if 'allocator' not in p[:20]]) > 1:
        return NotImplemented
    if 'initializer_list' in e['pt'][0]:
        return NotImplemented
    I.write(st, L, cat(I.read(st, L), sarg(I, st, e, 0, args)), e)
    return ok(st, ('ref!', L))


@model(S + 'operator=', S + 'assign', 'std::basic_string_view::operator=', 'std::filesystem::path::operator=')
def m_sassign(I, st, fr, e, L, args, name):
    if len(args) != 1:
        return NotImplemented
    I.write(st, L, sarg(I, st, e, 0, args), e)
    return ok(st, ('ref!', L))


@model(S + 'clear')
def m_sclear(I, st, fr, e, L, args, name):
    I.write(st, L, C(''), e)
    return ok(st)


@model(S + 'c_str', S + 'data', 'std::basic_string_view::data', S + 'operator basic_string_view', 'std::filesystem::path::string', 'std::filesystem::path::c_str')
def m_cstr(I, st, fr, e, L, args, name):
    return ok(st, I.read(st, L))


@model(S + 'empty', 'std::basic_string_view::empty')
def m_sempty(I, st, fr, e, L, args, name):
    return ok(st, I.eq(I.read(st, L), C('')))


@model(S + 'size', S + 'length', 'std::basic_string_view::size', 'std::basic_string_view::length')
def m_ssize(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    return ok(st, C(len(v[1])) if isc(v) and isinstance(v[1], str) else ('len', v))


@model('strlen', 'std::strlen')
def m_strlen(I, st, fr, e, L, args, name):
    v = strv(I, st, args[0][1])
    return ok(st, C(len(v[1])) if isc(v) and isinstance(v[1], str) else ('len', v))


def cmp3(a, b):
    if isc(a) and isc(b) and isinstance(a[1], str) and isinstance(b[1], str):
        return C((a[1] > b[1]) - (a[1] < b[1]))
    return ('cmp', a, b)


@model(S + 'compare', 'std::basic_string_view::compare')
def m_compare(I, st, fr, e, L, args, name):
    if len(args) != 1:
        return NotImplemented
    return ok(st, cmp3(I.read(st, L), strv(I, st, args[0][1])))


@model('strcmp', 'std::strcmp')
def m_strcmp(I, st, fr, e, L, args, name):
    return ok(st, cmp3(strv(I, st, args[0][1]), strv(I, st, args[1][1])))


@model('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=',
       '__gnu_cxx::operator==', '__gnu_cxx::operator!=')
def m_rel(I, st, fr, e, L, args, name):
    a, b = (strv(I, st, x[1]) if x[1][0] == 'arr!' else x[1] for x in args)
    if a[0] == 'top' or b[0] == 'top':
        pass
    return ok(st, I.arith(name.rsplit('operator', 1)[1], a, b))


@rx(r'std::(?:_Rb_tree_(?:const_)?iterator|__detail::_Node_(?:const_)?iterator|__detail::_Node_iterator_base|_List_iterator)::operator(==|!=)')
def m_itrel(I, st, fr, e, L, args, name):
    return ok(st, I.arith(name[-2:], I.read(st, L), args[0][1]))


@rx(r'(?:std::(?:_Rb_tree_(?:const_)?iterator|__detail::_Node_(?:const_)?iterator|_List_(?:const_)?iterator)|__gnu_cxx::__normal_iterator)::operator(?:\+\+|--)')
def m_itstep(I, st, fr, e, L, args, name):
    """a position moves by one; postfix forms yield the old position"""
    if L is None:
        return NotImplemented
    st = st.copy()
    v = I.read(st, L)
    nv = I.arith('+', v, C(1 if name.endswith('++') else -1))
    I.emit(st, ('call', name, (), (L, v), tuple(args), I.loc(e), nv))
    I.write(st, L, nv, e, event=False)
    return ok(st, v if args else ('ref!', L))


@model('std::__detail::operator==', 'std::__detail::operator!=')
def m_itrel2(I, st, fr, e, L, args, name):
    return ok(st, I.arith(name[-2:], args[0][1], args[1][1]))


@model(S + 'operator[]', S + 'at', 'std::basic_string_view::operator[]')
def m_sidx(I, st, fr, e, L, args, name):
    return ok(st, ('ref!', ('i', L, args[0][1])))


@model(S + 'front', S + 'back')
def m_sfront(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    if name.endswith('front'):
        return ok(st, ('ref!', ('i', L, C(0))))
    i = C(len(v[1]) - 1) if isc(v) and isinstance(v[1], str) else ('op', '+', ('len', v), C(-1))
    return ok(st, ('ref!', ('i', L, i)))


@model(S + 'substr')
def m_substr(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    a = args[0][1] if args else C(0)
    n = args[1][1] if len(args) > 1 else C(-1)
    if isc(v) and isc(a) and isc(n) and isinstance(v[1], str):
        if a[1] > len(v[1]):
            return [(st, 'x', ('std::out_of_range', ('new', 'std::out_of_range'), I.loc(e)))]
        return ok(st, C(v[1][a[1]:] if n[1] < 0 else v[1][a[1]:a[1] + n[1]]))
    return ok(st, ('call', 'substr', v, a, n))


@model(S + 'find', S + 'rfind', S + 'find_first_of', S + 'find_last_of', S + 'find_first_not_of', S + 'find_last_not_of')
def m_sfind(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    k = sarg(I, st, e, 0, args)
    f = name.rsplit('::', 1)[1]
    p = args[1][1] if len(args) > 1 else None
    if isc(v) and isc(k) and isinstance(v[1], str) and isinstance(k[1], str) and (p is None or isc(p)):
        s, q = v[1], k[1]
        if f == 'find':
            return ok(st, npos(s.find(q, p[1] if p else 0)))
        if f == 'rfind' and (p is None or p[1] < 0 or p[1] >= len(s)):
            return ok(st, npos(s.rfind(q)))
        idx = range(len(s)) if 'first' in f else range(len(s) - 1, -1, -1)
        st0 = p[1] if p else 0
        if 'first' in f:
            for i in idx:
                if i >= st0 and ((s[i] in q) != ('not' in f)):
                    return ok(st, C(i))
            return ok(st, npos(-1))
    return ok(st, ('call', 's' + f, v, k, p or C(0)))


def npos(i):
    return C(i if i >= 0 else 2 ** 64 - 1)


def cut(v, a, n):
    """the term substr(v, a, n)"""
    if isc(v) and isc(a) and isc(n) and isinstance(v[1], str):
        return C(v[1][a[1]:] if n[1] < 0 else v[1][a[1]:a[1] + n[1]])
    if v[0] == 'call' and v[1] == 'substr' and a == C(0) and isc(v[3]) and v[4] == C(-1) and \
            n[0] == 'op' and n[1] == '+' and n[2] == ('len', v) and isc(n[3]):
        # the end of what is left of a text behind its first characters
        return ('call', 'substr', v[2], v[3], ('op', '+', ('len', v[2]), C(n[3][1] - v[3][1])))
    return ('call', 'substr', v, a, n)


@model(S + 'erase')
def m_serase(I, st, fr, e, L, args, name):
    a = [x[1] for x in args]
    pt = e.get('pt', ())
    if L is None or not a or not all(isc(x) and isinstance(x[1], int) for x in a) or 'iterator' in str(pt):
        return NotImplemented
    v = I.read(st, L)
    if a[0] == C(0) and len(a) > 1 and a[1][1] < 2 ** 63:
        I.write(st, L, cut(v, a[1], C(-1)), e)
    elif len(a) == 1 or a[1][1] >= 2 ** 63:
        I.write(st, L, cut(v, C(0), a[0]), e)
    else:
        return NotImplemented
    return [(st, 'n', ('ref!', L))]


@model(S + 'resize')
def m_sresize(I, st, fr, e, L, args, name):
    v, n = I.read(st, L), args[0][1]
    if len(e.get('pt', ())) > 1 and len(args) > 1 and args[1][1] != C(0):
        return None
    I.write(st, L, C('') if n == C(0) else cut(v, C(0), n), e)
    return ok(st)


@model(S + 'pop_back')
def m_spop(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    n = C(len(v[1]) - 1) if isc(v) and isinstance(v[1], str) else ('op', '+', ('len', v), C(-1))
    I.write(st, L, cut(v, C(0), n), e)
    return ok(st)


@model('std::to_string')
def m_tostring(I, st, fr, e, L, args, name):
    v = args[0][1]
    if isc(v) and isinstance(v[1], int):
        return ok(st, C(str(int(v[1]))))
    return ok(st, ('tostr', v))


@model('std::toupper', 'toupper', 'std::tolower', 'tolower')
def m_case(I, st, fr, e, L, args, name):
    v = args[0][1]
    if isc(v) and isinstance(v[1], int) and 0 <= v[1] < 128:
        c = chr(v[1])
        return ok(st, C(ord(c.upper() if 'upper' in name else c.lower())))
    return ok(st, ('call', name, v))


@model('isspace', 'std::isspace', 'isdigit', 'std::isdigit', 'isalpha', 'std::isalpha')
def m_isx(I, st, fr, e, L, args, name):
    v = args[0][1]
    if isc(v) and isinstance(v[1], int) and 0 <= v[1] < 128:
        c = chr(v[1])
        f = name.split('::')[-1]
        return ok(st, C(int({'isspace': c in ' \t\n\v\f\r', 'isdigit': c.isdigit(), 'isalpha': c.isalpha()}[f])))
    return ok(st, ('call', name, v))


# ---- streams --------------------------------------------------------------------
@rx(r'std::basic_[io]?stringstream::basic_[io]?stringstream')
def m_ss(I, st, fr, e, L, args, name):
    v = C('')
    if args and 'basic_string' in e['pt'][0]:
        v = args[0][1]
    I.write(st, L, ('ss', v), e, event=False)
    return ok(st)


@rx(r'std::basic_[io]?stringstream::str')
def m_ssstr(I, st, fr, e, L, args, name):
    if args:
        I.write(st, L, ('ss', args[0][1]), e, event=False)
        return ok(st)
    v = I.read(st, L)
    return ok(st, v[1] if v[0] == 'ss' else ('sstr', v))


def shl(I, st, e, L, v, t):
    v = strv(I, st, v)
    if v[0] == 'fn':
        v = C('\n') if v[2].endswith('endl') else C('')
    elif ischar(t):
        v = chv(v)
    elif isc(v) and isinstance(v[1], bool):
        v = C(str(int(v[1])))
    elif isc(v) and isinstance(v[1], int):
        v = C(str(v[1]))
    cur = I.read(st, L)
    if cur[0] == 'ss':
        if not isc(v) and v[0] not in ('cat', 'tostr'):
            v = ('shown', v)
        I.write(st, L, ('ss', cat(cur[1], v)), e, event=False)
    else:
        I.emit(st, ('out', L, v, I.loc(e)))
    return ok(st, ('ref!', L))


@model('std::operator<<')
def m_shl(I, st, fr, e, L, args, name):
    if not e.get('pt') or 'ostream' not in e['pt'][0]:
        return NotImplemented
    return shl(I, st, e, args[0][0], args[1][1], e['pt'][1])


@model('std::basic_ostream::operator<<')
def m_shl2(I, st, fr, e, L, args, name):
    return shl(I, st, e, L, args[0][1], e['pt'][0])


@model('std::operator>>', 'std::basic_istream::operator>>', 'std::getline')
def m_shr(I, st, fr, e, L, args, name):
    a = ([(L, None)] if L is not None else []) + list(args)
    sL = a[0][0]
    cur = I.read(st, sL)
    tL = a[1][0]
    if tL is not None:
        n = st.mem.get(('n>>', sL), 0) if isinstance(st.mem.get(('n>>', sL), 0), int) else 0
        was = st.mem.get(tL)
        I.write(st, tL, ('extract', name, cur, I.uid(e), e['pt'][-1] if e.get('pt') else ''), e)
        I.emit(st, ('in', sL, cur, tL, I.loc(e), was, tuple(x[1] for x in a[2:])))
    return ok(st, ('ref!', sL))


@model('std::basic_ios::eof', 'std::basic_ios::good', 'std::basic_ios::fail', 'std::basic_ios::operator bool', 'std::basic_ios::operator!',
       'std::basic_ios::bad')
def m_ios(I, st, fr, e, L, args, name):
    I.P.ucount += 1
    return ok(st, ('call', name, I.read(st, L), I.P.ucount))


@model('std::basic_ifstream::is_open', 'std::basic_ofstream::is_open', 'std::basic_fstream::is_open')
def m_isopen(I, st, fr, e, L, args, name):
    return ok(st, ('call', 'is_open', I.read(st, L)))


# ---- move / forward / swap -----------------------------------------------------
@model('std::move', 'std::forward', 'std::as_const')
def m_move(I, st, fr, e, L, args, name):
    if len(args) != 1:
        return NotImplemented
    if args[0][0] is None:
        return ok(st, args[0][1])
    return ok(st, ('ref!', args[0][0]))


@model('std::addressof', 'std::__addressof')
def m_addr(I, st, fr, e, L, args, name):
    return ok(st, ('&', args[0][0]))


@model('std::swap')
def m_swap(I, st, fr, e, L, args, name):
    a, b = args
    I.write(st, a[0], b[1], e)
    I.write(st, b[0], a[1], e)
    return ok(st)


@model('std::min', 'std::max', 'fmin', 'fmax', 'std::fmin', 'std::fmax')
def m_minmax(I, st, fr, e, L, args, name):
    if len(args) != 2:
        return NotImplemented
    a, b = args[0][1], args[1][1]
    if isc(a) and isc(b):
        return ok(st, C(min(a[1], b[1]) if 'min' in name else max(a[1], b[1])))
    return ok(st, ('call', name.replace('std::', ''), a, b))


# ---- smart pointers ----------------------------------------------------------------
SP = r'std::(?:unique_ptr|shared_ptr|__shared_ptr|__shared_ptr_access|__uniq_ptr_impl)::'


@rx(r'std::(?:unique_ptr|shared_ptr)::(?:unique_ptr|shared_ptr)')
def m_sp(I, st, fr, e, L, args, name):
    if not args:
        v = NULL
    else:
        v = args[0][1]
        if e['pt'][0].endswith('&&') and args[0][0] is not None and args[0][0][0] != 't':
            I.write(st, args[0][0], NULL, e)
    I.write(st, L, v, e, event=False)
    return ok(st)


@rx(SP + r'operator=')
def m_spasg(I, st, fr, e, L, args, name):
    v = args[0][1]
    if 'nullptr' in e['pt'][0]:
        v = NULL
    I.write(st, L, v, e)
    if e['pt'][0].endswith('&&') and args[0][0] is not None and args[0][0][0] != 't':
        I.write(st, args[0][0], NULL, e)
    return ok(st, ('ref!', L))


@rx(SP + r'(?:operator\*|operator->|get|operator bool|release)')
def m_spget(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    if name.endswith('*'):
        I.emit(st, ('deref', L, v, I.loc(e)))
        return ok(st, ('ref!', I.deref(v)))
    if name.endswith('bool'):
        return ok(st, I.tobool(v))
    if name.endswith('->'):
        I.emit(st, ('deref', L, v, I.loc(e)))
    if name.endswith('release'):
        I.write(st, L, NULL, e)
    return ok(st, v)


@rx(SP + r'reset')
def m_spreset(I, st, fr, e, L, args, name):
    I.write(st, L, args[0][1] if args else NULL, e)
    return ok(st)


@model('std::make_unique', 'std::make_shared')
def m_make(I, st, fr, e, objL, args, name):
    t = e['ta'][0]
    H = ('h', I.uid(e))
    for k in [k for k in st.mem if k[0] in ('f', 'i', 'y') and _in(H, k)]:
        del st.mem[k]
    st.mem[('dyn', H)] = t
    if len(args) == 1:
        I.write(st, H, args[0][1], e, event=False)
    elif not args:
        st.mem[H] = ('uninit', H)
        return [(s, k, ('&', H) if k == 'n' else v) for s, k, v in I.default_fields(H, t, [(st, 'n', None)], fr, e)]
    else:
        st.mem[H] = ('new', t, tuple(a[1] for a in args))
    return ok(st, ('&', H))


def _in(H, k):
    from .interp import under
    return under(H, k)


# ---- optional ---------------------------------------------------------------------
@model('std::optional::optional')
def m_opt(I, st, fr, e, L, args, name):
    if not args or 'nullopt' in e['pt'][0]:
        I.write(st, L, ('nullopt',), e, event=False)
    else:
        v = args[0][1]
        I.write(st, L, v if 'optional' in e['pt'][0] else ('some', v), e, event=False)
    return ok(st)


@model('std::optional::operator=')
def m_optasg(I, st, fr, e, L, args, name):
    p = e['pt'][0]
    v = args[0][1]
    if 'nullopt' in p:
        v = ('nullopt',)
    elif 'optional' not in p:
        v = ('some', v)
    I.write(st, L, v, e)
    return ok(st, ('ref!', L))


@model('std::optional::reset')
def m_optreset(I, st, fr, e, L, args, name):
    I.write(st, L, ('nullopt',), e)
    return ok(st)


@model('std::optional::has_value', 'std::optional::operator bool')
def m_opthas(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    return ok(st, FALSE if v == ('nullopt',) else TRUE if v[0] == 'some' else ('hasval', v))


@model('std::optional::value', 'std::optional::operator*', 'std::optional::operator->')
def m_optval(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    if v[0] == 'some':
        F = ('f', L, '*')
        if F not in st.mem:
            st.mem[F] = v[1]
    r = ('f', L, '*')
    res = []
    if name.endswith('value'):
        for s, b in I.branch(st, FALSE if v == ('nullopt',) else TRUE if v[0] == 'some' else ('hasval', v)):
            if b:
                res.append((s, 'n', ('ref!', r)))
            else:
                res.append((s, 'x', ('std::bad_optional_access', ('new', 'bad_optional_access'), I.loc(e))))
        return res
    return ok(st, ('&', r) if name.endswith('->') else ('ref!', r))


# ---- containers ---------------------------------------------------------------------
def kind(name, t):
    if 'map' in t.split('::')[1]:
        return 'map'
    if 'set' in t.split('::')[1]:
        return 'set'
    return 'list'


def to_agg(I, k, v):
    """container value from an initializer list value"""
    if v[0] == 'agg':
        if k == 'map':
            out = []
            for x in v[2]:
                p = pair(x)
                if p is None:
                    return None
                if not any(a == p[0] for a, _ in out):
                    out.append(p)
            return ('agg', 'map', tuple(out))
        return ('agg', k, v[2])
    if v == ('zero',):
        return ('agg', k, ())
    return None


def pair(x):
    if x[0] == 'pair':
        return (x[1], x[2])
    if x[0] == 'agg' and len(x[2]) == 2:
        if x[1] == 'struct':
            return (x[2][0][1], x[2][1][1])
        return (x[2][0], x[2][1])
    if x[0] == 'rec':
        d = {s[0][1]: v for s, v in x[2] if len(s) == 1}
        if 'first' in d and 'second' in d:
            return (d['first'], d['second'])
    return None


@rx(r'std::pair::pair|std::make_pair')
def m_pair(I, st, fr, e, L, args, name):
    if name == 'std::make_pair':
        return ok(st, ('agg', 'struct', (('first', args[0][1]), ('second', args[1][1]))))
    if len(args) == 2:
        I.write(st, L, ('agg', 'struct', (('first', args[0][1]), ('second', args[1][1]))), e, event=False)
        return ok(st)
    if len(args) == 1:
        I.write(st, L, args[0][1], e, event=False)
        return ok(st)
    return NotImplemented


@rx(r'std::(vector|deque|list|map|unordered_map|multimap|set|unordered_set|multiset)::(vector|deque|list|map|unordered_map|multimap|set|unordered_set|multiset)')
def m_cctor(I, st, fr, e, L, args, name):
    k = kind(name, name)
    pts = [p for p in e['pt'] if not p.startswith(('const std::allocator', 'const std::less', 'const std::hash', 'const std::equal_to'))]
    real = [a for a, p in zip(args, e['pt']) if not p.startswith(('const std::allocator', 'const std::less', 'const std::hash', 'const std::equal_to'))]
    if not real or (len(real) == 1 and pts[0] in ('unsigned long', 'size_type') and isc(real[0][1]) and real[0][1][1] == 0):
        v = ('agg', k, ())
    elif 'initializer_list' in pts[0]:
        v = to_agg(I, k, real[0][1]) or ('new', name, real[0][1])
    elif len(real) == 1 and strip1(pts[0]) in name:
        v = real[0][1]
    elif pts[0] == 'unsigned long' and isc(real[0][1]) and real[0][1][1] <= 64 and len(real) == 2:
        v = ('agg', k, (real[1][1],) * real[0][1][1])
    elif pts[0] == 'unsigned long':
        v = ('sized', real[0][1], real[1][1] if len(real) > 1 else ('zero',))
    else:
        v = ('new', name, tuple(a[1] for a in real))
    I.write(st, L, v, e, event=False)
    return ok(st)


def strip1(t):
    return t.replace('const ', '').split('<')[0].strip()


def csize(I, v):
    if v[0] == 'agg' and v[1] in ('list', 'set', 'map', 'arr'):
        return C(len(v[2]))
    if v[0] == 'sized':
        return v[1]
    return ('size', v)


@rx(CONT + r'(?:size|length)')
def m_csize(I, st, fr, e, L, args, name):
    return ok(st, csize(I, I.read(st, L)))


@rx(CONT + r'empty')
def m_cempty(I, st, fr, e, L, args, name):
    return ok(st, I.eq(csize(I, I.read(st, L)), C(0)))


def has(I, v, k):
    if v[0] == 'agg':
        h = I.agg_has(v, k)
        if h is not None:
            return C(h)
    if v[0] == 'rec' and v[1][0] == 'agg' and isc(k):
        for s, _ in v[2]:
            if s[0] == ('i', k):
                return TRUE
        return has(I, v[1], k)
    return ('has', v, k)


@rx(CONT + r'(?:count|contains)')
def m_count(I, st, fr, e, L, args, name):
    h = has(I, I.read(st, L), args[0][1])
    if name.endswith('contains'):
        return ok(st, h)
    return [(s, 'n', C(1 if b else 0)) for s, b in I.branch(st, h)]


@rx(CONT + r'find')
def m_find(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    return ok(st, ('it', v, args[0][1], L))


@rx(CONT + r'c?end|std::end|std::cend')
def m_end(I, st, fr, e, L, args, name):
    L = L if L is not None else args[0][0]
    return ok(st, ('end', I.read(st, L), L))


@rx(CONT + r'c?begin|std::begin|std::cbegin')
def m_begin(I, st, fr, e, L, args, name):
    L = L if L is not None else args[0][0]
    return ok(st, ('begin', I.read(st, L), L))


@model(S + 'begin', S + 'cbegin', S + 'end', S + 'cend', S + 'rbegin', S + 'rend')
def m_sbegin(I, st, fr, e, L, args, name):
    return ok(st, (name.rsplit('::', 1)[1].lstrip('c') if 'r' not in name.rsplit('::', 1)[1][:1] else name.rsplit('::', 1)[1], I.read(st, L), L))


@model('std::find')
def m_stdfind(I, st, fr, e, L, args, name):
    b, en, x = args[0][1], args[1][1], args[2][1]
    if b[0] == 'begin' and en[0] == 'end' and b[2] == en[2]:
        return ok(st, ('it', b[1], x, b[2]))
    return ok(st, ('call', 'std::find', b, en, x))


@model('std::count')
def m_stdcount(I, st, fr, e, L, args, name):
    b, en, x = args[0][1], args[1][1], args[2][1]
    if b[0] == 'begin' and en[0] == 'end' and b[2] == en[2]:
        return [(s, 'n', C(1 if k else 0)) for s, k in I.branch(st, has(I, b[1], x))]
    return ok(st, ('call', 'std::count', b, en, x))


@rx(r'std::(?:_Rb_tree_(?:const_)?iterator|__detail::_Node_(?:const_)?iterator|_List_(?:const_)?iterator)::operator(?:\*|->)|__gnu_cxx::__normal_iterator::operator(?:\*|->)')
def m_itderef(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    if v[0] == 'it':
        agg, k, cL = v[1], v[2], v[3]
        P = ('f', cL, ('pair', k))
        if 'map' in (e.get('t') or '') or 'pair<' in (e.get('t') or ''):
            st.mem[('f', P, 'first')] = k
            val = I.part(agg, 'i', k, ('i', cL, k))
            st.mem[('f', P, 'second')] = val
            return ok(st, ('ref!', P) if name.endswith('*') else ('&', P))
        st.mem[P] = k
        return ok(st, ('ref!', P) if name.endswith('*') else ('&', P))
    X = ('*', v)
    return ok(st, ('ref!', X) if name.endswith('*') else ('&', X))


@rx(MAP + r'at')
def m_mapat(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    k = args[0][1]
    res = []
    for s, b in I.branch(st, has(I, v, k)):
        if b:
            res.append((s, 'n', ('ref!', ('i', L, k))))
        else:
            res.append((s, 'x', ('std::out_of_range', ('new', 'std::out_of_range'), I.loc(e))))
    return res


@rx(MAP + r'operator\[\]')
def m_mapidx(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    k = args[0][1]
    I.emit(st, ('mapidx', L, v, k, I.loc(e)))
    if v[0] == 'agg' and v[1] == 'map' and I.agg_has(v, k) is False:
        st.mem[L] = ('agg', 'map', v[2] + ((k, ('zero',)),))
    return ok(st, ('ref!', ('i', L, k)))


@rx(VEC + r'(?:operator\[\]|at)')
def m_vidx(I, st, fr, e, L, args, name):
    return ok(st, ('ref!', ('i', L, args[0][1])))


@rx(VEC + r'(?:front|back)')
def m_vfront(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    if name.endswith('front'):
        return ok(st, ('ref!', ('i', L, C(0))))
    n = csize(I, v)
    return ok(st, ('ref!', ('i', L, C(n[1] - 1) if isc(n) else ('op', '+', n, C(-1)))))


@rx(VEC + r'data')
def m_vdata(I, st, fr, e, L, args, name):
    return ok(st, ('&', ('i', L, C(0))))


@rx(VEC + r'(?:push_back|emplace_back)')
def m_push(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    x = args[0][1] if len(args) == 1 else ('new', 'emplace', tuple(a[1] for a in args))
    if v[0] == 'agg' and v[1] == 'list' and len(v[2]) < 200:
        nv = ('agg', 'list', v[2] + (x,))
    else:
        nv = ('pushed', v, x)
    I.write(st, L, nv, e)
    if name.endswith('emplace_back'):
        return ok(st, ('ref!', ('i', L, ('top', 'last', I.uid(e)))))
    return ok(st)


@rx(SET + r'(?:insert|emplace)')
def m_sinsert(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    if len(args) != 1:
        return NotImplemented
    x = args[0][1]
    if v[0] == 'agg' and v[1] == 'set':
        nv = v if any(y == x for y in v[2]) else ('agg', 'set', v[2] + (x,))
    else:
        nv = ('pushed', v, x)
    I.write(st, L, nv, e)
    return ok(st)


@rx(MAP + r'(?:insert|emplace|try_emplace)')
def m_minsert(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    if len(args) == 1:
        p = pair(args[0][1])
    elif len(args) == 2:
        p = (args[0][1], args[1][1])
    else:
        p = None
    I.emit(st, ('mapins', L, v, p[0] if p else args[0][1], I.loc(e)))
    if p is None:
        I.write(st, L, ('pushed', v, args[0][1]), e)
        return ok(st, ('top', 'ins', I.uid(e)))
    res = []
    for s, b in I.branch(st, has(I, v, p[0])):
        s = s.copy()
        if not b:
            if v[0] == 'agg':
                I.write(s, L, ('agg', 'map', v[2] + (p,)), e)
            else:
                I.write(s, ('i', L, p[0]), p[1], e)
        res.append((s, 'n', ('agg', 'struct', (('first', ('it', v if b else I.read(s, L), p[0], L)), ('second', C(not b))))))
    return res


@rx(CONT + r'clear')
def m_clear(I, st, fr, e, L, args, name):
    I.write(st, L, ('agg', kind(name, name), ()), e)
    return ok(st)


@rx(VEC + r'resize')
def m_resize(I, st, fr, e, L, args, name):
    v = I.read(st, L)
    I.write(st, L, ('resized', v, args[0][1]), e)
    return ok(st)


@rx(r'std::(?:function)::function')
def m_function(I, st, fr, e, L, args, name):
    I.write(st, L, args[0][1] if args else NULL, e, event=False)
    return ok(st)


@rx(r'std::function::operator=')
def m_functionasg(I, st, fr, e, L, args, name):
    I.write(st, L, args[0][1], e)
    return ok(st, ('ref!', L))


@rx(r'std::function::operator bool')
def m_functionb(I, st, fr, e, L, args, name):
    return ok(st, I.tobool(I.read(st, L)))


@model('std::get')
def m_get(I, st, fr, e, L, args, name):
    a = args[0]
    i = e['ta'][0].rstrip('ULul')
    v = a[1]
    if v[0] == 'tuple' and i.isdigit() and int(i) < len(v[1]):
        return ok(st, v[1][int(i)])
    if a[0] is not None:
        f = {'0': 'first', '1': 'second'}.get(i, i)
        x = I.read(st, ('f', a[0], f))
        if x[0] == '&' and len(x) == 3:         # an element of reference type
            return ok(st, ('ref!', x[1]))
        return ok(st, ('ref!', ('f', a[0], f)))
    return ok(st, ('part', v, 'f', {'0': 'first', '1': 'second'}.get(i, i)))


@model('std::transform')
def m_transform(I, st, fr, e, L, args, name):
    # std::transform(in.begin(), in.end(), inserter(out), f): whole-container only
    b, en, o = args[0][1], args[1][1], args[2][1]
    if b[0] == 'begin' and en[0] == 'end' and b[2] == en[2] and o[0] == 'inserter':
        I.write(st, o[1], ('mapped', b[1], args[3][1][:2]), e)
        return ok(st)
    return NotImplemented


@model('std::inserter', 'std::back_inserter')
def m_inserter(I, st, fr, e, L, args, name):
    return ok(st, ('inserter', args[0][0]))


@model('abs', 'fabs', 'std::abs', 'std::fabs', 'sqrt', 'std::sqrt', 'pow', 'std::pow', 'exp', 'std::exp', 'sin', 'cos', 'std::sin', 'std::cos', 'log', 'std::log',
       'acos', 'std::acos', 'atan2', 'std::atan2', 'tan', 'std::tan', 'floor', 'std::floor', 'ceil', 'std::ceil', 'std::isnan', 'isnan')
def m_math(I, st, fr, e, L, args, name):
    return ok(st, ('call', name.replace('std::', ''), None) + tuple(a[1] for a in args))


@model('memcmp', 'std::memcmp')
def m_memcmp(I, st, fr, e, L, args, name):
    a, b = (I.read(st, x[1][1]) if x[1][0] in ('&', 'arr!') else x[1] for x in args[:2])
    if a[0] == 'fn' and b[0] == 'fn':
        return ok(st, C(0 if a[1] == b[1] else 1))
    return ok(st, ('cmp', a, b))
