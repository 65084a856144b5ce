"""Family E: the build options of the EVPFFT programs."""
import glob
import itertools
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from sa import facts
from sa.interp import Undecided
from sa.prog import calls_in, walk
from checks.ev import BASE
from checks.ecore import program, DEFAULT
from checks.eio import INC

FIERRO = re.compile(r'\bBUILD_\w*FIERRO\b')
PART = ('TWO_SIGN_SLIP_SYSTEMS', 'NON_SCHMID_EFFECTS', 'ABSOLUTE_NO_OUTPUT', 'ENABLE_PROFILING')
# an error that is about the declarations standing in for libraries says nothing about the program
FOREIGN = re.compile(r"mtr::|Kokkos|heffte|MPI_|H5\w|hid_t|std::|'fatal|file not found")
WRITES = ('fopen', 'freopen', 'fprintf', 'vfprintf', 'fputs', 'fwrite', 'mkdir', 'H5Fcreate', 'H5Dwrite', 'MPI_File_open')


def options(d):
    """the options the build of this program passes on to the sources"""
    try:
        t = open(d + '/CMakeLists.txt').read()
    except OSError:
        return []
    return sorted({m for m in re.findall(r'add_definitions\(\s*-D(\w+)=1\s*\)', t) if m in PART or FIERRO.fullmatch(m)})


def compile_unit(args):
    srcs, flags = args
    fd, tu = tempfile.mkstemp(suffix='.cpp', prefix='opt-')
    with os.fdopen(fd, 'w') as f:
        f.write(''.join('#include "%s"\n' % s for s in srcs))
    try:
        r = subprocess.run(['clang++', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics'] + flags + [tu], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        os.unlink(tu)
    out = []
    for l in r.stdout.splitlines():
        m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            out.append((m[1].replace(facts.REPO + '/', ''), int(m[2]), m[3]))
    return out


def e20(res, tier):
    res.rule('every combination of the documented build options is type-checked; an error that a combination has and the default build has not is a violation')
    res.rule('with ABSOLUTE_NO_OUTPUT no call that makes or writes a file is reachable from the solver (call graph)')
    jobs = []
    for d in sorted(glob.glob(BASE + '/*/src')):
        app = d.split('/')[-2]
        opts = options(d)
        if not opts:
            res.undecided('options', app)
            continue
        for n in range(len(opts) + 1):
            for sel in itertools.combinations(opts, n):
                # single options and all of them; every combination in the thorough run
                if tier == 'quick' and n not in (0, 1, len(opts)) and not any(FIERRO.fullmatch(s) for s in sel):
                    continue
                srcs, flags = program(app, DEFAULT + tuple(s + '=1' for s in sel))
                jobs.append((app, sel, srcs, flags))
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(compile_unit, [(s, f) for _, _, s, f in jobs]))
    base = {a: set(e) for (a, sel, _, _), e in zip(jobs, got) if not sel}
    broken = set()
    for (app, sel, srcs, _), errs in zip(jobs, got):
        res.analysed['units'].add('%s with %s' % (app, ' '.join(sel) or 'no option'))
        new = [e for e in errs if e not in base.get(app, ())]
        if base.get(app) and not sel:
            res.undecided('default', '%s: %s' % (app, errs[0][2][:80]))
        own = [e for e in new if not FOREIGN.search(e[2]) and e[0].startswith('apps/')]
        if new and not own:
            res.undecided('builds', '%s with %s: %s' % (app, ' '.join(sel), new[0][2][:80]))
        elif own:
            first = [e for e in own if (app, e) not in broken]
            broken |= {(app, e) for e in own}
            for e in first[:3]:
                res.fail('builds', '%s:%d' % e[:2], 'with %s this does not compile: %s' % (' '.join(sel), e[2]))
        else:
            res.ok('builds')
    quiet(res)


def reach(P):
    """functions reachable from the solver, and how"""
    work = [f for f in P.funcs.values() if f['full'] in ('EVPFFT::EVPFFT', 'EVPFFT::solve', 'EVPFFT::evolve', 'EVPFFT::~EVPFFT')]
    seen = {f['fid']: None for f in work}
    while work:
        f = work.pop()
        for x in walk([f.get('body'), f.get('init')]):
            for g in (x.get('fid'), x.get('dtor')):
                for h in [P.funcs[g]] + P.overriders.get(g, []) if g in P.funcs else []:
                    if h['fid'] not in seen:
                        seen[h['fid']] = f['fid']
                        work.append(h)
    return seen


def writes(x):
    n = x.get('fn', '')
    if n in WRITES:
        a = x.get('a') or [{}]
        if n in ('fprintf', 'vfprintf', 'fputs') and any(y.get('k') == 'ref' and y['n'] in ('stderr', 'stdout') for y in walk(a)):
            return None
        if n == 'fopen':
            m = [y['v'] for y in walk(a[1:]) if y.get('k') == 'str']
            if m and 'w' not in m[0] and 'a' not in m[0] and '+' not in m[0]:
                return None
        return n
    if x['k'] == 'ctor' and re.match(r'std::basic_(o|)fstream<', n) and x.get('a'):
        return 'an output stream'
    if re.match(r'std::basic_(o|)fstream<.*::open$', n):
        return 'an output stream'
    return None


def quiet(res):
    for d in sorted(glob.glob(BASE + '/*/src')):
        app = d.split('/')[-2]
        opts = options(d)
        if 'ABSOLUTE_NO_OUTPUT' not in opts:
            continue
        for link in [()] + [(o,) for o in opts if FIERRO.fullmatch(o)]:
            srcs, flags = program(app, DEFAULT + ('ABSOLUTE_NO_OUTPUT=1',) + tuple(o + '=1' for o in link))
            fd, tu = tempfile.mkstemp(suffix='.cpp', prefix=app + '-')
            with os.fdopen(fd, 'w') as f:
                f.write(''.join('#include "%s"\n' % s for s in srcs))
            try:
                P = facts.facts(tu, flags, [facts.REPO], allow_errors=True)
            finally:
                os.unlink(tu)
            P.source = '%s with ABSOLUTE_NO_OUTPUT %s' % (app, ' '.join(link))
            res.unit(P)
            if P.errors:
                res.undecided('output', P.source)
                continue
            seen = reach(P)
            if len(seen) < 10:
                res.undecided('output', 'few functions reachable in ' + P.source)
            res.analysed['functions'] |= {app + ': ' + P.funcs[f]['full'] for f in seen}
            bad = None
            for fid in seen:
                f = P.funcs[fid]
                for x in walk([f.get('body'), f.get('init')]):
                    if x.get('k') in ('call', 'ctor'):
                        res.analysed['call_sites'] += 1
                        w = writes(x)
                        if w:
                            bad = (x, w, fid)
                            c, k = [], fid
                            while k and len(c) < 6:
                                c.append(P.funcs[k]['short'])
                                k = seen[k]
                            res.fail('output', P.where(x), 'built with ABSOLUTE_NO_OUTPUT%s the solver still reaches %s (%s)' % (''.join(' ' + o for o in link), w, ' < '.join(c)))
            if not bad:
                res.ok('output')


CHECKS = {'E20': e20}
