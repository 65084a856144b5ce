"""Builds the extractor when needed and extracts facts from /repo's current tree."""
import fcntl, hashlib, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def extractor():
    """Path of an extractor built from tools/extract.cpp as it is now."""
    src = os.path.join(VERIF, 'tools', 'extract.cpp')
    want = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    pre = os.path.join(VERIF, 'tools', 'extract-%s' % want)
    if os.access(pre, os.X_OK):
        return pre
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'extract-%s' % want)
    if os.access(out, os.X_OK):
        return out
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.access(out, os.X_OK):
            tmp = out + '.tmp'
            subprocess.check_call(['g++', '-O1', '-s', '-std=c++17', '-fno-rtti', '-fno-exceptions',
                                   '-I' + LLVM + '/include', src, '-o', tmp,
                                   LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18'])
            os.rename(tmp, out)
    return out


class ExtractError(Exception):
    pass


_mem = {}


def facts(source, flags, roots, allow_errors=False):
    """Prog for one translation unit (cached in memory for this process only)."""
    from .prog import Prog
    key = (source, tuple(flags), tuple(roots))
    if key in _mem:
        return _mem[key]
    ex = extractor()
    fd, out = tempfile.mkstemp(suffix='.json', prefix='facts')
    os.close(fd)
    try:
        r = subprocess.run([ex, out, ':'.join(roots), source, '--'] + list(flags),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if os.path.getsize(out) == 0:
            raise ExtractError('no facts from %s:\n%s' % (source, r.stderr[-3000:]))
        P = Prog(out)
        P.stderr = r.stderr
        P.source = source
        if P.errors and not allow_errors:
            raise ExtractError('%d errors in %s:\n%s' % (P.errors, source, r.stderr[-3000:]))
    finally:
        os.unlink(out)
    _mem[key] = P
    return P
