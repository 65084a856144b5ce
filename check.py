#!/usr/bin/env python3
"""check.py PROPERTY...  - decide properties by static analysis of /repo's current sources."""
import importlib, os, sys, traceback
sys.tracebacklimit = 6
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report, facts
from sa.interp import Undecided

MODULES = ['ys', 'yp', 'ev', 'eio', 'ecore', 'espmd', 'ebuild', 'mp', 'mb']


def registry():
    reg = {}
    for m in MODULES:
        if os.path.exists(os.path.join(facts.VERIF, 'checks', m + '.py')):
            reg.update(importlib.import_module('checks.' + m).CHECKS)
    return reg


def main(argv):
    reg = registry()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    props = argv or sorted(reg)
    worst = 0
    for p in props:
        res = report.Res(p)
        err = None
        try:
            reg[p](res, tier)
        except facts.ExtractError as x:
            err = str(x)
        except Undecided as x:
            res.undecided('analysis', str(x))
        except Exception:
            # a construct the analysis does not handle: no verdict from this point on
            traceback.print_exc()
            res.undecided('internal', traceback.format_exc()[-600:])
            if os.environ.get('VERIF_STRICT'):
                err = traceback.format_exc()
        rc = report.finish(res, tier, seed, err)
        worst = max(worst, rc) if rc != 1 else (1 if worst != 2 else worst)
    return worst


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
