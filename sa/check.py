# -*- coding: utf-8 -*-
"""python3 -m sa.check <property> [--tier quick|thorough]"""
import argparse
import importlib
import os
import pkgutil
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)

from . import core, rules
from .model import AnchorMissing

PROPS = {}      # id -> (function, method, assumption)


def load():
    for m in pkgutil.iter_modules(rules.__path__):
        mod = importlib.import_module('sa.rules.' + m.name)
        for pid, entry in getattr(mod, 'PROPS', {}).items():
            assert pid not in PROPS, pid
            PROPS[pid] = entry


def run(pid, tier, seed):
    started = time.time()
    fn, method, note = PROPS[pid]
    try:
        ctx = core.Ctx(pid, tier, seed)
        core.END[0] = started + (780 if tier == 'quick' else 3300)
        try:
            core.limit(0)
            fn(ctx)
        except core.Undecided as e:
            ctx.und('time', pid, 'the analysis ended before everything was looked at: %s' % e)
        except AnchorMissing as e:          # what is left of the property is reported; nothing decided at all is no answer
            ctx.und('anchor', str(e), 'not found: %s' % e)
    except SyntaxError as e:
        print('analysis broken: cannot parse %s' % e)
        return 2
    finally:
        core.END[0] = None
        signal.setitimer(signal.ITIMER_REAL, 0)
    return core.report(ctx, note, method, started)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='+')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    load()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ids = sorted(PROPS) if a.property == ['all'] else a.property
    rc = 0
    for p in ids:
        try:
            r = run(p, a.tier, seed)
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if len(ids) > 1 else r
    sys.exit(rc)


if __name__ == '__main__':
    main()
