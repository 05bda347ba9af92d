#!/usr/bin/env python3
"""check.py PROPERTY [--only CASE] [--keep] [--list]; VERIF_SEED, VERIF_TIER select the workload. check.py --setup builds the framework."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(a):
    from bv import core
    if a[0] == '--setup':
        core.build_binder('plain'); core.build_binder('asan'); core.build_pch()
        return 0
    from bv.checks import load
    tier, seed = os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in a: tier = 'thorough'
    if '--quick' in a: tier = 'quick'
    only = a[a.index('--only') + 1] if '--only' in a else None
    return load(a[0]).run(seed, tier, only=only, keep='--keep' in a)


sys.exit(main(sys.argv[1:]))
