#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from the source of /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.environ['SA_TIER'] = tier
    from sa import report
    mod = importlib.import_module('checks.' + prop.lower())
    rep = report.Report(prop, tier, seed)
    try:
        mod.run(rep)
    except report.Broken as e:
        print('ANALYSIS ERROR: %s' % e)
        rep.errs.append(('run', '', 'Broken', str(e), ''))
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())
