#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from plans import PLANS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = lib.Check(prop, tier, seed)
    try:
        return PLANS[prop](c)
    except Exception as e:
        if c.violations:
            # What the real code did wrong stands, whatever stopped the rest.
            return c.finish('model_checking', 'stopped early: %s' % e)
        if isinstance(e, lib.CheckError):
            print('ERROR: %s' % e)
        else:
            traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        c.cleanup()


if __name__ == '__main__':
    sys.exit(main())
