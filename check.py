#!/usr/bin/env python3-vt
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from gvc import driver
    mod = importlib.import_module('checks.' + prop.lower())
    work = driver.Work(prop)
    try:
        return mod.check(driver, work, prop, tier, seed)
    except driver.CheckError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        work.close()


sys.exit(main())
