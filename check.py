#!/usr/bin/env python3
"""check.py <property id> : decides one property of /repo's current tree from its source."""
import sys, os, time, json, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    from checker import Check
    import facts
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    c = Check(pid, tier)
    broken = None
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(c)
        c.finish()
    except facts.Broken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return c.report(t0, broken)


if __name__ == '__main__':
    sys.exit(main())
