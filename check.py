#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current sources."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    import chk
    from checks import REGISTRY
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ids = args or sorted(REGISTRY)
    if args == ['all']:
        ids = sorted(REGISTRY)
    rc = 0
    for pid in ids:
        fn, meta = REGISTRY[pid]
        try:
            r = chk.run_check(pid, fn, meta, tier, seed)
        except chk.AnalysisError as e:
            print('ERROR: %s: %s' % (pid, e))
            r = 2
        rc = max(rc, r) if 1 not in (rc, r) else 1
    sys.exit(rc)


if __name__ == '__main__':
    main()
