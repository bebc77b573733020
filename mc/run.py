import argparse
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, REPO)
    from mc import core
    from mc import cov
    cov.start(REPO)
    import json
    import time
    try:
        import sporco
        assert os.path.realpath(sporco.__file__).startswith(
            os.path.realpath(REPO) + os.sep), sporco.__file__
        from mc import env
        env.setup()
    except Exception:
        # The code under test cannot even be imported: nothing holds.
        os.makedirs(core.REPLAYS, exist_ok=True)
        rp = os.path.join(core.REPLAYS, '%s-0.json' % a.prop)
        with open(rp, 'w') as f:
            json.dump({'property': a.prop, 'kind': 'import-failure',
                       'detail': traceback.format_exc()}, f)
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        traceback.print_exc()
        return 1
    mod = importlib.import_module('mc.checks.' + a.prop.lower())
    if a.replay:
        return core.replay(mod, a.replay)
    return core.explore(mod, tier, seed, a.workers)


if __name__ == '__main__':
    sys.exit(main())
