import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import boot  # noqa

boot.setup()
from vf import core  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay'])
    ap.add_argument('what')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    if a.cmd == 'replay':
        return core.replay(os.path.abspath(a.what))
    return core.check(a.what, a.tier, a.seed, a.only.split(',') if a.only else None, a.jobs, a.scale)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
