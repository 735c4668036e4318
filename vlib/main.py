import argparse
import os
import sys
import traceback

from . import env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--part', action='append')
    ap.add_argument('--replay')
    args = ap.parse_args()
    try:
        env.setup()
        from . import runner
        if args.replay:
            return runner.replay(args.replay)
        seed = int(os.environ.get('VERIF_SEED', '1'))
        return runner.check(args.prop, args.tier, seed, args.part)
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    env._cleanup()
    os._exit(code)
