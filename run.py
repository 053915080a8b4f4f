"""Entry point of every check. See DESIGN.md.

run.py check C05 [--tier thorough] [--seed N] [--only sub,sub] [--scale X]
run.py replay FILE
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from fz import core  # noqa: E402


def main(argv):
    cmd = argv[0]
    if cmd == 'worker':
        prop, shard, k, tier, vseed, out, only, scale = argv[1:9]
        core.worker_main(prop, int(shard), int(k), tier, vseed, out,
                         [s for s in only.split(',') if s], float(scale))
        return 0
    if cmd == 'linecount':
        core.linecount_main(argv[1], argv[2], sys.stdin.read())
        return 0
    if cmd == 'one':
        return core.one_main(argv[1], argv[2], sys.stdin.read())
    if cmd == 'replay':
        return core.replay_main(argv[1])
    if cmd == 'setup':
        core.env.setup()
        import hypothesis
        print('hypothesis', hypothesis.__version__, 'fauxdoc from', core.env.SRC)
        return 0
    if cmd == 'check':
        ap = argparse.ArgumentParser()
        ap.add_argument('prop')
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
        ap.add_argument('--only', default='')
        ap.add_argument('--scale', type=float, default=1.0)
        ap.add_argument('-v', action='store_true')
        a = ap.parse_args(argv[1:])
        return core.check_main(a.prop, a.tier, a.seed,
                               [s for s in a.only.split(',') if s], a.scale, a.v)
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
