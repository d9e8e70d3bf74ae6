import json
import multiprocessing.connection    # noqa
import os
import sys

from vp import core


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier == '--replay':
        with open(argv[3]) as f:
            d = json.load(f)
        return core.run(pid, d['tier'], d['seed'], only=(d['shard'], d['i']))
    if tier == '--case':
        i = int(argv[4])
        return core.run(pid, 'quick', seed, only=(argv[3], i))
    if argv[3:4] == ['--case']:
        return core.run(pid, tier, seed, only=(argv[4], int(argv[5])))
    return core.run(pid, tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv))
