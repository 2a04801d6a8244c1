#!/opt/venv/bin/python
"""run.py <property> [quick|thorough] [--seed N] [--case NAME ...] [--replay FILE] [--procs N]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=None, choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--case', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int)
    a = ap.parse_args()
    from harness import common
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return common.replay(a.prop, a.replay)
    return common.main(a.prop, tier, seed, only=a.case, procs=a.procs)


if __name__ == '__main__':
    try:
        code = cli()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
