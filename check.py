"""Entry point of every check: check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import glob
import importlib.util
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common  # noqa: E402  (re-executes under the repository's interpreter)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    found = glob.glob(os.path.join(common.VERIF, 'checks', a.pid.lower() + '_*.py'))
    if len(found) != 1:
        print(f'no check for {a.pid}')
        return 2
    spec = importlib.util.spec_from_file_location(f'check_{a.pid}', found[0])
    mod = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(mod)
    except ImportError as e:
        print(f'{a.pid}: cannot import the code under test: {e}')
        return 2
    return common.run_all(mod, a.tier, a.seed, a.replay)


if __name__ == '__main__':
    sys.exit(main())
