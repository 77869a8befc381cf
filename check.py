#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]: decides one property on /repo's working tree."""
import argparse
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.core import run_check, MachineryError  # noqa


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--replay')
    a = p.parse_args()
    try:
        return run_check(a.property, a.tier, a.seed, a.replay)
    except MachineryError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
