#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property on /repo's current working tree"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from checks import REGISTRY

if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(core.main(REGISTRY[prop], prop, tier, seed))
