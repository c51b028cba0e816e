#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import runner, props

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(runner.check(prop, props.PROPS[prop], tier, seed))

main()
