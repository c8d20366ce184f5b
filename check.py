#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's working tree."""
import argparse, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import checks

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    return checks.run(a.property, a.tier)

if __name__ == '__main__':
    sys.exit(main())
