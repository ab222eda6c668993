#!/usr/bin/env python3
"""run_check.py CNN [--replay FILE] [--only CASE] [--debug] [--budget S]: decide one property on /repo's current code."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symex import driver

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    if a.replay:
        sys.exit(driver.replay(a.prop, a.replay))
    sys.exit(driver.run_check(a.prop, a.tier, int(os.environ.get('VERIF_SEED') or 1), a.jobs, a.only, a.debug, a.budget))
