#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide a property from the source in /repo."""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick', choices=('quick', 'thorough'))
    a = ap.parse_args()
    from vlib import check
    from checks import SPECS
    mod, name = SPECS[a.property]
    spec = getattr(importlib.import_module('checks.' + mod), name)
    sys.exit(check.main(a.property, a.tier, spec))
