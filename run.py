#!/usr/bin/env python3
"""run.py setup | check ID [--tier quick|thorough] | replay FILE"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')


def main(a):
    if a[0] == 'setup':
        from irvc import driver
        driver.ensure_tool()
        return 0
    from irvc import check
    if a[0] == 'replay':
        return check.replay(a[1])
    from registry import PROPS
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    return check.check(a[1], tier, PROPS)


sys.exit(main(sys.argv[1:]))
