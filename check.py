#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: exit 0 held, 1 VIOLATION, 2 tool error"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/lib')
sys.setrecursionlimit(100000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = {'U': 'updater', 'A': 'eager', 'T': 'transformer', 'P': 'prediction'}[prop[0]]
    if prop == 'T12':
        mod = 'callgraph'
    if prop == 'T14':
        mod = 'files'
    if prop == 'T15':
        mod = 'analysis'
    if prop in ('P03', 'P04', 'P05'):
        mod = 'pipeline'
    m = __import__(mod)
    return m.run(prop, tier)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
