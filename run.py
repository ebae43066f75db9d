#!/usr/bin/env python3
"""run.py PID [quick|thorough] [--repo=DIR]: decide one property from the source"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    mod = next(f[:-3] for f in sorted(os.listdir(os.path.join(os.path.dirname(
        os.path.abspath(__file__)), 'checks'))) if f.lower().startswith(pid.lower() + '_'))
    m = importlib.import_module('checks.' + mod)
    from sa.report import main as go
    return go(m.SPEC, m.run, sys.argv[2:])


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, *sys.argv])
    sys.exit(main())
