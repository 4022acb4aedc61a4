#!/usr/bin/env python3
"""Decide one property of /repo from its source: python3 check.py <ID> [--all]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa import core  # noqa

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
