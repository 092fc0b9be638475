#!/usr/bin/env python3
"""usage: check.py <property id> ...   (exit 0: holds, 1: VIOLATION, 2: no answer)"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(10000)
import registry

if __name__ == '__main__':
    rc = 0
    for pid in sys.argv[1:]:
        rc = max(rc, registry.run(pid))
    sys.exit(rc)
