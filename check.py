#!/usr/bin/env python3
"""check.py PROPERTY: decide a property on /repo's current tree (see DESIGN.md)"""
import os, sys
if 'python3-vt' not in sys.argv[0] and not os.environ.get('VERIF_VT'):
    os.environ['VERIF_VT'] = '1'
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'dv'))
import runner
sys.exit(runner.main(sys.argv[1:]))
