#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decide one property on /repo's working tree.
check.py setup - see that the tools are there.   check.py list"""
import sys, os, importlib, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True
import vf

def load(prop):
    m = importlib.import_module(prop.lower())
    return m.check

def setup():
    import shutil
    for t in ('java', 'g++-12', 'gcc-12', 'bash', 'make'):
        if not shutil.which(t):
            print('missing tool: ' + t)
            return 1
    if not os.path.exists(vf.JARS.split(':')[0]):
        print('missing TLC')
        return 1
    vf.tree()
    print('ready')
    return 0

if __name__ == '__main__':
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(64)
    if sys.argv[1] == 'setup':
        sys.exit(setup())
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(vf.main(load(sys.argv[1]), tier))
