#!/usr/bin/env python3
# fix1.py PROP FILE MSG FINDING: reads "old\n===\nnew" from stdin (several pairs separated by "\n#####\n"),
# edits FILE in /repo, builds, tests, commits and records the repaired defect.
import sys, subprocess, os
prop, fs, msg, what = sys.argv[1:5]
here = os.path.dirname(os.path.abspath(__file__))
for part in sys.stdin.read().split('\n#####\n'):
    f = fs
    if part.startswith('@'):
        f, part = part[1:].split('\n', 1)
    old, new = ('\n' + part.rstrip('\n') + '\n').split('\n===\n')
    old, new = old[1:], new.rstrip('\n')
    if not new and old.endswith('\n'): pass
    p = '/repo/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
r = subprocess.run(['bash', here + '/fixcommit.sh', 'fix: ' + msg], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(r.stdout)
if r.returncode: sys.exit(1)
c = r.stdout.strip().split('\n')[-1].split()[0]
subprocess.run([sys.executable, here + '/fixed.py', prop, c, what], check=True)
