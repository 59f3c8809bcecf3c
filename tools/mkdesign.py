#!/usr/bin/env python3
# mkdesign.py HEAD > DESIGN.md: appends the tables of repairs and planted bugs to the text
import sys, os, json, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
print(open(sys.argv[1]).read().rstrip())
print()
k = json.load(open(V + '/known_findings.json'))
for x in k['fixed']:
    p, c, w = x[len('fixed: property='):].split(' ', 2)
    print('* %s `%s` %s' % (p, c, w))
print('''
## Planted bugs

Each was written from a property's text and the code, compiles, passes the
repository's tests and fails its demonstration; `tools/plant.py` made and examined them
(apply, build, tests, demonstration, quick check, undo). The quick check of the
property named catches each, from a replayable trace.

| change | caught by | needs | breaks |
|--------|-----------|-------|--------|''')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    print('| %s | %s | %s | %s |' % (d.split('/')[-2], m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
