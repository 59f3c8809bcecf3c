#!/usr/bin/env python3
# plant.py ID           re-examine a planted bug and run its property's check on it
# plant.py ID < spec    make it first. The spec: lines PROP, FILE, NEEDS, WHAT ("KEY: text"), then the edits as
#                       in fix1.py after a line EDIT, then the demonstration's C++ after a line DEMO.
import sys, os, subprocess, json, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
V = os.path.abspath(V)
id = sys.argv[1]
D = V + '/seeded/' + id
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def die(m): sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh'); print('PLANT FAILED:', m); sys.exit(1)
assert not sh('git -C /repo status --porcelain -uno').stdout.strip()
if not sys.stdin.isatty() and len(sys.argv) < 3:
    t = sys.stdin.read()
    head, rest = t.split('\nEDIT\n', 1)
    edits, demo = rest.split('\nDEMO\n', 1)
    h = dict(re.match(r'(\w+): (.*)', l).groups() for l in head.strip().split('\n'))
    for part in edits.split('\n#####\n'):
        f = h['FILE']
        if part.startswith('@'): f, part = part[1:].split('\n', 1)
        old, new = ('\n' + part.rstrip('\n') + '\n').split('\n===\n')
        old, new = old[1:], new.rstrip('\n')
        s = open('/repo/' + f).read()
        if s.count(old) != 1: die('%s: %d times: %s' % (f, s.count(old), old))
        open('/repo/' + f, 'w').write(s.replace(old, new))
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    open(D + '/demo.cc', 'w').write(demo)
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
# Run in /repo after the build: 0 when the behaviour demo.cc expects is there.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/inc" "$d/run" && ln -s "$PWD" "$d/inc/ustl" || exit 2
gcc-12 -std=c++14 -O1 -g -DNDEBUG=1 -w -I"$d/inc" -I"$PWD" -o "$d/demo" "$here/demo.cc" _build/ustl/libustl.a -lsupc++ -lm -lpthread || exit 2
cd "$d/run" && timeout 120 "$d/demo"
''')
    json.dump(dict(property=h['PROP'], needs=h['NEEDS'], what_it_breaks=h['WHAT']), open(D + '/meta.json', 'w'), indent=1)
    sh('git -C /repo checkout -- .')
meta = json.load(open(D + '/meta.json'))
r = sh('bash /opt/vp/build.sh')
if r.returncode: die('clean build')
r = sh('bash %s/demo.sh' % D, cwd='/repo')
if r.returncode: die('demo on the clean tree: %d\n%s' % (r.returncode, r.stdout[-2000:]))
r = sh('git -C /repo apply %s/patch.diff' % D)
if r.returncode: die('apply ' + r.stdout)
r = sh('bash /opt/vp/build.sh')
if r.returncode: die('build with the patch\n' + r.stdout[-2000:])
r = sh('bash /opt/vp/test.sh /tmp/plant-test.json')
if 'FAIL' in r.stdout or len(re.findall('^PASS', r.stdout, re.M)) != 33: die('tests with the patch\n' + r.stdout[-3000:])
r = sh('bash %s/demo.sh' % D, cwd='/repo')
print('demo with the patch:', r.returncode, r.stdout.strip()[-300:])
if r.returncode == 0: die('demo does not notice')
if r.returncode == 2: die('demo does not build?')
c = sh('python3 check.py %s quick' % meta['property'], cwd=V)
v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
print('check %s: exit %d %s' % (meta['property'], c.returncode, v))
print('\n'.join(c.stdout.strip().split('\n')[-12:])[:1500] if c.returncode != 1 else '\n'.join(l for l in c.stdout.split('\n') if 'event:' in l)[:400])
sh('git -C /repo checkout -- .')
sh('bash /opt/vp/build.sh')
print('PLANT %s %s %s' % (id, meta['property'], 'CAUGHT' if c.returncode == 1 and v and 'property=' + meta['property'] in v[0] else 'MISSED'))
