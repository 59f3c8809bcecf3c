#!/usr/bin/env python3
# rerun.py REPLAY.json: run a replay's script again with symbolised sanitizer output.
import sys, os, json, subprocess, importlib
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path[:0] = [os.path.join(R, 'lib'), os.path.join(R, 'checks')]
import vf
j = json.load(open(sys.argv[1]))
d = [x for x in importlib.import_module(j['property'].lower()).check.drivers if x['name'] == j['driver'] and x.get('flags') == j['flags']][0]
exe = vf.build(d['name'], **{k: v for k, v in d.items() if k in ('flags', 'san', 'extra', 'link')})
w = vf.Work()
sp = w.path('.scr'); vf.write_script(sp, [j['script']])
e = dict(vf.RUNENV); e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('symbolize=0', 'symbolize=1').replace('malloc_context_size=3','malloc_context_size=12')
r = subprocess.run([exe, sp, sp + '.out', '0'], env=e, cwd=w.d)
print(open(sp + '.out').read()[-1500:])
w.close()
