#!/usr/bin/env python3
# Writes MANIFEST.json from checks/*.py and properties.jsonl.
import sys, os, json, glob, importlib
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path[:0] = [V + '/lib', V + '/checks']
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'Z01': 'Code size and speed are not behaviour of a state machine; a TLA+ specification decides nothing about them.',
 'Z02': 'Accuracy of floating point digits is numeric accuracy; TLC has no floating point and the family does not address it (integer-valued floats are covered under C08 and T01).',
}
checks, na = [], []
for p in props:
    f = V + '/checks/%s.py' % p['id'].lower()
    if os.path.exists(f):
        c = importlib.import_module(p['id'].lower()).check
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique=getattr(c, 'technique', 'TLA+ specification %s.tla model checked with TLC; one implementation test per model transition and random histories recorded from the real code and validated as behaviours of the specification by TLC' % c.spec),
            level=c.level, level_note=getattr(c, 'level_note', 'The bounded model is explored completely; every model transition and a sample of longer histories is executed on the real code (address sanitizer on) and each recorded step must be a step of the specification. Trusts TLC, the driver\'s projection of the public state, and that histories beyond those run behave alike.')))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'Its specification and driver are not built yet.')))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
         notes='TLA+ with TLC. No hooks in the library: every state the specifications talk about is visible through the public interface. See DESIGN.md.')
m['hooks'] = dict(guard='none', enable='no hooks are needed; the checks compile the sources of /repo as they are', source_commits=[])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
