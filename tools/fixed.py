#!/usr/bin/env python3
# fixed.py PROP COMMIT TEXT: record a repaired defect
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
j = json.load(open(p))
j['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
json.dump(j, open(p, 'w'), indent=1)
