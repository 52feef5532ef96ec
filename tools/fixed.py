#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT TEXT: append a repaired defect to known-findings.json"""
import json, sys
import os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json'); L = json.load(open(p)); pr, c, w = sys.argv[1:4]
L.append({'id': 'F%02d' % (len(L) + 1), 'property': pr, 'status': 'fixed', 'commit': c, 'what': 'fixed: property=%s %s %s' % (pr, c, w)})
open(p, 'w').write('[\n' + ',\n'.join(' ' + json.dumps(x) for x in L) + '\n]\n')
