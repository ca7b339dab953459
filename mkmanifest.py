#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS
props = [json.loads(l) for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --thorough' % i,
                                technique=c.get('technique', 'stateless bounded model checking of the implementation: exhaustive enumeration of ' + c['space']),
                                level='model_checking', level_note=c.get('note', 'Exhaustive within the stated bounds on the real code, compiled from /repo; says nothing outside the enumerated alphabets. Trusts the compiler, Armadillo/LAPACK and the oracle in mc/%s.' % c['src'])))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
