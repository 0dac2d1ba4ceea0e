#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
from proptable import PROPERTIES, NOT_APPLICABLE, LEVEL_NOTES  # noqa: E402
import registry  # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES:
        f.write(json.dumps(p) + '\n')
checks = []
for p in PROPERTIES:
    i = p['id']
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 /verif/sa/run.py %s quick' % i,
                       'thorough_cmd': 'python3 /verif/sa/run.py %s thorough' % i,
                       'technique': 'static analysis: ' + r.technique, 'level': r.level, 'level_note': LEVEL_NOTES.get(i, LEVEL_NOTES['*'])})
    else:
        assert i in NOT_APPLICABLE, i
man = {'version': 1, 'setup_cmd': 'bash /verif/tool/build.sh && python3 /verif/sa/front.py', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()]}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
