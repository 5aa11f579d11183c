#!/usr/bin/env python3
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)['id'] for x in open(os.path.join(here, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 run.py --selftest',
     'checks': [{'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                 'technique': CHECKS[i]['technique'], 'level': CHECKS[i]['level'], 'level_note': CHECKS[i]['note']} for i in ids if i in CHECKS],
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')} for i in ids if i not in CHECKS]}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
