#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (checks/c*.py) and properties.jsonl."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check registered yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='GLU_VERIF', enable='not needed: the checks interpose at link time (OpenMP runtime, malloc, sysconf, fopen), no hook is compiled into the repository', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
