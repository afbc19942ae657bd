#!/usr/bin/env python3
"""Regenerates MANIFEST.json from sa/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/sa')
import registry
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
ids = [p['id'] for p in props]
na = json.load(open(HERE + '/not-applicable.json')) if os.path.exists(HERE + '/not-applicable.json') else []
checks = []
for i in ids:
    c = registry.CHECKS.get(i)
    if not c:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
nas = [x['property'] for x in na]
for i in ids:
    assert (i in registry.CHECKS) != (i in nas), i
for i in list(registry.CHECKS) + nas:
    assert i in ids, i
m = {'version': 1, 'setup_cmd': 'python3 sa/extract.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: nothing of /repo is executed by a check. Each check re-extracts the MIR of the current tree with the rustc_private driver in driver/. Thorough tier: the same rules over the dev and the release MIR.'}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
