#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks (bin/models.py) and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'bin'))
import models
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in models.CHECKS:
        specs = models.SPECS[i]
        checks.append(dict(
            property=i, quick_cmd=f'python3 bin/check.py {i} quick', thorough_cmd=f'python3 bin/check.py {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique='TLA+ model checked with TLC; ' + specs['how'],
            level='model_checking', level_note=specs['note']))
    else:
        na.append(dict(property=i, reason='no check has been built for this property yet'))
m = dict(version=1, setup_cmd='python3 bin/check.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the harness crate in /verif/harness drives the public API only.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
