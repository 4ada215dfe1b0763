#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the tables in proofs/trusted.py and the registered proof groups"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import paths
import check
from proofs import trusted
common = check.load()
props = [json.loads(l) for l in open(os.path.join(paths.VERIF, 'properties.jsonl'))]
NA = trusted.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not common.groups_of(i):
        na.append({'property': i, 'reason': NA.get(i, 'machinery for this property is not finished yet')})
        continue
    checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': trusted.technique(i), 'level': trusted.level(i),
                   'level_note': trusted.level_note(i)})
m = {'version': 1, 'setup_cmd': './check-setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Contract-based deductive verification of the Python functions in /repo with pyvc (this repository) and z3; see DESIGN.md.'}
json.dump(m, open(os.path.join(paths.VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
